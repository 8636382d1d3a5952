------------------------------ MODULE StatTest ------------------------------
(***************************************************************************)
(* Statistical tests.                                                       *)
(*  - the figures of a result, from the observed value and the null values; *)
(*    the values themselves are reals unknown here, so they appear as       *)
(*    Arg(1) (observed) and Arg(2..n+1) (null values, in order) and only    *)
(*    their order (ranks, as integers) is known;                            *)
(*  - which null values a test can produce: the measure on data whose       *)
(*    source rows are rearranged by a map of the positions (a permutation   *)
(*    or, for the bootstrap, any map), everything else in place.            *)
(***************************************************************************)
EXTENDS Measures

\* ---- figures: r = rank of the observed value, rs = ranks of the null values -----------
NullArg(i) == Arg(i + 1)
PValue(r, rs) == Q(Cardinality({i \in 1..Len(rs) : rs[i] > r}), Len(rs))
NullMean(n) == MeanT([i \in 1..n |-> NullArg(i)])
Constant(rs) == \A i \in 1..Len(rs) : rs[i] = rs[1]
\* given the mean (recorded as argument n + 2) and the deviation (argument n + 3)
NullStd(rs) == LET n == Len(rs)  m == Arg(n + 2) IN
    IF Constant(rs) THEN Zero
    ELSE Sqrt(Div(Sum([i \in 1..n |-> Mul(Sub(NullArg(i), m), Sub(NullArg(i), m))]), I(n - 1)))
TScore(rs) == LET n == Len(rs) IN IF Constant(rs) THEN NaN ELSE Div(Sub(Arg(1), Arg(n + 2)), Arg(n + 3))
\* positions in increasing order of their values
RECURSIVE Sorted(_, _)
Sorted(rs, S) == IF S = {} THEN <<>>
    ELSE LET i == CHOOSE i \in S : \A j \in S : rs[i] < rs[j] \/ (rs[i] = rs[j] /\ i <= j)
         IN  <<i>> \o Sorted(rs, S \ {i})
Order(rs) == TLCEval(Sorted(rs, 1..Len(rs)))
\* the q = a/b percentile: position (n - 1) q / 100 between the sorted values
Percentile(rs, a, b, how) ==
    LET o   == Order(rs)
        num == a * (Len(rs) - 1)
        den == 100 * b
        lo  == num \div den
        hi  == IF num % den = 0 THEN lo ELSE lo + 1
        vlo == NullArg(o[lo + 1])  vhi == NullArg(o[hi + 1])
    IN  CASE how = "lower"    -> vlo
          [] how = "higher"   -> vhi
          [] how = "midpoint" -> Div(Add(vlo, vhi), I(2))
          [] how = "nearest"  -> IF 2 * (num % den) < den THEN vlo ELSE vhi    \* never half way here
          [] OTHER -> IF lo = hi THEN vlo ELSE Add(vlo, Mul(Q(num % den, den), Sub(vhi, vlo)))
\* confidence level a/b percent
Interval(rs, a, b, how) == << Percentile(rs, 100 * b - a, 2 * b, how), Percentile(rs, 100 * b + a, 2 * b, how) >>

\* ---- refusals ---------------------------------------------------------------------------
\* n and level are tagged values as in Config: <<"num", n, d>>, <<"text", s>>, <<"other", s>>
Methods == {"permutation_test", "bootstrap"}
TestRefused(n, method) == \/ n[1] # "num" \/ n[3] # 1 \/ n[2] < 2 \/ method \notin Methods
LevelRefused(a, b) == ~(0 < a /\ a < 100 * b)
PercentRefused(a, b) == ~(0 <= a /\ a <= 100 * b)

\* ---- null samples ----------------------------------------------------------------------
\* what is rearranged: the source windows, or the source observations after pairing
\* (order patterns for the ordinal approaches)
SeenPair(c) == LET v == TLCEval(Paired(c)) IN TLCEval([i \in 1..Len(v) |-> AsSeen(c, v[i])])
Rows(c) == IF c.kind \in {"te", "cte"} THEN Len(WindowsOf(c).fut) ELSE Len(SeenPair(c)[1])
Maps(n, method) == IF method = "permutation_test" THEN Permutations(1..n) ELSE [1..n -> 1..n]
Rearranged(s, f) == TLCEval([i \in 1..Len(s) |-> s[f[i]]])
\* normalised data are normalised before the rearrangement
NullRaw(c, f) ==
    IF c.kind \in {"te", "cte"}
    THEN LET w == TLCEval(WindowsOf(c))
         IN  CMIAns(Disc(c.par), <<w.fut, Rearranged(w.src, f)>>, Past(c, w)).g
    ELSE LET v == TLCEval(SeenPair(c))
             x == <<Rearranged(v[1], f), v[2]>>
         IN  IF c.kind = "mi" THEN MIAns(Disc(c.par), x).g ELSE CMIAns(Disc(c.par), x, AsSeen(c, c.cond)).g
NullValue(c, f) == IF IsNormed(c) THEN NullRaw(TLCEval(Normed(c)), f) ELSE NullRaw(c, f)
=============================================================================
