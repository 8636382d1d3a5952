------------------------------- MODULE MC_C18 -------------------------------
(* Test figures.  Exhaustively: every order pattern of an observed value and  *)
(* up to MaxN null values (ties included); recorded: the order patterns of    *)
(* results the library returned (file CASES).                                  *)
EXTENDS StatTest, Json, IOUtils

Deep == IOEnv.VERIF_TIER = "thorough"
MaxN == IF Deep THEN 5 ELSE 4
Cases == IF "CASES" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.CASES) ELSE <<>>
Hows == {"linear", "lower", "higher", "midpoint"}

VARIABLES r, rs, id, phase
vars == <<r, rs, id, phase>>
\* order patterns: ranks whose values are an initial segment of the naturals
Init == /\ phase = "asked"
        /\ \/ /\ id = 0
              /\ \E n \in 2..MaxN : \E f \in [0..n -> 0..n] :
                   /\ \A k \in 1..n : (\E i \in 0..n : f[i] = k) => (\E i \in 0..n : f[i] = k - 1)
                   /\ r = f[0] /\ rs = [i \in 1..n |-> f[i]]
           \/ /\ id \in 1..Len(Cases) /\ r = Cases[id].r /\ rs = Cases[id].rs
Qs == IF id = 0 THEN {<<0, 1>>, <<100, 1>>, <<50, 1>>, <<5, 2>>, <<90, 1>>, <<333, 10>>}
      ELSE {Cases[id].qs[i] : i \in 1..Len(Cases[id].qs)}
Levels == IF id = 0 THEN {<<95, 1>>, <<50, 1>>, <<999, 10>>, <<1, 2>>}
          ELSE {Cases[id].levels[i] : i \in 1..Len(Cases[id].levels)}
HowsOf == IF id = 0 THEN Hows ELSE {Cases[id].how}
Figures == [p |-> PValue(r, rs), t |-> TScore(rs), mean |-> NullMean(Len(rs)), std |-> NullStd(rs),
            perc |-> SetToSeq({<<q, h, Percentile(rs, q[1], q[2], h)>> : q \in Qs, h \in HowsOf}),
            ci |-> SetToSeq({<<l, h, Interval(rs, l[1], l[2], h)>> : l \in Levels, h \in HowsOf})]
Respond == /\ phase = "asked" /\ phase' = "answered" /\ UNCHANGED <<r, rs, id>>
           /\ PrintT(ToJson([id |-> id, r |-> r, rs |-> rs, fig |-> Figures]))
Spec == Init /\ [][Respond]_vars

\* ---- properties of the figures (on the ranks themselves) ---------------------------------
\* a term whose arguments are the ranks, as an exact fraction <<n, d>>
RECURSIVE Frac(_)
Val(i) == IF i = 1 THEN r ELSE rs[i - 1]
FAddF(x, y) == <<x[1] * y[2] + y[1] * x[2], x[2] * y[2]>>
Frac(t) == CASE t[1] = "arg" -> <<Val(t[2]), 1>>
             [] t[1] = "q"   -> <<t[2], t[3]>>
             [] t[1] = "add" -> FAddF(Frac(t[2][1]), Frac(t[2][2]))
             [] t[1] = "sub" -> LET y == Frac(t[3]) IN FAddF(Frac(t[2]), <<-y[1], y[2]>>)
             [] t[1] = "mul" -> LET x == Frac(t[2][1]) y == Frac(t[2][2]) IN <<x[1] * y[1], x[2] * y[2]>>
             [] OTHER -> LET x == Frac(t[2]) y == Frac(t[3]) IN <<x[1] * y[2], x[2] * y[1]>>
Leq(x, y) == x[1] * y[2] <= y[1] * x[2]
Small == id = 0 /\ phase = "asked"
P(q, h) == Frac(Percentile(rs, q[1], q[2], h))
PValueInRange == Small => LET p == PValue(r, rs) IN
    /\ 0 <= p[2] /\ p[2] <= p[3]
    /\ (r >= MaxSeq(rs)) = (p[2] = 0)
    /\ ((\A i \in 1..Len(rs) : rs[i] > r) = (p[2] = p[3]))
PercentilesOrdered == Small => \A a, b \in Qs : a[1] * b[2] <= b[1] * a[2] =>
    \A h \in Hows : Leq(P(a, h), P(b, h)) /\ Leq(P(a, "lower"), P(a, h)) /\ Leq(P(a, h), P(a, "higher"))
Extremes == Small => /\ P(<<100, 1>>, "linear") = <<MaxSeq(rs), 1>>
                     /\ P(<<0, 1>>, "linear") = <<MinSeq(rs), 1>>
IntervalsNest == Small => \A a, b \in Levels : a[1] * b[2] <= b[1] * a[2] =>
    LET x == Interval(rs, a[1], a[2], "linear")  y == Interval(rs, b[1], b[2], "linear")
    IN  Leq(Frac(y[1]), Frac(x[1])) /\ Leq(Frac(x[1]), Frac(x[2])) /\ Leq(Frac(x[2]), Frac(y[2]))
\* the figures do not depend on the order in which the null values were drawn
OrderFree == Small => \A f \in Permutations(1..Len(rs)) :
    PValue(r, [i \in 1..Len(rs) |-> rs[f[i]]]) = PValue(r, rs)
=============================================================================
