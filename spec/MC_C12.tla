------------------------------- MODULE MC_C12 -------------------------------
(* Every short series (tie-free and with ties, which need stable ranking),   *)
(* every embedding dimension and step: ordinal measures are the plug-in      *)
(* measures of the series of order patterns.                                 *)
EXTENDS Measures, LogForm, Json, IOUtils

Deep == IOEnv.VERIF_TIER = "thorough"
VARIABLES vs, kind, d, st, stable, phase
vars == <<vs, kind, d, st, stable, phase>>
Perms(n) == Permutations(1..n)
Tied(n) == {f \in [1..n -> 0..2] : f[1] <= 1}
P1(n) == {f \in Perms(n) : f[1] < f[n]}
Init ==
    /\ phase = "asked"
    /\ \/ /\ kind = "h" /\ stable = FALSE /\ d \in 1..5 /\ st \in 1..3
          /\ \E n \in 1..(IF Deep THEN 7 ELSE 6) : \E f \in Perms(n) :
                /\ vs = <<Col(f)>> /\ (d - 1) * st < n
                /\ (Deep \/ n <= 5 \/ (d \in 2..3 /\ f[1] < f[n]))
       \/ /\ kind = "h" /\ stable = TRUE /\ d \in 1..4 /\ st \in 1..2
          /\ \E n \in 1..(IF Deep THEN 6 ELSE 5) : \E f \in Tied(n) : vs = <<Col(f)>> /\ (d - 1) * st < n
       \/ /\ kind = "h" /\ stable = FALSE /\ d \in 1..3 /\ st = 1
          /\ \E f \in P1(4), g \in P1(4) : vs = <<Col(f), Col(g)>>
       \/ /\ kind = "mi" /\ stable = FALSE /\ d \in 2..3 /\ st \in 1..2
          /\ \E f, g \in P1(5) : vs = <<Col(f), Col(g)>> /\ g[1] <= 2
       \/ /\ kind = "mi" /\ stable = TRUE /\ d \in 2..3 /\ st = 1
          /\ \E f, g \in [1..4 -> 0..1] : vs = <<Col(f), Col(g)>>
       \/ /\ kind = "te" /\ stable = TRUE /\ d = 2 /\ st = 1
          /\ \E f, g \in [1..(IF Deep THEN 6 ELSE 5) -> 0..1] : vs = <<Col(f), Col(g)>>
Par == [ap |-> "ordinal", K |-> 0, mloc |-> FALSE, d |-> d, st |-> st, sc |-> <<1, 1>>]
       @@ (IF stable THEN [stable |-> TRUE] ELSE <<>>)
Case == [kind |-> kind, par |-> Par, vars |-> vs]
        @@ (IF kind = "mi" THEN [off |-> 0] ELSE <<>>)
        @@ (IF kind = "te" THEN [lx |-> 1, ly |-> 1, step |-> 1, prop |-> 0] ELSE <<>>)
Respond == /\ phase = "asked" /\ phase' = "answered" /\ UNCHANGED <<vs, kind, d, st, stable>>
           /\ PrintT(ToJson([case |-> Case, ans |-> Answer(Case)]))
Spec == Init /\ [][Respond]_vars

X == Series(vs[1])
N == Len(X)
Pat(x) == Patterns(x, d, st)
Map(x, f(_)) == [i \in 1..Len(x) |-> f(x[i])]
WindowCount == Len(Pat(X)) = N - (d - 1) * st
\* each row is a permutation of 0..d-1 that sorts its window, equal values in order of appearance
Sorts == \A t \in 1..Len(Pat(X)) :
    LET w == Window(X, t, d, st)  p == Pat(X)[t]
    IN  /\ {p[i] : i \in 1..d} = 0..(d - 1)
        /\ \A i \in 1..(d - 1) : \/ w[p[i] + 1] < w[p[i + 1] + 1]
                                 \/ w[p[i] + 1] = w[p[i + 1] + 1] /\ p[i] < p[i + 1]
Increasing == Pat(X) = Pat(Map(X, LAMBDA v : v * v * v + 2 * v - 50))
Mirror == ~stable => /\ FH(Pat(X)) = FH(Pat(Map(X, LAMBDA v : -v)))
                     /\ FH(Pat(X)) = FH(Pat(Reverse(X)))
\* N' * (ln d! - H) >= 0
Bounded == d <= 3 => FNonNeg(FSub(FLn(Len(Pat(X)), Fact(d)), FH(Pat(X))))
OneDim == d = 1 => FH(Pat(X)) = FZero
Monotone == (\A i \in 1..(N - 1) : X[i] < X[i + 1]) => FH(Pat(X)) = FZero
=============================================================================
