------------------------------- MODULE MC_C15 -------------------------------
(* Every small configuration of points: kernel density estimates with the   *)
(* box kernel (the Gaussian kernel is covered by recorded requests).         *)
EXTENDS Measures, Json, IOUtils

Deep == IOEnv.VERIF_TIER = "thorough"
VARIABLES vs, z, kind, par, phase
vars == <<vs, z, kind, par, phase>>
Par(b) == [ap |-> "kernel", K |-> 0, mloc |-> FALSE, ker |-> "box", bw |-> b, sc |-> <<1, 1>>]
Sorted(n, k) == {f \in [1..n -> 0..k] : \A i \in 1..n-1 : f[i] <= f[i + 1]}
Bin(n) == [1..n -> 0..1]
Init ==
    /\ phase = "asked"
    /\ par \in {Par(<<1, 1>>), Par(<<2, 1>>), Par(<<3, 1>>), Par(<<9, 2>>)}
    /\ \/ kind = "h" /\ z = <<>> /\ \E n \in 2..5 : \E f \in Sorted(n, 4) : vs = <<Col(f)>>
       \/ kind = "h" /\ z = <<>> /\ \E f \in Sorted(3, 2), g \in [1..3 -> 0..2] : vs = <<Col(f), Col(g)>>
       \/ kind = "mi" /\ z = <<>> /\ \E f \in Sorted(4, 2), g \in [1..4 -> {0, 2}] : vs = <<Col(f), Col(g)>>
       \/ kind = "mi" /\ z = <<>> /\ \E f \in Sorted(3, 1), g, h \in Bin(3) : vs = <<Col(f), Col(g), Col(h)>>
       \/ kind = "cmi" /\ par.bw[1] <= 2 /\ \E f \in Sorted(4, 1), g, h \in Bin(4) : vs = <<Col(f), Col(g)>> /\ z = Col(h)
       \/ kind = "te" /\ par.bw[1] <= 2 /\ z = <<>> /\ \E f, g \in Bin(5) : vs = <<Col(f), Col(g)>> /\ f[1] = 0 /\ (IF Deep THEN TRUE ELSE g[1] = 0)
       \/ kind = "cte" /\ par.bw[1] <= 2 /\ \E f, g, h \in Bin(4) : vs = <<Col(f), Col(g)>> /\ z = Col(h) /\ f[1] = 0 /\ h[1] = 0
Case == [kind |-> kind, par |-> par, vars |-> vs]
        @@ (IF kind = "mi" THEN [off |-> 0] ELSE <<>>)
        @@ (IF kind \in {"cmi", "cte"} THEN [cond |-> z] ELSE <<>>)
        @@ (IF kind = "te" THEN [lx |-> 1, ly |-> 1, step |-> 1, prop |-> 0] ELSE <<>>)
        @@ (IF kind = "cte" THEN [lx |-> 1, ly |-> 1, lz |-> 1, step |-> 1, prop |-> 0] ELSE <<>>)
Respond == /\ phase = "asked" /\ phase' = "answered" /\ UNCHANGED <<vs, z, kind, par>>
           /\ PrintT(ToJson([case |-> Case, ans |-> Answer(Case)]))
Spec == Init /\ [][Respond]_vars

J == Join(vs)
N == Len(J)
Cnt(X) == [i \in 1..Len(X) |-> BoxCount(par, X[i], X)]
Map(X, f(_)) == [i \in 1..Len(X) |-> [j \in 1..Len(X[1]) |-> f(X[i][j])]]
SelfCounted == \A i \in 1..N : Cnt(J)[i] >= 1
JointInMarginals == \A v \in 1..Len(vs), i \in 1..N : Cnt(J)[i] <= Cnt(vs[v])[i]
SymmetricBox == \A i, j \in 1..N : InBox(par, J[i], J[j]) <=> InBox(par, J[j], J[i])
Shifted == Cnt(Map(J, LAMBDA v : v + 9)) = Cnt(J)
Mirrored == Cnt(Map(J, LAMBDA v : -v)) = Cnt(J)
Reordered == \A i \in 1..N : Cnt(Reverse(J))[N + 1 - i] = Cnt(J)[i]
CopiesRight == LET K == J \o Map(J, LAMBDA v : v + 1000) IN
    \A i \in 1..N : BoxDensity(par, J[i], K) = BoxDensity(par @@ [copies |-> 2], J[i], J)
Wide == LET w == [par EXCEPT !.bw = <<100, 1>>] IN \A i \in 1..N : BoxCount(w, J[i], J) = N
=============================================================================
