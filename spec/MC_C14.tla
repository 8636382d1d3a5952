------------------------------- MODULE MC_C14 -------------------------------
(* Every small configuration of points: nearest-neighbour informations.      *)
EXTENDS Measures, Json, IOUtils

Deep == IOEnv.VERIF_TIER = "thorough"
VARIABLES vs, z, kind, par, phase
vars == <<vs, z, kind, par, phase>>
Par(k, p, g) == [ap |-> "metric", K |-> 0, mloc |-> FALSE, k |-> k, p |-> p, ksg |-> g, sc |-> <<1, 1>>]
Inj(n, k) == {f \in [1..n -> 0..k] : \A i \in 1..n-1 : f[i] <= f[i + 1]}
Init ==
    /\ phase = "asked"
    /\ \E k \in 1..3, p \in {0, 1, 2}, g \in 1..2 : par = Par(k, p, g)
    /\ \/ /\ kind = "mi" /\ z = <<>>
          /\ \E f \in Inj(4, 2), h \in [1..4 -> 0..(IF Deep THEN 2 ELSE 1)] : vs = <<Col(f), Col(h)>>
       \/ /\ kind = "mi" /\ z = <<>> /\ par.k <= 2
          /\ \E f \in Inj(3, 1), g, h \in [1..3 -> 0..1] : vs = <<Col(f), Col(g), Col(h)>>
       \/ /\ kind = "cmi" /\ par.k <= 2 /\ par.p # 2
          /\ \E f \in Inj(4, 1), g, h \in [1..4 -> 0..1] :
                /\ vs = <<Col(f), Col(g)>> /\ z = Col(h) /\ f[1] = 0
                /\ (IF Deep THEN TRUE ELSE g[1] = 0 /\ h[1] = 0)
       \/ /\ kind = "te" /\ par.k <= 2 /\ z = <<>> /\ par.p = 0
          /\ \E f, g \in [1..(IF Deep THEN 6 ELSE 5) -> 0..1] : vs = <<Col(f), Col(g)>> /\ f[1] = 0 /\ g[1] = 0
    /\ par.k < Len(vs[1]) - (IF kind = "te" THEN 1 ELSE 0)
Case == [kind |-> kind, par |-> par, vars |-> vs]
        @@ (IF kind = "mi" THEN [off |-> 0] ELSE <<>>)
        @@ (IF kind = "cmi" THEN [cond |-> z] ELSE <<>>)
        @@ (IF kind = "te" THEN [lx |-> 1, ly |-> 1, step |-> 1, prop |-> 0] ELSE <<>>)
Respond == /\ phase = "asked" /\ phase' = "answered" /\ UNCHANGED <<vs, z, kind, par>>
           /\ PrintT(ToJson([case |-> Case, ans |-> FullAnswer(Case)]))
Spec == Init /\ [][Respond]_vars

J == Join(vs)
Ks == KthSelf(J, par.p, par.k)
\* the joint radius bounds the marginal count from below: k points (type two: k+1 with itself)
EnoughNeighbours == kind = "mi" => \A v \in 1..Len(vs), i \in 1..Len(J) :
    KsgCount(par, vs[v], i, Ks[i], 1) >= (IF par.ksg = 1 THEN 0 ELSE par.k + 1)
MarginalNotFarther == \A v \in 1..Len(vs), i, j \in 1..Len(J) :
    Dist(vs[v][i], vs[v][j], par.p) <= Dist(J[i], J[j], par.p)
MaxNormIsMax == par.p = 0 /\ Len(vs) = 2 => \A i, j \in 1..Len(J) :
    Dist(J[i], J[j], 0) = MaxI(Dist(vs[1][i], vs[1][j], 0), Dist(vs[2][i], vs[2][j], 0))
SumNormIsSum == par.p = 1 /\ Len(vs) = 2 => \A i, j \in 1..Len(J) :
    Dist(J[i], J[j], 1) = Dist(vs[1][i], vs[1][j], 1) + Dist(vs[2][i], vs[2][j], 1)
\* a far translate of everything changes nothing but the number of points
Far(X) == [i \in 1..Len(X) |-> [j \in 1..Len(X[i]) |-> X[i][j] + 1000]]
CopiesRight == kind \in {"mi", "cmi"} =>
    LET two == par @@ [copies |-> 2]
        vs2 == [v \in 1..Len(vs) |-> vs[v] \o Far(vs[v])]
        zs  == z \o Far(z)
        cut(L) == SubSeq(L, 1, Len(vs[1]))
    IN  IF kind = "mi" THEN cut(KsgMILocals(par, vs2)) = KsgMILocals(two, vs)
        ELSE cut(KsgCMILocals(par, Join(vs2 \o <<zs>>), [v \in 1..Len(vs) |-> Join(<<vs2[v], zs>>)], zs))
             = KsgCMILocals(two, Join(vs \o <<z>>), [v \in 1..Len(vs) |-> Join(<<vs[v], z>>)], z)
\* a translate of some variables only
SomeRight == kind \in {"mi", "cmi"} /\ par.k = 1 /\ par.p = 0 => \A s \in [1..(Len(vs) + (IF kind = "cmi" THEN 1 ELSE 0)) -> BOOLEAN] :
    (\E v \in DOMAIN s : s[v]) =>
    LET two == par @@ [copies |-> 2, moved |-> s]
        vs2 == [v \in 1..Len(vs) |-> vs[v] \o (IF s[v] THEN Far(vs[v]) ELSE vs[v])]
        zs  == z \o (IF s[Len(s)] THEN Far(z) ELSE z)
        cut(L) == SubSeq(L, 1, Len(vs[1]))
    IN  IF kind = "mi" THEN cut(KsgMILocals(par, vs2)) = KsgMILocals(two, vs)
        ELSE cut(KsgCMILocals(par, Join(vs2 \o <<zs>>), [v \in 1..Len(vs) |-> Join(<<vs2[v], zs>>)], zs))
             = KsgCMILocals(two, Join(vs \o <<z>>), [v \in 1..Len(vs) |-> Join(<<vs[v], z>>)], z)
\* a constant condition leaves every condition count full
ConstantCondition == kind = "cmi" /\ Cardinality(Support(z)) = 1 =>
    LET jz == Join(vs \o <<z>>)  kz == KthSelf(jz, par.p, par.k)
    IN  kz = Ks /\ \A i \in 1..Len(z) : kz[i] > 0 =>
            KsgCount(par, z, i, kz[i], 1) = Len(z) - (IF par.ksg = 1 THEN 1 ELSE 0)
=============================================================================
