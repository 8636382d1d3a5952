------------------------------- MODULE MC_C06 -------------------------------
(* Every small sample of two or three discrete variables: mutual information *)
(* as total correlation, with its laws as invariants.                        *)
EXTENDS Measures, LogForm, Json, IOUtils

Deep == IOEnv.VERIF_TIER = "thorough"
MaxN2 == IF Deep THEN 5 ELSE 4      \* x over {0,1}, y over {0,1,2}
MaxN3 == IF Deep THEN 4 ELSE 3      \* three binary variables
MaxNW == IF Deep THEN 4 ELSE 3      \* a two-column variable against a binary one
Par == [ap |-> "discrete", K |-> 0, mloc |-> FALSE]

VARIABLES vs, phase
Two(f, g) == [i \in 1..Len(f) |-> <<f[i], g[i]>>]
Init ==
    /\ phase = "asked"
    /\ \/ \E n \in 1..MaxN2 : \E f \in [1..n -> 0..1], g \in [1..n -> 0..2] : vs = <<Col(f), Col(g)>>
       \/ \E n \in 2..MaxN3 : \E f, g, h \in [1..n -> 0..1] : vs = <<Col(f), Col(g), Col(h)>>
       \/ \E n \in 2..MaxNW : \E f, g, h \in [1..n -> 0..1] : vs = <<Two(f, g), Col(h)>>
Case == [kind |-> "mi", par |-> Par, vars |-> vs, off |-> 0]
Respond == /\ phase = "asked" /\ phase' = "answered" /\ vs' = vs
           /\ PrintT(ToJson([case |-> Case, ans |-> Answer(Case)]))
Spec == Init /\ [][Respond]_<<vs, phase>>

M == FMI(vs)
NonNegative == FNonNeg(M)
Symmetric == M = FMI(Reverse(vs))
SelfInformation == \A i \in 1..Len(vs) : FMI(<<vs[i], vs[i]>>) = FH(vs[i])
Varying == {i \in 1..Len(vs) : Cardinality(Support(vs[i])) > 1}
ZeroWhenOthersConstant == Cardinality(Varying) <= 1 => M = FZero
BelowEntropy == Len(vs) = 2 => \A i \in 1..2 : FNonNeg(FSub(FH(vs[i]), M))
\* total correlation decomposes: TC(x,y,z) = I(x;y) + I((x,y);z)
Decomposes == Len(vs) = 3 =>
    M = FAdd(FMI(<<vs[1], vs[2]>>), FMI(<<Join(<<vs[1], vs[2]>>), vs[3]>>))
\* zero exactly for independence: n(x,y) n = n(x) n(y) at every observed and unobserved pair
Independent ==
    \A a \in Support(vs[1]), b \in Support(vs[2]) :
        CountOf(Join(<<vs[1], vs[2]>>), a \o b) * Len(vs[1]) = CountOf(vs[1], a) * CountOf(vs[2], b)
ZeroIffIndependent == Len(vs) = 2 => ((M = FZero) <=> Independent)
=============================================================================
