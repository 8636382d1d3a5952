------------------------------- MODULE MC_C07 -------------------------------
(* Every small sample of two variables and a condition (also a two-column   *)
(* condition, and three variables): conditional mutual information.          *)
EXTENDS Measures, LogForm, Json, IOUtils

Deep == IOEnv.VERIF_TIER = "thorough"
MaxN == IF Deep THEN 6 ELSE 5
MaxNW == IF Deep THEN 4 ELSE 3
Par == [ap |-> "discrete", K |-> 0, mloc |-> FALSE]

VARIABLES vs, z, phase
\* up to renaming of the symbols of each column (C03), a series starts with 0
Bin(n) == {f \in [1..n -> 0..1] : f[1] = 0}
Two(f, g) == [i \in 1..Len(f) |-> <<f[i], g[i]>>]
Init ==
    /\ phase = "asked"
    /\ \/ \E n \in 1..MaxN : \E f, g, h \in Bin(n) :
             vs = <<Col(f), Col(g)>> /\ z = Col(h)
       \/ \E n \in 2..3 : \E f, g \in Bin(n), h \in [1..n -> 0..2] :
             vs = <<Col(f), Col(g)>> /\ z = Col(h)
       \/ \E n \in 2..MaxNW : \E f, g, h, k \in Bin(n) :
             \/ vs = <<Col(f), Col(g)>> /\ z = Two(h, k)
             \/ vs = <<Col(f), Col(g), Col(k)>> /\ z = Col(h)
             \/ vs = <<Two(f, k), Col(g)>> /\ z = Col(h)
Case == [kind |-> "cmi", par |-> Par, vars |-> vs, cond |-> z]
Respond == /\ phase = "asked" /\ phase' = "answered" /\ UNCHANGED <<vs, z>>
           /\ PrintT(ToJson([case |-> Case, ans |-> Answer(Case)]))
Spec == Init /\ [][Respond]_<<vs, z, phase>>

M == FCMI(vs, z)
NonNegative == FNonNeg(M)
Symmetric == M = FCMI(Reverse(vs), z)
ConstantCondition == Cardinality(Support(z)) = 1 => M = FMI(vs)
\* I(X;(Y,Z)) = I(X;Z) + I(X;Y|Z)
ChainRule == Len(vs) = 2 =>
    FMI(<<vs[1], Join(<<vs[2], z>>)>>) = FAdd(FMI(<<vs[1], z>>), M)
\* conditioning on a copy of a variable leaves nothing
SelfCondition == Len(vs) = 2 => FCMI(vs, vs[1]) = FZero
\* conditioning is on the whole context: per-context information, weighted by its frequency
Sub1(v, c) == LET t == SelectSeq([i \in 1..Len(z) |-> i], LAMBDA i : z[i] = c)
              IN  [j \in 1..Len(t) |-> v[t[j]]]
RECURSIVE FSumSet(_)
FSumSet(S) == IF S = {} THEN FZero
              ELSE LET c == CHOOSE c \in S : TRUE
                   IN  FAdd(FMI([i \in 1..Len(vs) |-> Sub1(vs[i], c)]), FSumSet(S \ {c}))
\* (for m > 2 variables the documented entropy combination counts H(Z) m-2 times too often;
\* see DESIGN.md)
AverageOfContexts == M = FAdd(FSumSet(Support(z)), FScale(Len(vs) - 2, FH(z)))
=============================================================================
