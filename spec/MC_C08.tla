------------------------------- MODULE MC_C08 -------------------------------
(* Every pair of small series with every offset that leaves a pair.          *)
EXTENDS Measures, LogForm, Json, IOUtils

Deep == IOEnv.VERIF_TIER = "thorough"
MaxN == IF Deep THEN 5 ELSE 4
Par == [ap |-> "discrete", K |-> 0, mloc |-> FALSE]

VARIABLES vs, off, phase
Init ==
    /\ phase = "asked"
    /\ \/ \E n \in 1..MaxN : \E f \in [1..n -> 0..1], g \in [1..n -> 0..1] :
             vs = <<Col(f), Col(g)>> /\ off \in (1 - n)..(n - 1)
       \/ \E n \in 2..3 : \E f \in [1..n -> 0..1], g \in [1..n -> 0..2] :
             vs = <<Col(f), Col(g)>> /\ off \in (1 - n)..(n - 1)
Case == [kind |-> "mi", par |-> Par, vars |-> vs, off |-> off]
Respond == /\ phase = "asked" /\ phase' = "answered" /\ UNCHANGED <<vs, off>>
           /\ PrintT(ToJson([case |-> Case, ans |-> Answer(Case)]))
Spec == Init /\ [][Respond]_<<vs, off, phase>>

N == Len(vs[1])
P == Paired(Case)
\* the pairs are exactly those (t, t+off) that exist, in time order
PairsRight ==
    LET first == MaxI(1, 1 - off)
    IN  /\ Len(P[1]) = N - Abs(off) /\ Len(P[2]) = N - Abs(off)
        /\ \A i \in 1..(N - Abs(off)) :
             P[1][i] = vs[1][first + i - 1] /\ P[2][i] = vs[2][first + i - 1 + off]
\* exchanging the variables negates the offset
Mirror == FMI(P) = FMI(Paired([Case EXCEPT !.vars = Reverse(vs), !.off = -off]))
NonNegative == FNonNeg(FMI(P))
=============================================================================
