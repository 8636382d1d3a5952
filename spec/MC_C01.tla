------------------------------- MODULE MC_C01 -------------------------------
(* Every small discrete sample: one variable, and two-column joint samples. *)
EXTENDS Measures, LogForm, Json, IOUtils

Deep == IOEnv.VERIF_TIER = "thorough"
MaxN1 == IF Deep THEN 7 ELSE 6      \* one variable over three symbols
MaxN2 == IF Deep THEN 5 ELSE 4      \* two columns over {0,1} x {0,1,2}
Par == [ap |-> "discrete", K |-> 0]

VARIABLES vs, phase
Init ==
    /\ phase = "asked"
    /\ \/ \E n \in 1..MaxN1 : \E f \in [1..n -> 0..2] : vs = <<Col(f)>>
       \/ \E n \in 1..MaxN2 : \E f \in [1..n -> 0..1], g \in [1..n -> 0..2] :
             vs = <<Col(f), Col(g)>>
Case == [kind |-> "h", par |-> Par, vars |-> vs]
Respond == /\ phase = "asked" /\ phase' = "answered" /\ vs' = vs
           /\ PrintT(ToJson([case |-> Case, ans |-> Answer(Case)]))
Spec == Init /\ [][Respond]_<<vs, phase>>

J == Join(vs)
K == Cardinality(Support(J))
N == Len(J)
\* 0 <= N H <= N ln K, decided exactly
Bounds == FNonNeg(FH(J)) /\ FNonNeg(FSub(FLn(N, K), FH(J)))
ZeroIffConstant == (FH(J) = FZero) <=> (K = 1)
MaxIffUniform == (FH(J) = FLn(N, K)) <=> (\A i, j \in 1..N : CountAt(J)[i] = CountAt(J)[j])
JointAboveParts == \A i \in 1..Len(vs) : FNonNeg(FSub(FH(J), FH(vs[i])))
\* subadditivity
JointBelowSum == Len(vs) = 2 => FNonNeg(FSub(FAdd(FH(vs[1]), FH(vs[2])), FH(J)))
\* the local values average to the entropy: sum_i ln(N/n(i)) = N H
LocalMean == FSumSeq([i \in 1..N |-> FSub(FLn(1, N), FLn(1, CountAt(J)[i]))]) = FH(J)
\* duplicating every observation changes nothing: 2N H(JJ) = 2 (N H(J))
Replication == N <= 4 => FH(J \o J) = FScale(2, FH(J))
=============================================================================
