------------------------------- MODULE MC_C02 -------------------------------
(* Every small count vector (partition of N) for every bias-corrected       *)
(* discrete entropy and every setting.                                      *)
EXTENDS Measures, Json, IOUtils

Deep == IOEnv.VERIF_TIER = "thorough"
MaxN == IF Deep THEN 12 ELSE 8

RECURSIVE Parts(_, _)
\* partitions of n into parts of at most m, largest first
Parts(n, m) == IF n = 0 THEN {<<>>}
               ELSE UNION {{<<k>> \o r : r \in Parts(n - k, MinI(k, n - k))} : k \in 1..m}
\* the sample with the given counts: category j repeated c[j] times
RECURSIVE Sample(_, _)
Sample(c, j) == IF j > Len(c) THEN <<>> ELSE [i \in 1..c[j] |-> <<j>>] \o Sample(c, j + 1)

Simple == {[ap |-> a, K |-> 0] : a \in {"miller_madow", "grassberger", "bonachela", "chao_shen",
               "chao_wang_jost", "zhang", "shrink", "discrete"}}
WithK == {[ap |-> a, K |-> k] : a \in {"ansb", "nsb"}, k \in {0, 3, 11}}
Bay == {[ap |-> "bayes", K |-> k, alpha |-> a] : k \in {0, 5, 20},
          a \in {<<"jeffrey">>, <<"laplace">>, <<"sch-grass">>, <<"min-max">>}}
       \cup {[ap |-> "bayes", K |-> k, alpha |-> <<"num", a, b>>] : k \in {0, 7},
               a \in {1, 3}, b \in {1, 4}}
VARIABLES counts, par, phase
Init ==
    /\ phase = "asked"
    /\ \E n \in 1..MaxN : counts \in Parts(n, n)
    /\ (par \in Simple \/ par \in WithK \/ par \in Bay)
Case == [kind |-> "h", par |-> par, vars |-> <<Sample(counts, 1)>>]
Respond == /\ phase = "asked" /\ phase' = "answered" /\ UNCHANGED <<counts, par>>
           /\ PrintT(ToJson([counts |-> counts, case |-> Case, ans |-> Answer(Case)]))
Spec == Init /\ [][Respond]_<<counts, par, phase>>

\* the sample has exactly the counts it was built from
Built == LET f == Freq(Sample(counts, 1)) IN SumSeq(f) = SumSeq(counts) /\ Len(f) = Len(counts)
\* an outcome that never occurred changes nothing, and the outcomes have no order
Unobserved == /\ Sample(Append(counts, 0), 1) = Sample(counts, 1)
              /\ LET f == Freq(Sample(<<0>> \o counts, 1)) IN f = Freq(Sample(counts, 1))
\* estimates that have a simple exact consequence
Exact ==
    \* one category: Miller-Madow and plug-in agree with 0 (no correction)
    /\ Len(counts) = 1 => MMCorr(counts) = <<"q", 0, 2 * counts[1]>>
    \* ANSB is undefined exactly when nothing coincides
    /\ par.ap = "ansb" /\ par.K = 0 => ((Ansb(par, counts) = NaN) <=> (\A j \in 1..Len(counts) : counts[j] = 1))
=============================================================================
