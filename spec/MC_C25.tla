------------------------------- MODULE MC_C25 -------------------------------
(* All samples and all count vectors up to a size; samples recorded from the  *)
(* harness are summarised as well.                                            *)
EXTENDS Summary, Json, IOUtils

Deep == IOEnv.VERIF_TIER = "thorough"
L == IF Deep THEN 8 ELSE 7
Symbols == 1..(IF Deep THEN 4 ELSE 3)
Rec == JsonDeserialize(IOEnv.RECORDED)
Counts == UNION {[1..k -> -1..2] : k \in 0..(IF Deep THEN 4 ELSE 3)}
VARIABLES mode, s, uniq, counts, whole, data, sum
vars == <<mode, s, uniq, counts, whole, data, sum>>
None == OfCounts(<<>>, <<>>)
\* a sample grows observation by observation
Init == \/ /\ mode = "sample" /\ s = <<>> /\ uniq = 0 /\ counts = <<>> /\ whole = TRUE /\ data = -1 /\ sum = None
        \/ /\ mode = "counts" /\ s = <<>> /\ counts \in Counts /\ uniq \in 0..4 /\ whole \in BOOLEAN
           /\ data \in {-1, 0, 1, 2, 3, 4} /\ sum = None
           /\ PrintT(ToJson([mode |-> "counts", uniq |-> uniq, counts |-> counts, whole |-> whole, data |-> data,
                             verdict |-> Verdict(uniq, counts, whole, data),
                             sum |-> IF Verdict(uniq, counts, whole, data) = "accepted"
                                     THEN OfGiven([i \in 1..uniq |-> i], counts) ELSE None]))
        \/ /\ mode = "recorded" /\ uniq \in 1..Len(Rec) /\ s = Rec[uniq] /\ counts = <<>> /\ whole = TRUE
           /\ data = -1 /\ sum = None
Grow == /\ mode = "sample" /\ Len(s) < L
        /\ \E v \in Symbols : LET t == Append(s, v) IN
             /\ s' = t /\ sum' = OfSample(t)
             /\ PrintT(ToJson([mode |-> "sample", s |-> t, sum |-> OfSample(t)]))
        /\ UNCHANGED <<mode, uniq, counts, whole, data>>
Summarise == /\ mode = "recorded" /\ sum = None /\ sum' = OfSample(s)
             /\ PrintT(ToJson([mode |-> "recorded", id |-> uniq, sum |-> OfSample(s)]))
             /\ UNCHANGED <<mode, s, uniq, counts, whole, data>>
Spec == Init /\ [][Grow \/ Summarise]_vars

Sample == mode # "counts" /\ sum # None
SizeRight == Sample => sum.n = Len(s) /\ Total(sum.counts) = Len(s) /\ sum.k = Cardinality(Outcomes(s))
AllPositive == Sample => \A i \in 1..Len(sum.counts) : sum.counts[i] > 0
InOrder == Sample => \A i \in 1..(Len(sum.uniq) - 1) : sum.uniq[i] < sum.uniq[i + 1]
RoundTrip == Sample => OfSample(Expand(sum.uniq, sum.counts)) = sum
\* the order of the observations does not matter
Swap(t, i, j) == [t EXCEPT ![i] = t[j], ![j] = t[i]]
OrderFree == (mode = "sample" /\ Sample) => \A i, j \in 1..Len(s) : OfSample(Swap(s, i, j)) = sum
\* one more observation of v raises exactly the count of v
OneMore == [][mode = "sample" => \A v \in Symbols : Times(s', v) = Times(s, v) + (IF s'[Len(s')] = v THEN 1 ELSE 0)]_vars
\* the summary of a sample is itself accepted as counts
SelfConsistent == Sample => Verdict(sum.k, sum.counts, TRUE, Len(s)) = "accepted"
                            /\ Verdict(sum.k, sum.counts, TRUE, -1) = "accepted"
\* counts given outright describe the sample they expand to, whether or not unobserved outcomes are listed
Given == (mode = "counts" /\ Verdict(uniq, counts, whole, data) = "accepted") =>
            LET u == [i \in 1..uniq |-> i] IN OfGiven(u, counts) = OfSample(Expand(u, counts))
=============================================================================
