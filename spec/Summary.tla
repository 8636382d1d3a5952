------------------------------ MODULE Summary ------------------------------
(***************************************************************************)
(* The summary of a discrete sample: its distinct outcomes in increasing    *)
(* order, how often each occurs, the sample size and the number of          *)
(* categories.  A summary can also be given as counts, with or without the  *)
(* observations; Verdict says which of those are accepted.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Outcomes(s) == {s[i] : i \in 1..Len(s)}
Times(s, v) == Cardinality({i \in 1..Len(s) : s[i] = v})
Total(c) == FoldSeq(LAMBDA a, b : a + b, 0, c)

\* relative frequencies as pairs <<count, size>>
Probs(counts) == LET n == TLCEval(Total(counts)) IN [i \in 1..Len(counts) |-> <<counts[i], n>>]
OfCounts(uniq, counts) == [uniq |-> uniq, counts |-> counts, n |-> Total(counts), k |-> Len(uniq),
                           probs |-> Probs(counts)]
OfSample(s) == LET u == TLCEval(Sorted(Outcomes(s))) IN OfCounts(u, TLCEval([i \in 1..Len(u) |-> Times(s, u[i])]))
\* a summary given as counts: outcomes that never occurred are not part of the sample
Occurred(uniq, counts) == [u |-> SelectSeq(uniq, LAMBDA v : \E i \in 1..Len(uniq) : uniq[i] = v /\ counts[i] > 0),
                           c |-> SelectSeq(counts, LAMBDA n : n > 0)]
OfGiven(uniq, counts) == LET o == TLCEval(Occurred(uniq, counts)) IN OfCounts(o.u, o.c)
\* the sorted sample with these counts
Expand(uniq, counts) == FlattenSeq([j \in 1..Len(uniq) |-> [i \in 1..counts[j] |-> uniq[j]]])

\* data = -1: no observations; otherwise their number.  whole: the counts are integers
Verdict(nuniq, counts, whole, data) ==
    IF nuniq # Len(counts) THEN "refused"
    ELSE IF \E i \in 1..Len(counts) : counts[i] < 0 THEN "refused"
    ELSE IF Total(counts) = 0 THEN "refused"
    ELSE IF ~whole THEN "refused"
    ELSE IF data = 0 THEN "refused"
    ELSE IF data > 0 /\ data # Total(counts) THEN "refused"
    ELSE "accepted"
=============================================================================
