------------------------------- MODULE MC_C20 -------------------------------
(* Every sequence of queries up to a depth, on objects of every class.        *)
EXTENDS Lifecycle, Json, IOUtils

Deep == IOEnv.VERIF_TIER = "thorough"
VARIABLES class, hist, answers, s
vars == <<class, hist, answers, s>>
Depth == CASE class = "entropy" -> 5 [] class = "information" -> IF Deep THEN 5 ELSE 4 [] OTHER -> IF Deep THEN 4 ELSE 3
Init == class \in {"entropy", "information", "transfer"} /\ hist = <<>> /\ answers = <<>> /\ s = Fresh
Query == /\ Len(hist) < Depth
         /\ \E q \in Offered(class) : LET r == Ask(s, q) IN
              /\ hist' = Append(hist, q) /\ answers' = Append(answers, r.ans) /\ s' = r.s
              /\ (IF Len(hist) + 1 = Depth
                  THEN PrintT(ToJson([class |-> class, hist |-> Append(hist, q), ans |-> Append(answers, r.ans)]))
                  ELSE TRUE)
         /\ UNCHANGED class
Spec == Init /\ [][Query]_vars

\* the answer to a query depends on the history only through the effective value being fixed
Pairs == {<<i, j>> \in (1..Len(hist)) \X (1..Len(hist)) : i < j /\ hist[i] = hist[j]}
HistoryFree == \A p \in Pairs :
    hist[p[1]] \notin Effectives \cup EffFaults => answers[p[1]] = answers[p[2]]
EffectiveOnce == Cardinality({i \in 1..Len(hist) : answers[i] = "E"}) <= 1
EffectiveStays == \A i, j \in 1..Len(hist) :
    (i < j /\ answers[i] \in {"E", "same E"} /\ hist[j] \in Effectives \cup EffFaults) => answers[j] = "same E"
\* removing refused and failing queries changes no other answer
Clean(q) == q \notin Refusals \cup Faults
RECURSIVE Run(_, _, _)
Run(st, h, keep) == IF h = <<>> THEN <<>>
    ELSE IF ~keep[Len(h)] THEN Run(st, Tail(h), keep)
    ELSE LET r == Ask(st, h[1]) IN <<r.ans>> \o Run(r.s, Tail(h), keep)
FailuresHarmless ==
    LET n == Len(hist)
        keep == [k \in 1..n |-> Clean(hist[n - k + 1])]
    IN  Run(Fresh, hist, keep) = SelectSeq(answers, LAMBDA a : a \notin {"refused", "fault"})
        \/ \E i \in 1..n : hist[i] \in EffFaults
=============================================================================
