------------------------------ MODULE Samples ------------------------------
(***************************************************************************)
(* Finite samples.  A sample is a sequence of outcomes; a joint sample is  *)
(* a sequence of rows (tuples).  Only the multiset of outcomes matters for *)
(* counts; Freq gives <<n_1, ..., n_K>> in an arbitrary but fixed order.   *)
(***************************************************************************)
EXTENDS Terms, SequencesExt

Support(s) == {s[i] : i \in 1..Len(s)}
CountOf(s, v) == Cardinality({i \in 1..Len(s) : s[i] = v})
\* counts of the distinct outcomes
Freq(s) == LET u == TLCEval(SetToSeq(Support(s)))
           IN  TLCEval([j \in 1..Len(u) |-> CountOf(s, u[j])])
\* count of the outcome at each position
CountAt(s) == LET u == TLCEval(SetToSeq(Support(s)))
                  c == TLCEval([v \in Support(s) |-> CountOf(s, v)])
              IN  TLCEval([i \in 1..Len(s) |-> c[s[i]]])

\* A variable is a sequence of rows (each row a tuple of integers); joining
\* variables concatenates their rows, observation by observation.
RECURSIVE ConcatRows(_, _)
ConcatRows(vars, i) ==
    IF Len(vars) = 1 THEN vars[1][i]
    ELSE vars[1][i] \o ConcatRows(Tail(vars), i)
Join(vars) == TLCEval([i \in 1..Len(vars[1]) |-> ConcatRows(vars, i)])

\* reading a 1-D series as a variable with one column
Col(x) == TLCEval([i \in 1..Len(x) |-> <<x[i]>>])
=============================================================================
