------------------------------ MODULE Ordinal ------------------------------
(***************************************************************************)
(* Order patterns.  The pattern of a window is the order in which its      *)
(* positions appear when sorted by value, equal values in order of         *)
(* appearance (the documented stable ranking).                             *)
(***************************************************************************)
EXTENDS Windows

Window(x, i, d, s) == [j \in 1..d |-> x[i + (j - 1) * s]]
\* position (0-based) of the element of rank r in window w
RankAt(w, j) == Cardinality({i \in 1..Len(w) : w[i] < w[j] \/ (w[i] = w[j] /\ i < j)})
Pattern(w) == [r \in 1..Len(w) |-> (CHOOSE j \in 1..Len(w) : RankAt(w, j) = r - 1) - 1]
HasTies(w) == \E i, j \in 1..Len(w) : i < j /\ w[i] = w[j]

NWindows(n, d, s) == n - (d - 1) * s
\* x : sequence of integers; result: variable whose rows are patterns
Patterns(x, d, s) == TLCEval([i \in 1..NWindows(Len(x), d, s) |-> Pattern(Window(x, i, d, s))])
AnyTies(x, d, s) == \E i \in 1..NWindows(Len(x), d, s) : HasTies(Window(x, i, d, s))
Series(v) == TLCEval([i \in 1..Len(v) |-> v[i][1]])
=============================================================================
