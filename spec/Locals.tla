------------------------------- MODULE Locals -------------------------------
(***************************************************************************)
(* Local values.                                                            *)
(*  - which approaches offer them, how many there are (from the sizes of a  *)
(*    request alone), and in which order they come;                         *)
(*  - a session with an estimator: queries for the global value, the local  *)
(*    values and the result in any order, all answered by the same request. *)
(***************************************************************************)
EXTENDS Measures, LogForm

Kinds5 == {"h", "mi", "cmi", "te", "cte"}
\* cross-entropies and divergences have no local values; the corrections that act on the
\* whole table of counts have none; neither have the Renyi and Tsallis families
Offered(kind, ap) == kind \in Kinds5 /\ (IF ap \in DiscreteAps THEN HasLocal(ap) ELSE ap \notin LpsAps)
\* entropies whose local values average to the global value: all but the shrinkage entropy
\* (documented: its local values use the shrunk probabilities, its mean the observed ones)
Averages(kind, ap) == kind # "h" \/ Canon(ap) # "shrink"

\* ---- sizes ------------------------------------------------------------------------------
\* n observations; d, st: embedding of the ordinal approaches (1, 1 otherwise);
\* off: offset (mi); prop: propagation time; m: longest history; s: step
AbsN(x) == IF x < 0 THEN -x ELSE x
Left(n, d, st) == n - (d - 1) * st
Size(r) ==
    LET n == Left(r.n, r.d, r.st)
    IN  CASE r.kind \in {"h", "cmi"} -> n
          [] r.kind = "mi" -> n - AbsN(r.off)
          [] OTHER -> LET k == n - AbsN(r.prop) * r.s - r.m * r.s
                      IN  IF k <= 0 THEN 0 ELSE (k + r.s - 1) \div r.s

\* ---- exact local forms of the plug-in measures (N times nothing: each is a logarithm) -----
LocH(s, i) == FSub(FLn(1, Len(s)), FLn(1, CountAt(s)[i]))
LocMI(vs, i) == FSub(FSumSeq([v \in 1..Len(vs) |-> LocH(vs[v], i)]), LocH(Join(vs), i))
LocCMI(vs, z, i) ==
    FSub(FSub(FSumSeq([v \in 1..Len(vs) |-> LocH(Join(<<vs[v], z>>), i)]), LocH(Join(vs \o <<z>>), i)), LocH(z, i))
\* tables a plug-in request is evaluated on
Tables(c) == IF c.kind \in {"te", "cte"}
             THEN LET w == WindowsOf(c) IN [vs |-> <<w.fut, w.src>>, z |-> Past(c, w)]
             ELSE [vs |-> Paired(c), z |-> IF c.kind = "cmi" THEN c.cond ELSE <<>>]
PlugLocal(c) ==
    LET t == Tables(c)  n == Len(t.vs[1])
    IN  TLCEval([i \in 1..n |-> CASE c.kind = "h" -> LocH(Join(t.vs), i)
                                  [] c.kind = "mi" -> LocMI(t.vs, i)
                                  [] OTHER -> LocCMI(t.vs, t.z, i)])
\* N times the global value
PlugGlobal(c) ==
    LET t == Tables(c)
    IN  CASE c.kind = "h" -> FH(Join(t.vs)) [] c.kind = "mi" -> FMI(t.vs) [] OTHER -> FCMI(t.vs, t.z)
=============================================================================
