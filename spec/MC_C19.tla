------------------------------- MODULE MC_C19 -------------------------------
(* The null values a statistical test can produce, for recorded requests     *)
(* (file CASES): either all of them with their multiplicities (field         *)
(* "method"), or the one of a prescribed rearrangement (field "map").          *)
EXTENDS StatTest, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES id, phase
vars == <<id, phase>>
C == Cases[id]
Case == C.case
Init == id \in 1..Len(Cases) /\ phase = "asked"
All == LET n  == Rows(Case)
           ms == Maps(n, C.method)
           v  == TLCEval([f \in ms |-> NullValue(Case, f)])
           ts == TLCEval(SetToSeq({v[f] : f \in ms}))
       IN  [i \in 1..Len(ts) |-> <<ts[i], Cardinality({f \in ms : v[f] = ts[i]})>>]
\* neighbour distances that tie exactly (after a rearrangement)
TieAfter(f) ==
    IF Case.kind \in {"te", "cte"}
    THEN LET w == WindowsOf(Case)  z == Past(Case, w)  x == Rearranged(w.src, f)
         IN  KsgTie(Case.par, <<Join(<<w.fut, z>>), Join(<<x, z>>), z>>, Join(<<w.fut, x, z>>))
    ELSE LET p == SeenPair(Case)  v == <<Rearranged(p[1], f), p[2]>>
         IN  IF Case.kind = "mi" THEN KsgTie(Case.par, v, Join(v))
             ELSE KsgTie(Case.par, [i \in 1..2 |-> Join(<<v[i], Case.cond>>)] \o <<Case.cond>>, Join(v \o <<Case.cond>>))
NullFragile ==
    /\ ~IsNormed(Case) /\ Case.par.ap \in {"metric", "kl", "ksg"} /\ Case.par.p \notin {0, 1}
    /\ IF "map" \in DOMAIN C THEN TieAfter(C.map) ELSE \E f \in Maps(Rows(Case), C.method) : TieAfter(f)
Respond == /\ phase = "asked" /\ phase' = "answered" /\ id' = id
           /\ PrintT(ToJson([id |-> id, observed |-> Answer(Case).g, rows |-> Rows(Case), frag |-> NullFragile,
                             null |-> IF "map" \in DOMAIN C THEN <<<<NullValue(Case, C.map), 1>>>> ELSE All]))
Spec == Init /\ [][Respond]_vars
Identity == LET n == Rows(Case) IN NullValue(Case, [i \in 1..n |-> i])
\* the data as they are is one of the permutations
NothingMoved == phase = "asked" /\ Len(Case.vars[1]) <= 120 => Identity = Answer(Case).g
=============================================================================
