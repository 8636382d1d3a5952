-------------------------------- MODULE Heap --------------------------------
(***************************************************************************)
(* The caller's memory.  Two buffers hold the data of a request; only the    *)
(* caller writes them (ver counts the contents, 0 or 1, of each) and only the *)
(* caller reseeds the global random generator.  Objects A and B are           *)
(* estimators made on the buffers, B on the buffers exchanged.  An object may  *)
(* read the buffers until it first answers, so after the caller wrote in       *)
(* between its first answer is left open; an answer once given stays.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Objects == {"A", "B"}
Buffers == {1, 2}
Contents == {0, 1}
Vers == Contents \X Contents
NoObject == [made |-> FALSE, may |-> {}, res |-> FALSE, loc |-> FALSE]

Reads(class, o) == IF class = "single" THEN (IF o = "A" THEN {1} ELSE {2}) ELSE Buffers
\* an object's first answer: the contents it was made with, unless the caller wrote meanwhile
Value(given, may) == IF given THEN [tag |-> "same", ver |-> <<0, 0>>]
                     ELSE IF Cardinality(may) = 1 THEN [tag |-> "value", ver |-> CHOOSE v \in may : TRUE]
                     ELSE [tag |-> "any", ver |-> <<0, 0>>]
Nothing == [tag |-> "nothing", ver |-> <<0, 0>>]
Refused == [tag |-> "refused", ver |-> <<0, 0>>]

\* what the caller does: [act, obj, buf]
Do(a, o, b) == [act |-> a, obj |-> o, buf |-> b]
Calls(class) == IF class = "composite" THEN {Do("direct", "A", 0), Do("direct", "B", 0), Do("bad", "A", 0)}
    ELSE {Do(a, o, 0) : a \in {"make", "result", "local"}, o \in Objects} \cup {Do("direct", "A", 0), Do("bad", "A", 0)}
         \cup (IF class = "tested" THEN {Do("test", "A", 0), Do("fault", "A", 0)} ELSE {})
Own == {Do("overwrite", "", b) : b \in Buffers} \cup {Do("reseed", "", 0)}

Enabled(obj, d) == CASE d.act \in {"result", "local", "test", "fault"} -> obj[d.obj].made
                     [] d.act = "make" -> ~obj[d.obj].made
                     [] OTHER -> TRUE
\* the answer, the buffers, the objects and the generator after a step
Step(class, ver, obj, gen, d) ==
    LET o == d.obj
        stay == [ver |-> ver, obj |-> obj, gen |-> gen, ans |-> Nothing]
    IN  CASE d.act = "make" -> [stay EXCEPT !.obj[o] = [made |-> TRUE, may |-> {ver}, res |-> FALSE, loc |-> FALSE]]
          [] d.act \in {"result", "test"} -> [stay EXCEPT !.ans = Value(obj[o].res, obj[o].may), !.obj[o].res = TRUE]
          [] d.act = "local" -> [stay EXCEPT !.ans = Value(obj[o].loc, obj[o].may), !.obj[o].loc = TRUE]
          [] d.act = "direct" -> [stay EXCEPT !.ans = [tag |-> "value", ver |-> ver]]
          [] d.act = "bad" -> [stay EXCEPT !.ans = Refused]
          [] d.act = "fault" -> stay
          [] d.act = "reseed" -> [stay EXCEPT !.gen = @ + 1]
          [] OTHER ->
             LET w == [ver EXCEPT ![d.buf] = 1 - @]
             IN  [stay EXCEPT !.ver = w,
                  !.obj = [q \in Objects |-> IF obj[q].made /\ d.buf \in Reads(class, q)
                                             THEN [obj[q] EXCEPT !.may = @ \cup {w}] ELSE obj[q]]]
=============================================================================
