----------------------------- MODULE MC_Answers -----------------------------
(***************************************************************************)
(* Requests recorded by the harness (file named by CASES) are behaviours    *)
(* "asked" -> "answered"; the answer is the one the specification gives.    *)
(***************************************************************************)
EXTENDS Measures, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES id, phase
vars == <<id, phase>>
Init == id \in 1..Len(Cases) /\ phase = "asked"
Respond == /\ phase = "asked"
           /\ phase' = "answered"
           /\ id' = id
           /\ PrintT(ToJson([id |-> id, ans |-> FullAnswer(Cases[id])]))
Spec == Init /\ [][Respond]_vars
TypeOK == phase \in {"asked", "answered"}
=============================================================================
