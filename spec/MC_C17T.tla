------------------------------- MODULE MC_C17T -------------------------------
(* Traces recorded from the library: is every step one the specification      *)
(* allows?  Prints the first step that is not (0: none).                       *)
EXTENDS Config, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES id, pos, cfg, bad
vars == <<id, pos, cfg, bad>>
Init == id \in 1..Len(Traces) /\ pos = 1 /\ cfg = Default /\ bad = 0
S == Traces[id][pos]
R == Apply(cfg, S.o)
Fits == /\ S.err = R.err
        /\ \A k \in Keys : S.cfg[k] = R.cfg[k]
        /\ S.unit = UnitName(R.cfg.base)
Step == /\ pos <= Len(Traces[id]) /\ bad = 0
        /\ cfg' = R.cfg /\ pos' = pos + 1 /\ id' = id
        /\ bad' = IF Fits THEN 0 ELSE pos
Done == /\ pos = Len(Traces[id]) + 1 \/ bad # 0
        /\ pos <= Len(Traces[id]) + 1
        /\ PrintT(ToJson([id |-> id, bad |-> bad]))
        /\ pos' = Len(Traces[id]) + 2 /\ UNCHANGED <<id, cfg, bad>>
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
