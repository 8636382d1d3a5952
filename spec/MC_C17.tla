------------------------------- MODULE MC_C17 -------------------------------
(* Every operation from every configuration reachable by the operations, and *)
(* every history of operations up to a depth.                                 *)
EXTENDS Config, Json, IOUtils

Deep == IOEnv.VERIF_TIER = "thorough"
Depth == IF Deep THEN 4 ELSE 3
Set(k, v) == [op |-> "set", key |-> k, val |-> v]
Unit(n, l) == [op |-> "unit", name |-> n, low |-> l]
Reset == [op |-> "reset"]
B == "base"  M == "statistical_test_method"  N == "statistical_test_n_tests"

\* operations that appear inside histories
Moves == {Set(B, Whole(2)), Set(B, Text("e")), Set(B, Num(5, 2)), Set(B, Whole(3)), Unit("bits", "bits"),
          Unit("Nats", "nats"), Unit("HARTLEYS", "hartleys"), Set(M, Text("bootstrap")),
          Set(M, Text("permutation_test")), Set(N, Whole(7)), Set(N, Whole(2)), Reset}
\* operations tried (once) after every history
Tried ==
    Moves
    \cup {Set(B, v) : v \in {Whole(10), Float(2), Float(10), Num(13, 4), Whole(7), Text("2"), Text("nats"), Text("E"),
                             Text(""), Other("None"), Other("list")}}
    \cup {Set(M, v) : v \in {Text("Bootstrap"), Text("permutation"), Text(""), Whole(1), Other("None"), Num(1, 2)}}
    \cup {Set(N, v) : v \in {Whole(1), Whole(50), Num(5, 2), Float(5), Text("10"), Text("e"), Other("None"),
                             Other("list")}}
    \cup {Set(k, v) : k \in {"Base", "log_base", "n_tests", "", "statistical_test"}, v \in {Whole(2), Text("e")}}
    \cup {Unit(u, u) : u \in Bits \cup Nats \cup Dits}
    \cup {Unit("SHANNONS", "shannons"), Unit("nIt", "nit"), Unit("Ban", "ban"), Unit("DIT", "dit"),
          Unit("bit ", "bit "), Unit("", ""), Unit("decibel", "decibel"), Unit("base 2", "base 2"),
          Unit("e", "e"), Unit("2", "2")}

VARIABLES cfg, hist, last, err, phase
vars == <<cfg, hist, last, err, phase>>
Init == cfg = Default /\ hist = <<>> /\ last = Reset /\ err = "" /\ phase = "idle"
Move == /\ phase = "idle" /\ Len(hist) < Depth
        /\ \E o \in Moves : LET r == Apply(cfg, o) IN
             /\ cfg' = r.cfg /\ hist' = Append(hist, o) /\ last' = o /\ err' = r.err
        /\ phase' = "idle"
Try == /\ phase = "idle" /\ phase' = "tried" /\ UNCHANGED hist
       /\ \E o \in Tried : LET r == Apply(cfg, o) IN
            /\ cfg' = r.cfg /\ last' = o /\ err' = r.err
            /\ (IF Len(hist) < Depth
                THEN PrintT(ToJson([hist |-> hist, o |-> o, err |-> r.err, cfg |-> r.cfg, unit |-> UnitName(r.cfg.base)]))
                ELSE TRUE)
Next == Move \/ Try
Spec == Init /\ [][Next]_vars

\* settings are always acceptable ones
Sound == \A k \in Keys : Accepted(k, cfg[k])
\* a refused operation changes nothing; an accepted one changes at most its own key
OneKey == [][ (err' # "" => cfg' = cfg)
              /\ (last'.op = "set" => \A k \in Keys \ {last'.key} : cfg'[k] = cfg[k])
              /\ (last'.op = "unit" => \A k \in Keys \ {"base"} : cfg'[k] = cfg[k])
              /\ (last'.op = "reset" => cfg' = Default) ]_vars
\* the configuration is determined by the last effective operation on each key
LastWins == LET h == IF phase = "tried" /\ err = "" THEN Append(hist, last) ELSE hist
                resets == {i \in 1..Len(h) : h[i].op = "reset"}
                from == IF resets = {} THEN 0 ELSE CHOOSE i \in resets : \A j \in resets : j <= i
                writes(k) == {i \in (from + 1)..Len(h) : \/ (h[i].op = "set" /\ h[i].key = k)
                                                        \/ (h[i].op = "unit" /\ k = "base")}
                value(i) == IF h[i].op = "unit" THEN UnitBase(h[i].low) ELSE h[i].val
            IN  \A k \in Keys : cfg[k] = IF writes(k) = {} THEN Default[k]
                                         ELSE value(CHOOSE i \in writes(k) : \A j \in writes(k) : j <= i)
\* units map to bases and back
RoundTrip == \A u \in Bits \cup Nats \cup Dits :
    UnitName(UnitBase(u)) = IF u \in Bits THEN "bit/shannon" ELSE IF u \in Nats THEN "nat/nit/nepit" ELSE "hartley/ban/dit"
=============================================================================
