------------------------------- MODULE MC_C21 -------------------------------
(* Every short history of a caller and the library sharing two buffers.        *)
EXTENDS Heap, Json, IOUtils

Deep == IOEnv.VERIF_TIER = "thorough"
VARIABLES class, ver, obj, gen, hist, out
vars == <<class, ver, obj, gen, hist, out>>
Depth == CASE class = "composite" -> 5 [] class = "tested" -> IF Deep THEN 6 ELSE 5 [] OTHER -> IF Deep THEN 6 ELSE 5
Init == /\ class \in {"single", "joint", "tested", "composite"}
        /\ ver = <<0, 0>> /\ gen = 0 /\ hist = <<>> /\ out = <<>>
        /\ obj = [o \in Objects |-> IF o = "A" /\ class # "composite"
                                    THEN [NoObject EXCEPT !.made = TRUE, !.may = {<<0, 0>>}] ELSE NoObject]
\* a caller step or a call; the last step of a history is a call
Act == /\ Len(hist) < Depth - 1
       /\ \E d \in Calls(class) \cup Own :
            /\ Enabled(obj, d)
            /\ (Len(hist) = Depth - 2 => d \in Calls(class) /\ d.act # "make")
            \* nothing is learnt from writing a buffer twice in a row, or reseeding twice
            /\ (Len(hist) > 0 /\ d \in Own => hist[Len(hist)] # d)
            /\ LET s == Step(class, ver, obj, gen, d)
                   h == Append(hist, d)
                   a == Append(out, [s.ans EXCEPT !.ver = @] @@ [now |-> s.ver])
               IN  /\ ver' = s.ver /\ obj' = s.obj /\ gen' = s.gen /\ hist' = h /\ out' = a
                   /\ (IF Len(h) = Depth - 1 THEN PrintT(ToJson([class |-> class, hist |-> h, out |-> a])) ELSE TRUE)
       /\ UNCHANGED class
Spec == Init /\ [][Act]_vars

TypeOK == /\ ver \in Vers /\ \A o \in Objects : obj[o].may \subseteq Vers
\* only the caller writes
CallerWrites == [][(ver' # ver => hist'[Len(hist')].act = "overwrite") /\ (gen' # gen => hist'[Len(hist')].act = "reseed")]_vars
\* an answer given is never taken back: a second answer to the same question is the same
Answered(o, kinds, n) == \E i \in 1..n : hist[i].obj = o /\ hist[i].act \in kinds
Stays == \A n \in 1..Len(hist) :
    /\ (hist[n].act \in {"result", "test"} /\ Answered(hist[n].obj, {"result", "test"}, n - 1)) => out[n].tag = "same"
    /\ (hist[n].act = "local" /\ Answered(hist[n].obj, {"local"}, n - 1)) => out[n].tag = "same"
\* without writes every answer is determined by the first contents
Written(n) == \E i \in 1..n : hist[i].act = "overwrite"
Quiet == \A n \in 1..Len(hist) : ~Written(n) => (out[n].tag # "any" /\ out[n].ver = <<0, 0>>)
\* objects do not see each other: what A answers does not depend on the steps of B
Without(h) == SelectSeq(h, LAMBDA d : ~(d.obj = "B" /\ d.act \in {"make", "result", "local"}))
RECURSIVE Final(_, _, _, _, _)
Final(c, v, ob, g, h) == IF h = <<>> THEN ob["A"]
                         ELSE LET s == Step(c, v, ob, g, h[1]) IN Final(c, s.ver, s.obj, s.gen, Tail(h))
Start == [o \in Objects |-> IF o = "A" /\ class # "composite" THEN [NoObject EXCEPT !.made = TRUE, !.may = {<<0, 0>>}] ELSE NoObject]
Separate == obj["A"] = Final(class, <<0, 0>>, Start, 0, Without(hist))
=============================================================================
