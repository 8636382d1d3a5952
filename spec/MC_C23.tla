------------------------------- MODULE MC_C23 -------------------------------
(* Local values: exact on every small plug-in request, counted on every size, *)
(* and sessions of queries.  CASES holds the sizes of recorded requests.       *)
EXTENDS Locals, Json, IOUtils

Deep == IOEnv.VERIF_TIER = "thorough"
Recorded == JsonDeserialize(IOEnv.CASES)
VARIABLES mode, c, size, hist, phase
vars == <<mode, c, size, hist, phase>>

Bin(n) == [1..n -> 0..1]
Bin0(n) == {f \in [1..n -> 0..1] : f[1] = 0}
Par == [ap |-> "discrete", K |-> 0, mloc |-> FALSE]
Req(k, vs, more) == [kind |-> k, par |-> Par, vars |-> vs] @@ more
Win(lx, ly, s, p) == [lx |-> lx, ly |-> ly, step |-> s, prop |-> p]
Plug ==
    {Req("h", <<Col(f)>>, <<>>) : f \in UNION {[1..n -> 0..2] : n \in 1..(IF Deep THEN 6 ELSE 5)}}
    \cup UNION {{Req("h", <<Col(f), Col(g)>>, <<>>) : f, g \in Bin(n)} : n \in 1..4}
    \cup UNION {{Req("mi", <<Col(f), Col(g)>>, [off |-> k]) : f \in Bin0(n), g \in Bin(n), k \in -1..1}
                : n \in 2..(IF Deep THEN 6 ELSE 5)}
    \cup {Req("mi", <<Col(f), Col(g), Col(h)>>, [off |-> 0]) : f \in Bin0(4), g, h \in Bin(4)}
    \cup {Req("cmi", <<Col(f), Col(g)>>, [cond |-> Col(h)]) : f \in Bin0(4), g, h \in Bin(4)}
    \cup {Req("te", <<Col(f), Col(g)>>, Win(a, b, s, p)) :
          f \in Bin0(5), g \in Bin(5), a, b \in 1..(IF Deep THEN 2 ELSE 1), s \in 1..2, p \in {0, 1}}
    \cup {Req("cte", <<Col(f), Col(g)>>, [cond |-> Col(h), lz |-> 1] @@ Win(1, 1, 1, 0)) :
          f, g \in Bin0(5), h \in {<<0, 0, 1, 1, 0>>, <<0, 1, 1, 0, 1>>, <<1, 0, 0, 1, 1>>}}
Steps == 1..3
Sizes ==
    {[kind |-> k, n |-> n, d |-> d, st |-> st, off |-> 0, prop |-> 0, m |-> 0, s |-> 1] :
     k \in {"h", "cmi"}, n \in 1..12, d \in 1..4, st \in Steps}
    \cup {[kind |-> "mi", n |-> n, d |-> d, st |-> st, off |-> o, prop |-> 0, m |-> 0, s |-> 1] :
          n \in 1..12, d \in 1..3, st \in 1..2, o \in -3..3}
    \cup {[kind |-> k, n |-> n, d |-> d, st |-> s, off |-> 0, prop |-> p, m |-> m, s |-> s] :
          k \in {"te"}, n \in 2..14, d \in 1..3, p \in -2..2, m \in 1..3, s \in Steps}
    \cup {[kind |-> k, n |-> n, d |-> d, st |-> s, off |-> 0, prop |-> 0, m |-> m, s |-> s] :
          k \in {"cte"}, n \in 2..14, d \in 1..3, m \in 1..3, s \in Steps}
Queries == {"global", "local", "result"}
NoC == [kind |-> "none"]
Init ==
    /\ phase = "asked"
    /\ \/ mode = "plug" /\ c \in Plug /\ size = NoC /\ hist = <<>>
       \/ mode = "size" /\ c = NoC /\ size \in Sizes /\ hist = <<>>
       \/ mode = "recorded" /\ c = NoC /\ hist = <<>> /\ \E i \in 1..Len(Recorded) : size = Recorded[i] @@ [id |-> i]
       \/ mode = "session" /\ c = NoC /\ size = NoC /\ hist \in [1..3 -> Queries]
\* every query of a session is answered by the request alone
Reply(q) == IF q = "local" THEN "locals" ELSE "value"
Respond ==
    /\ phase = "asked" /\ phase' = "answered" /\ UNCHANGED <<mode, c, size, hist>>
    /\ PrintT(ToJson(
         CASE mode = "plug" -> [mode |-> mode, case |-> c, ans |-> Answer(c)]
           [] mode = "size" -> [mode |-> mode, req |-> size, count |-> Size(size)]
           [] mode = "recorded" -> [mode |-> mode, id |-> size.id, count |-> Size(size),
                                    offered |-> Offered(size.kind, size.ap), averages |-> Averages(size.kind, size.ap)]
           [] OTHER -> [mode |-> mode, hist |-> hist, ans |-> [i \in 1..Len(hist) |-> Reply(hist[i])]]))
Spec == Init /\ [][Respond]_vars

P == mode = "plug" /\ phase = "answered"
\* N times the mean of the local values is N times the global value, exactly
MeanIsGlobal == P => FSumSeq(PlugLocal(c)) = PlugGlobal(c)
\* the answer the library is compared with is built on the same number of observations
OnePerObservation == P => LET t == Tables(c) IN Len(PlugLocal(c)) = Len(t.vs[1]) /\ Len(Answer(c).l) = Len(t.vs[1])
SizesAgree == P => Len(PlugLocal(c)) =
    Size([kind |-> c.kind, n |-> Len(c.vars[1]), d |-> 1, st |-> 1,
          off |-> IF c.kind = "mi" THEN c.off ELSE 0,
          prop |-> IF c.kind = "te" THEN c.prop ELSE 0,
          s |-> IF c.kind \in {"te", "cte"} THEN c.step ELSE 1,
          m |-> IF c.kind \in {"te", "cte"} THEN MaxI(c.lx, c.ly) ELSE 0])
\* local values follow their observations
Turned(r) == [r EXCEPT !.vars = [v \in 1..Len(r.vars) |-> Reverse(r.vars[v])]]
             @@ (IF "cond" \in DOMAIN r THEN [cond |-> Reverse(r.cond)] ELSE <<>>)
TurnedC(r) == IF r.kind = "cmi" THEN [Turned(r) EXCEPT !.cond = Reverse(r.cond)] ELSE Turned(r)
Follow == (P /\ (c.kind \in {"h", "cmi"} \/ (c.kind = "mi" /\ c.off = 0))) =>
          PlugLocal(TurnedC(c)) = Reverse(PlugLocal(c))
\* observations that look alike have equal local values
Alike == P => LET t == Tables(c)  J == Join(t.vs \o (IF t.z = <<>> THEN <<>> ELSE <<t.z>>))  l == PlugLocal(c)
              IN  \A i, j \in 1..Len(l) : J[i] = J[j] => l[i] = l[j]
\* sizes: the formula counts the windows that exist
Zeros(n) == [i \in 1..n |-> <<0>>]
CountedWindows == (mode = "size" /\ phase = "answered") =>
    LET n == Left(size.n, size.d, size.st)
    IN  n < 1 \/ CASE size.kind = "te" ->
                        LET a == AbsN(size.prop) * size.s
                        IN  n <= a \/ n - a <= size.m * size.s
                            \/ Len(TEWindows(Zeros(n), Zeros(n), size.m, 1, size.s, size.prop).fut) = Size(size)
                   [] size.kind = "cte" ->
                        n <= size.m * size.s
                        \/ Len(CTEWindows(Zeros(n), Zeros(n), Zeros(n), 1, size.m, 1, size.s).fut) = Size(size)
                   [] size.kind = "mi" -> n <= AbsN(size.off) \/ Len(OffsetX(Zeros(n), size.off)) = Size(size)
                   [] OTHER -> Size(size) = n
PatternsCounted == (mode = "size" /\ phase = "answered" /\ size.kind = "h" /\ Left(size.n, size.d, size.st) >= 1) =>
    Len(Patterns([i \in 1..size.n |-> i], size.d, size.st)) = Size(size)
SessionFree == (mode = "session") => \A i, j \in 1..Len(hist) : hist[i] = hist[j] => Reply(hist[i]) = Reply(hist[j])
=============================================================================
