------------------------------- MODULE MC_C24 -------------------------------
(* A user writes a request: starting from a well-formed one, parts are changed *)
(* one after the other; every stage may be submitted.                            *)
EXTENDS Validity, Json, IOUtils

Deep == IOEnv.VERIF_TIER = "thorough"
MaxChanges == 2

Ints == {<<"int", 2>>, <<"int", 1>>, <<"int", 0>>, <<"int", -1>>, <<"npint", 2>>, <<"npint", 0>>, <<"int", 40>>,
         <<"float", 3>>, <<"float", 4>>, <<"str", 9>>, <<"none", 0>>, <<"list", 1>>}
Few == {<<"int", 3>>, <<"int", 0>>, <<"float", 4>>, <<"int", 12>>}
\* cells tried for a parameter, alone and together with another change
Wide(f) == CASE f = "base" -> {<<"int", 2>>, <<"int", 10>>, <<"str", 0>>, <<"str", 9>>, <<"int", -1>>, <<"float", 3>>,
                               <<"none", 0>>, <<"list", 1>>, <<"float", -5>>}
             [] f = "kernel" -> {<<"str", 1>>, <<"str", 2>>, <<"str", 8>>, <<"str", 9>>, <<"none", 0>>, <<"int", 0>>, <<"list", 1>>}
             [] f \in {"bandwidth", "q", "noise_level"} -> {<<"int", 1>>, <<"float", 1>>, <<"int", 0>>, <<"float", 0>>, <<"int", -1>>,
                                      <<"float", -1>>, <<"str", 9>>, <<"none", 0>>, <<"list", 1>>, <<"float", 4>>}
             [] f = "alpha" -> {<<"int", 1>>, <<"float", 1>>, <<"int", 0>>, <<"float", 0>>, <<"int", -1>>, <<"float", -1>>,
                                <<"str", 9>>, <<"str", 3>>, <<"none", 0>>, <<"list", 1>>}
             [] f = "minkowski_p" -> {<<"int", 1>>, <<"int", 2>>, <<"float", 3>>, <<"float", 1>>, <<"int", 0>>, <<"int", -1>>,
                                      <<"str", 9>>, <<"none", 0>>, <<"list", 1>>}
             [] f = "ksg_id" -> {<<"int", 1>>, <<"int", 2>>, <<"int", 0>>, <<"int", 3>>, <<"int", -1>>, <<"str", 9>>, <<"none", 0>>, <<"float", 3>>}
             [] f \in {"offset", "prop_time"} -> Ints \cup {<<"int", -2>>, <<"int", 11>>, <<"int", 12>>, <<"int", -12>>, <<"int", -40>>}
             [] f = "normalize" -> {<<"bool", 1>>, <<"bool", 0>>}
             [] f = "foo" -> {<<"int", 1>>}
             [] OTHER -> Ints
Narrow(f) == CASE f \in {"base"} -> {<<"int", 2>>, <<"int", -1>>}
               [] f = "kernel" -> {<<"str", 1>>, <<"str", 8>>}
               [] f \in {"bandwidth", "q", "noise_level", "alpha"} -> {<<"int", 1>>, <<"float", -1>>}
               [] f \in {"minkowski_p"} -> {<<"int", 2>>, <<"float", 1>>}
               [] f = "ksg_id" -> {<<"int", 2>>, <<"int", 3>>}
               [] f \in {"offset", "prop_time"} -> {<<"int", 1>>, <<"int", -2>>, <<"float", 4>>, <<"int", 11>>}
               [] f = "normalize" -> {<<"bool", 1>>}
               [] f = "foo" -> {<<"int", 1>>}
               [] OTHER -> Few
Forms == {"flat", "table", "cube", "odd", "tail", "cond", "scalar", "none", "word", "ragged"}
Tables == {"flat", "table", "odd", "tail", "cond"}
N == 12
LensOf(kind) == {<<N>>, <<N, N>>, <<N, N, N>>, <<N, N - 1>>, <<N - 1, N>>, <<N, 1>>, <<>>, <<N, N, N - 1>>, <<2, 2>>, <<N, N, N, N>>}
FewLens == {<<N, N>>, <<N, N, N>>, <<N, N - 1>>, <<5, 5>>}
Conds == {NoCond, N, N - 1, 1}

\* well-formed starting points
Start(kind, ap) ==
    [kind |-> kind, ap |-> ap, lens |-> IF kind = "h" THEN <<N>> ELSE <<N, N>>,
     cl |-> IF kind \in {"cmi", "cte"} THEN N ELSE NoCond, form |-> "flat",
     p |-> (IF ap = "bayes" THEN "alpha" :> <<"int", 1>> ELSE IF ap = "renyi" THEN "alpha" :> <<"int", 2>>
            ELSE IF ap = "tsallis" THEN "q" :> <<"int", 2>>
            ELSE IF ap = "kernel" THEN "bandwidth" :> <<"int", 2>> @@ "kernel" :> <<"str", 1>>
            ELSE IF ap = "ordinal" THEN "embedding_dim" :> <<"int", 2>> ELSE <<>>)
           @@ (IF ap \in Nearest THEN "k" :> <<"int", 3>> ELSE <<>>)]
\* required parameters may be taken away
Required(kind, ap) == CASE ap = "bayes" -> {"alpha"} [] ap = "kernel" -> {"bandwidth", "kernel"} [] ap = "ordinal" -> {"embedding_dim"}
                        [] OTHER -> {}

VARIABLES req, changed, ans
vars == <<req, changed, ans>>
None == "none"
\* requests around the smallest number of observations
I(n) == <<"int", n>>
Sized(kind, ap, n) == [Start(kind, ap) EXCEPT !.lens = [i \in 1..Len(Start(kind, ap).lens) |-> n],
                                              !.cl = IF @ = NoCond THEN NoCond ELSE n]
Dims(ap) == IF ap = "ordinal" THEN 1..3 ELSE {0}
Ks(ap) == IF ap \in Nearest THEN (IF Deep THEN 1..4 ELSE {1, 3}) ELSE {0}
Extra(ap, d, k) == (IF ap = "ordinal" THEN "embedding_dim" :> I(d) ELSE <<>>) @@ (IF ap \in Nearest THEN "k" :> I(k) ELSE <<>>)
Lags == 1..3
Sweep ==
    \/ \E a \in Approaches, n \in (IF Deep THEN 4..10 ELSE {5, 9}), x \in Lags, y \in Lags, s \in Lags, t \in -3..3 :
         \E d \in Dims(a), k \in Ks(a) :
           req = [Sized("te", a, n) EXCEPT !.p = Extra(a, d, k) @@ ("src_hist_len" :> I(x) @@ "dest_hist_len" :> I(y)
                  @@ "step_size" :> I(s) @@ "prop_time" :> I(t)) @@ @]
    \/ \E a \in Approaches, n \in (IF Deep THEN 4..10 ELSE {5, 8}), x \in 1..2, y \in Lags, z \in Lags, s \in Lags :
         \E d \in Dims(a), k \in Ks(a) :
           req = [Sized("cte", a, n) EXCEPT !.p = Extra(a, d, k) @@ ("src_hist_len" :> I(x) @@ "dest_hist_len" :> I(y)
                  @@ "cond_hist_len" :> I(z) @@ "step_size" :> I(s)) @@ @]
    \/ \E a \in Approaches, n \in 1..6, o \in -6..6 : \E d \in Dims(a), k \in Ks(a) :
           req = [Sized("mi", a, n) EXCEPT !.p = Extra(a, d, k) @@ ("offset" :> I(o)) @@ @]
    \/ \E n \in 1..8, d \in 1..5, s \in 1..4, kind \in Kinds \ {"te", "cte"} :
           req = [Sized(kind, "ordinal", n) EXCEPT !.p = ("embedding_dim" :> I(d) @@ "step_size" :> I(s)) @@ @]
    \/ \E n \in 1..6, m \in 1..6, k \in 1..7, a \in Nearest, kind \in {"h", "hx", "cmi", "kld"} :
           req = [Sized(kind, a, n) EXCEPT !.p = ("k" :> I(k)) @@ @, !.lens = IF kind \in {"hx", "kld"} THEN <<n, m>> ELSE @]
    \/ \E n \in 1..4, a \in Approaches \ Nearest, kind \in {"h", "hx", "cmi", "jsd", "kld"} :
           Exists(kind, a) /\ req = Sized(kind, a, n)
Init == /\ ans = None
        /\ \/ changed = {} /\ \E k \in Kinds, a \in Approaches : Exists(k, a) /\ req = Start(k, a)
           \* three variables
           \/ changed = {} /\ \E k \in {"mi", "cmi", "jsd"}, a \in Approaches :
                                     Exists(k, a) /\ req = [Start(k, a) EXCEPT !.lens = <<N, N, N>>]
           \/ changed = {"size"} /\ Sweep
Single == changed = {}
\* the first change (alone) ranges widely; a pair of changes uses the narrow choices
Set(f, c) == /\ f \notin changed
             /\ req' = [req EXCEPT !.p = (f :> c) @@ req.p]
             /\ changed' = changed \cup {f}
Lens(l) == /\ "lens" \notin changed /\ l # req.lens
           /\ req' = [req EXCEPT !.lens = l] /\ changed' = changed \cup {"lens"}
Cond(n) == /\ "cond" \notin changed /\ n # req.cl
           /\ req' = [req EXCEPT !.cl = n] /\ changed' = changed \cup {"cond"}
Form(s) == /\ "form" \notin changed /\ s # req.form
           /\ req' = [req EXCEPT !.form = s] /\ changed' = changed \cup {"form"}
\* whether the first change was one a pair may contain
NarrowSoFar == \A f \in changed : IF f = "lens" THEN req.lens \in FewLens ELSE IF f = "form" THEN req.form \in Tables
                                  ELSE IF f = "cond" THEN req.cl \in {NoCond, N, N - 1}
                                  ELSE req.p[f] \in Narrow(f)
Change == /\ ans = None /\ ans' = ans /\ "size" \notin changed /\ Cardinality(changed) < MaxChanges /\ NarrowSoFar
          /\ \/ \E f \in Params(req.kind, req.ap) \cup Alien(req.kind, req.ap) :
                  \E c \in IF Single THEN Wide(f) \cup Narrow(f) ELSE IF Deep THEN Wide(f) ELSE Narrow(f) : Set(f, c)
             \/ \E l \in IF Single THEN LensOf(req.kind) ELSE FewLens : Lens(l)
             \/ \E n \in Conds : Cond(n)
             \/ \E s \in IF Single THEN Forms ELSE Tables : Form(s)
Submit == /\ ans = None /\ ans' = Verdict(req) /\ UNCHANGED <<req, changed>>
          /\ PrintT(ToJson([req |-> [req EXCEPT !.p = [i \in 1..0 |-> 0]],
                            p |-> [f \in DOMAIN req.p |-> req.p[f]], ans |-> Verdict(req)]))
Next == Change \/ Submit
Spec == Init /\ [][Next]_vars

\* ---- properties ---------------------------------------------------------------------------
TypeOK == ans \in {None, "refused", "computed", "open"}
\* what the user starts from is well-formed
StartsFine == changed = {} => Verdict(req) = "computed"
\* what is computed has at least one observation and no refused part
ComputedIsSound == ans = "computed" => LET r == Named(req) IN /\ Observations(r) >= 1
                                       /\ Len(r.lens) >= 1
                                       /\ (r.kind \in Pairs => AllSame(r.lens))
                                       /\ (r.cl # NoCond <=> r.kind \in {"cmi", "cte"})
                                       /\ \A f \in DOMAIN r.p : f \in Params(r.kind, r.ap)
\* a refused part keeps a request refused whatever else is changed
Sticky == [][\A f \in DOMAIN req.p : (FieldVerdict(req, f) = "bad" /\ f \in DOMAIN req'.p /\ req'.p[f] = req.p[f])
                                     => Verdict(req') = "refused"]_vars
\* fewer observations never make a refused request computed
ShorterIsNoBetter == (ans = "computed" /\ \A i \in 1..Len(req.lens) : req.lens[i] > 1) =>
    LET longer == [req EXCEPT !.lens = [i \in 1..Len(req.lens) |-> req.lens[i] + 1],
                              !.cl = IF req.cl = NoCond THEN NoCond ELSE req.cl + 1]
    IN  Verdict(longer) = "computed"
=============================================================================
