------------------------------ MODULE Validity ------------------------------
(***************************************************************************)
(* Which requests are well-formed.  A request names a measure (kind) and a   *)
(* canonical approach; lens are the lengths of the variables, cl the length   *)
(* of the condition (NoCond: none is given), form the shape of the data, and   *)
(* p maps the parameters that are given to cells <<type, number>>.  Floats are *)
(* given in halves.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Kinds == {"h", "hx", "mi", "cmi", "te", "cte", "jsd", "kld"}
Counts == {"ansb", "bayes", "bonachela", "chao_shen", "chao_wang_jost", "discrete", "grassberger", "miller_madow", "nsb",
           "shrink", "zhang"}
Kde == {"kernel"}
Nearest == {"metric", "renyi", "tsallis"}
Approaches == Counts \cup Kde \cup Nearest \cup {"ordinal"}
NoCross == {"ansb", "bonachela", "chao_shen", "chao_wang_jost", "grassberger", "nsb", "shrink", "zhang"}
Jensen == {"discrete", "bayes", "shrink", "ordinal", "kernel"}
Exists(kind, ap) == CASE kind \in {"hx", "kld"} -> ap \notin NoCross [] kind = "jsd" -> ap \in Jensen [] OTHER -> TRUE
NoCond == -1

Histories(kind) == CASE kind = "te" -> {"src_hist_len", "dest_hist_len", "step_size"}
                     [] kind = "cte" -> {"src_hist_len", "dest_hist_len", "cond_hist_len", "step_size"}
                     [] OTHER -> {}
Pairs == {"mi", "cmi", "te", "cte"}
\* the parameters a request of this kind and approach may carry
Params(kind, ap) ==
    Histories(kind) \cup {"base"}
    \cup (IF kind = "mi" THEN {"offset"} ELSE {}) \cup (IF kind = "te" THEN {"offset", "prop_time"} ELSE {})
    \cup (IF ap = "ordinal" THEN {"embedding_dim"} \cup (IF kind \in {"te", "cte"} THEN {} ELSE {"step_size"}) ELSE {})
    \cup (IF ap \in Nearest THEN {"k"} ELSE {})
    \cup (IF ap \in Nearest /\ kind \in Pairs THEN {"noise_level"} ELSE {})
    \cup (IF ap = "metric" THEN {"minkowski_p", "ksg_id"} ELSE {})
    \cup (IF ap = "kernel" THEN {"kernel", "bandwidth"} ELSE {})
    \cup (IF ap \in {"renyi", "bayes"} THEN {"alpha"} ELSE {})
    \cup (IF ap = "tsallis" THEN {"q"} ELSE {})
    \cup (IF kind \in {"mi", "cmi"} THEN {"normalize"} ELSE {})
\* and those that mean nothing to it
Alien(kind, ap) ==
    {"foo"} \cup (IF kind \in {"mi", "cmi"} THEN {} ELSE {"normalize"})
    \cup (IF kind = "cte" THEN {"offset", "prop_time"} ELSE IF kind = "cmi" THEN {"offset"} ELSE {})
    \cup (IF kind \in {"h", "mi", "cmi"} /\ ap # "ordinal" THEN {"src_hist_len"} ELSE {})

Absent(p, f) == f \notin DOMAIN p
Given(p, f) == f \in DOMAIN p
IsInt(c) == c[1] \in {"int", "npint"}
IsNum(c) == c[1] \in {"int", "npint", "float"}
PosInt(c) == IsInt(c) /\ c[2] >= 1
\* half units
Halves(c) == IF c[1] = "float" THEN c[2] ELSE 2 * c[2]

\* verdict on one parameter by itself
Cell(kind, ap, f, c) ==
    CASE f \in {"src_hist_len", "dest_hist_len", "cond_hist_len", "step_size", "embedding_dim", "k"} ->
             IF PosInt(c) THEN "fine" ELSE "bad"
      [] f = "base" -> IF c[1] = "str" THEN (IF c[2] = 0 THEN "fine" ELSE "bad")        \* <<"str", 0>> is "e"
                       ELSE IF c[1] = "list" THEN "bad"
                       ELSE IF c[1] = "none" THEN "fine"
                       ELSE IF c[1] = "npint" THEN "open"
                       ELSE IF Halves(c) < 0 THEN "bad"
                       ELSE IF Halves(c) \in {0, 2} THEN "open" ELSE "fine"
      [] f = "offset" -> IF c[1] = "none" \/ IsInt(c) THEN "fine" ELSE "bad"
      [] f = "prop_time" -> IF IsInt(c) THEN "fine" ELSE "bad"
      [] f = "noise_level" -> IF c[1] = "none" \/ (IsNum(c) /\ Halves(c) >= 0) THEN "fine"
                              ELSE IF IsNum(c) THEN "bad" ELSE "open"
      [] f = "minkowski_p" -> IF IsNum(c) /\ Halves(c) >= 2 THEN "fine" ELSE "bad"
      [] f = "ksg_id" -> IF c[1] = "float" /\ Halves(c) \in {2, 4} THEN "open"
                         ELSE IF IsInt(c) /\ c[2] \in {1, 2} THEN "fine" ELSE "bad"
      [] f = "kernel" -> IF c \in {<<"str", 1>>, <<"str", 2>>} THEN "fine" ELSE "bad"   \* "box", "gaussian"
      [] f = "bandwidth" -> IF IsNum(c) /\ Halves(c) > 0 THEN "fine" ELSE "bad"
      [] f = "alpha" /\ ap = "renyi" -> IF c[1] = "npint" THEN "open" ELSE IF IsNum(c) /\ Halves(c) > 0 THEN "fine" ELSE "bad"
      [] f = "q" -> IF c[1] = "npint" THEN "open" ELSE IF IsNum(c) /\ Halves(c) > 0 THEN "fine" ELSE "bad"
      [] f = "alpha" /\ ap = "bayes" -> IF c[1] = "npint" THEN "open" ELSE IF IsNum(c) THEN (IF Halves(c) > 0 THEN "fine" ELSE "open")
                                        ELSE IF c = <<"str", 3>> THEN "fine" ELSE "bad"  \* "jeffrey"
      [] f = "normalize" -> IF c = <<"bool", 0>> THEN (IF ap \in Nearest \cup Kde THEN "fine" ELSE "open")
                            ELSE IF c # <<"bool", 1>> THEN "open"
                            ELSE IF ap \in Nearest \cup Kde THEN "fine"
                            ELSE IF ap \in {"discrete", "miller_madow", "ordinal"} THEN "bad" ELSE "open"
      [] OTHER -> "open"
AlienCell(kind, f, c) ==
    IF f \in {"offset", "prop_time"}        \* a condition excludes both
    THEN (IF f = "offset" /\ (c[1] = "none" \/ (IsNum(c) /\ c[2] = 0)) THEN "open"
          ELSE IF f = "prop_time" /\ (IsNum(c) /\ c[2] = 0) THEN "open" ELSE "bad")
    \* the factory names the history parameters for every measure
    ELSE IF f = "src_hist_len" THEN "open" ELSE "bad"
FieldVerdict(r, f) == IF f \in Params(r.kind, r.ap) THEN Cell(r.kind, r.ap, f, r.p[f])
                      ELSE AlienCell(r.kind, f, r.p[f])

\* ---- data ----------------------------------------------------------------------------
NVars(kind) == CASE kind = "h" -> {1} [] kind \in {"te", "cte", "hx", "kld"} -> {2} [] OTHER -> 2..9
AllSame(s) == \A i \in 1..Len(s) : s[i] = s[1]
\* forms: flat, table (two columns), cube (three dimensions), odd (first variable a table, the others flat),
\* tail (last variable a table, the others flat), cond (the condition a table, the variables flat), scalar, none, word, ragged (first variable only)
FormVerdict(r) ==
    CASE r.form = "flat" -> "fine"
      [] r.form \in {"scalar", "none", "word", "ragged"} -> "bad"
      [] r.form = "table" -> IF r.ap = "ordinal" THEN "bad"
                             ELSE IF Given(r.p, "normalize") /\ r.p["normalize"] = <<"bool", 1>> THEN "bad" ELSE "fine"
      [] r.form = "cube" -> IF r.kind = "h" THEN "bad" ELSE "open"
      [] r.form = "cond" /\ r.cl = NoCond -> "fine"
      [] r.form \in {"odd", "tail", "cond"} -> IF r.ap = "ordinal" \/ (r.kind \in {"hx", "kld", "jsd"} /\ Len(r.lens) > 1) THEN "bad"
                           ELSE IF Given(r.p, "normalize") /\ r.p["normalize"] = <<"bool", 1>> THEN "bad" ELSE "fine"
      [] OTHER -> "open"
CondVerdict(r) == IF r.kind \in {"cmi", "cte"} THEN (IF r.cl = NoCond THEN "bad" ELSE "fine")
                  ELSE IF r.cl = NoCond THEN "fine" ELSE "bad"
Variables(r) == IF Len(r.lens) \notin NVars(r.kind) THEN "bad"
                ELSE IF r.kind \in Pairs /\ ~AllSame(r.lens \o (IF r.cl = NoCond THEN <<>> ELSE <<r.cl>>)) THEN "bad"
                ELSE "fine"

\* ---- enough observations? only asked when every part is fine by itself ----------------------
Num(p, f, d) == IF Given(p, f) /\ IsInt(p[f]) THEN p[f][2] ELSE d
AbsI(x) == IF x < 0 THEN -x ELSE x
Max(x, y) == IF x > y THEN x ELSE y
Step(r) == Num(r.p, "step_size", 1)
Prop(r) == LET o == Num(r.p, "offset", 0) q == Num(r.p, "prop_time", 0) IN IF q # 0 THEN q ELSE o
PatternsOf(r, n) == IF r.ap # "ordinal" THEN n
                    ELSE n - (Num(r.p, "embedding_dim", 2) - 1) * Step(r)
Shifted(r) == CASE r.kind = "mi" -> r.lens[1] - AbsI(Num(r.p, "offset", 0))
                [] r.kind = "te" -> r.lens[1] - AbsI(Prop(r) * Step(r))
                [] OTHER -> r.lens[1]
Observations(r) ==
    LET n == PatternsOf(r, Shifted(r))
        l == Max(Num(r.p, "src_hist_len", 1), Max(Num(r.p, "dest_hist_len", 1),
                 IF r.kind = "cte" THEN Num(r.p, "cond_hist_len", 1) ELSE 1)) * Step(r)
    IN  IF r.kind \notin {"te", "cte"} THEN n ELSE IF n <= l THEN 0 ELSE (n - l + Step(r) - 1) \div Step(r)
Neighbours(r) == Num(r.p, "k", 4)
EnoughNeighbours(r) ==
    r.ap \in Nearest =>
      CASE r.kind = "hx" -> Neighbours(r) <= r.lens[2]
        [] r.kind = "kld" -> Neighbours(r) <= r.lens[2] /\ Neighbours(r) < r.lens[1]
        [] OTHER -> Neighbours(r) < Observations(r)
Sizes(r) ==
    LET others == {PatternsOf(r, r.lens[i]) : i \in 2..Len(r.lens)} IN
    IF \E i \in 1..Len(r.lens) : r.lens[i] = 0 THEN "open"
    ELSE IF Observations(r) < 1 \/ (\E n \in others : n < 1) THEN "bad"
    ELSE IF ~EnoughNeighbours(r) THEN "bad"
    \* a single observation is not normalised
    ELSE IF Given(r.p, "normalize") /\ r.p["normalize"] = <<"bool", 1>> /\ Observations(r) < 2 THEN "open"
    \* a Gaussian kernel needs a covariance
    ELSE IF r.ap = "kernel" /\ Given(r.p, "kernel") /\ r.p["kernel"] = <<"str", 2>> THEN "open" ELSE "fine"
\* combinations
Together(r) ==
    IF r.kind = "mi" /\ Len(r.lens) > 2 /\ Num(r.p, "offset", 0) # 0 THEN "bad"
    ELSE IF r.kind = "te" /\ Num(r.p, "offset", 0) # 0 /\ Num(r.p, "prop_time", 0) # 0 THEN "bad"
    ELSE "fine"
\* normalising data needs two different values per variable; the harness sends such data

Parts(r) == {FieldVerdict(r, f) : f \in DOMAIN r.p} \cup {FormVerdict(r), CondVerdict(r), Variables(r)}
\* a condition names the conditional measure, two variables the cross-entropy
Named(r) == IF r.cl = NoCond THEN (IF r.kind = "h" /\ Len(r.lens) = 2 THEN [r EXCEPT !.kind = "hx"] ELSE r)
            ELSE IF r.kind = "mi" THEN [r EXCEPT !.kind = "cmi"] ELSE IF r.kind = "te" THEN [r EXCEPT !.kind = "cte"] ELSE r
Verdict(r0) == LET r == Named(r0) IN
    IF r.kind \in {"mi", "cmi", "jsd"} /\ Len(r.lens) = 1 THEN "open" ELSE     \* one series
    IF ~Exists(r.kind, r.ap) \/ "bad" \in Parts(r) THEN "refused"
    ELSE IF Together(r) = "bad" THEN "refused"
    ELSE LET s == Sizes(r) IN
         IF s = "bad" THEN (IF "open" \in Parts(r) /\ r.form = "cube" THEN "open" ELSE "refused")
         ELSE IF "open" \in Parts(r) \/ s = "open" THEN "open" ELSE "computed"
=============================================================================
