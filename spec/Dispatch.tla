------------------------------ MODULE Dispatch ------------------------------
(***************************************************************************)
(* Which measure and which estimator a request names.  A request is made     *)
(* through the factory (estimator(..., measure=, approach=)), through a       *)
(* shortcut function or through the class returned for a measure and an       *)
(* approach.  Names are given by their words; letters and sep say how they    *)
(* are written.                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* measure names: every word list of a name and the measure it stands for
Long == [entropy |-> "h", cross_entropy |-> "hx", mutual_information |-> "mi",
         conditional_mutual_information |-> "cmi", transfer_entropy |-> "te",
         conditional_transfer_entropy |-> "cte"]
Short == [h |-> "h", hx |-> "hx", mi |-> "mi", cmi |-> "cmi", te |-> "te", cte |-> "cte"]
Names == Long @@ Short
Composite == [jensen_shannon_divergence |-> "jsd", jsd |-> "jsd", kullback_leiber_divergence |-> "kld", kld |-> "kld"]
NoMeasure == {"entropie", "crossentropy", "information", "mutual", "conditional_entropy", "ce", "jsd", "kld", "x", "",
              "mutual_informations", "transfer"}

\* approaches: aliases resolve to one canonical name
Alias == [mm |-> "miller_madow", js |-> "shrink", cs |-> "chao_shen", cwj |-> "chao_wang_jost", kl |-> "metric",
          ksg |-> "metric", symbolic |-> "ordinal", permutation |-> "ordinal"]
Canonical == {"ansb", "bayes", "bonachela", "chao_shen", "chao_wang_jost", "discrete", "grassberger", "kernel", "metric",
              "miller_madow", "nsb", "renyi", "shrink", "ordinal", "tsallis", "zhang"}
NoApproach == {"foo", "", "discret", "discrete_", "minkowski", "miller", "mi", "entropy", "None"}
Approaches == Canonical \cup DOMAIN Alias
Canon(a) == IF a \in DOMAIN Alias THEN Alias[a] ELSE a
\* names known for entropies and for the other measures
EntropyNames == Approaches \ {"ksg"}
PairNames == Approaches \ {"kl", "cs", "cwj", "js"}
Known(kind, a) == a \in (IF kind \in {"h", "hx", "jsd", "kld"} THEN EntropyNames ELSE PairNames)

\* approaches without a cross-entropy, and those with a Jensen-Shannon divergence
NoCross == {"ansb", "bonachela", "chao_shen", "chao_wang_jost", "grassberger", "nsb", "shrink", "zhang"}
Jensen == {"discrete", "bayes", "shrink", "ordinal", "kernel"}
Defined(kind, a) == CASE kind \in {"hx", "kld"} -> Canon(a) \notin NoCross
                      [] kind = "jsd" -> Canon(a) \in Jensen
                      [] OTHER -> TRUE

Refuse == [verdict |-> "refused", kind |-> "", ap |-> ""]
Free == [verdict |-> "free", kind |-> "", ap |-> ""]
Take(kind, a) == IF Known(kind, a) /\ Defined(kind, a)
                 THEN [verdict |-> "taken", kind |-> kind, ap |-> Canon(a)] ELSE Refuse

\* nv variables, with a condition or without
Factory(word, a, nv, cond) ==
    IF word \notin DOMAIN Names THEN Refuse
    ELSE LET m == Names[word] IN
         CASE m \in {"h", "hx"} -> IF cond \/ nv \notin 1..2 \/ (m = "hx" /\ nv = 1) THEN Refuse
                                   ELSE Take(IF nv = 1 THEN "h" ELSE "hx", a)
           [] m \in {"mi", "cmi"} -> IF nv = 0 \/ (m = "cmi" /\ ~cond) THEN Refuse
                                     ELSE IF nv = 1 THEN (IF cond THEN Free ELSE Take("h", IF a = "ksg" THEN "kl" ELSE a))
                                     ELSE Take(IF cond THEN "cmi" ELSE "mi", a)
           [] OTHER -> IF nv # 2 \/ (m = "cte" /\ ~cond) THEN Refuse ELSE Take(IF cond THEN "cte" ELSE "te", a)
Shortcut(word, a, nv, cond) ==
    IF word \in DOMAIN Composite
    THEN IF cond \/ nv = 0 \/ (Composite[word] = "kld" /\ nv # 2) THEN Refuse
         ELSE IF nv = 1 THEN Free ELSE Take(Composite[word], a)
    ELSE IF Names[word] \in {"mi", "cmi"} /\ nv = 1 THEN Refuse
    ELSE Factory(word, a, nv, cond)
\* the class for a measure; it is given data (and a condition) that fit the measure
Class(word, a) == IF word \notin DOMAIN Names \/ Names[word] = "hx" THEN Refuse ELSE Take(Names[word], a)

Answer(r) == CASE r.style = "factory" -> Factory(r.word, r.ap, r.nv, r.cond)
               [] r.style = "shortcut" -> Shortcut(r.word, r.ap, r.nv, r.cond)
               [] OTHER -> Class(r.word, r.ap)
=============================================================================
