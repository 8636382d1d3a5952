------------------------------- MODULE MC_C22 -------------------------------
(* Every name of every measure and approach, in every style and spelling.      *)
EXTENDS Dispatch, Json, IOUtils

Deep == IOEnv.VERIF_TIER = "thorough"
Letters == {"lower", "upper", "title", "swap"}
Seps == {"_", " ", "-", "mixed"}
HasSep(word) == word \in (DOMAIN Long \ {"entropy"}) \cup {"conditional_entropy", "mutual_informations"}
Req(style, word, letters, sep, ap, al, nv, cond) ==
    [style |-> style, word |-> word, letters |-> letters, sep |-> sep, ap |-> ap, al |-> al, nv |-> nv, cond |-> cond]
\* all spellings of measure names
Spelled == {Req("factory", w, l, s, a, "lower", n, c) :
            w \in DOMAIN Names \cup NoMeasure, l \in Letters, s \in Seps,
            a \in IF Deep THEN {"discrete", "mm", "ordinal", "kernel", "ksg"} ELSE {"discrete", "ordinal"},
            n \in 0..3, c \in BOOLEAN}
\* all spellings of approach names
Approached == {Req("factory", w, "lower", "_", a, l, n, c) :
               w \in DOMAIN Names, a \in Approaches \cup NoApproach, l \in Letters, n \in 0..3, c \in BOOLEAN}
Short1 == {Req("shortcut", w, "lower", "_", a, l, n, c) :
           w \in DOMAIN Names \cup DOMAIN Composite, a \in Approaches \cup NoApproach, l \in Letters, n \in 0..3,
           c \in BOOLEAN}
Classes == {Req("class", w, l, "_", a, al, 2, FALSE) :
            w \in DOMAIN Names \cup NoMeasure, l \in {"lower", "upper", "title"}, a \in Approaches \cup NoApproach,
            al \in {"lower", "upper", "swap"}}
Requests == {r \in Spelled : HasSep(r.word) \/ r.sep = "_"} \cup Approached \cup Short1 \cup Classes

VARIABLES req, ans
vars == <<req, ans>>
None == [verdict |-> "none", kind |-> "", ap |-> ""]
Init == req \in Requests /\ ans = None
Resolve == /\ ans = None /\ ans' = Answer(req) /\ UNCHANGED req
           /\ PrintT(ToJson([req |-> req, ans |-> Answer(req)]))
Spec == Init /\ [][Resolve]_vars

Done == ans # None
\* the answer does not depend on the spelling
\* (the spelling is not an argument of Answer; checked by construction for every request)
SpellingFree == Done => \A l \in Letters, s \in Seps : Answer([req EXCEPT !.letters = l, !.sep = s]) = ans
\* long and short names of a measure are the same, and so are the aliases of an approach
Same(w) == {v \in DOMAIN Names : Names[v] = Names[w]}
NamesAgree == (Done /\ req.word \in DOMAIN Names) => \A v \in Same(req.word) : Answer([req EXCEPT !.word = v]) = ans
AliasesAgree == (Done /\ ans.verdict = "taken") =>
    \A a \in Approaches : (Canon(a) = ans.ap /\ Answer([req EXCEPT !.ap = a]).verdict = "taken")
                          => Answer([req EXCEPT !.ap = a]) = ans
\* a condition turns a measure into its conditional form, and only there a condition is taken
Conditional == (Done /\ ans.verdict = "taken" /\ req.style # "class") => (req.cond <=> ans.kind \in {"cmi", "cte"})
\* shortcuts and factory agree wherever both take the request
StylesAgree == (Done /\ req.style = "shortcut" /\ req.word \in DOMAIN Names) =>
    LET f == Answer([req EXCEPT !.style = "factory"])
    IN  (ans.verdict = "taken" => f = ans) /\ (ans # f => (req.nv = 1 /\ Names[req.word] \in {"mi", "cmi"}))
OneSeries == (Done /\ req.style = "factory" /\ req.nv = 1 /\ ans.verdict = "taken") => ans.kind = "h"
Unknown == (Done /\ req.ap \in NoApproach) => ans.verdict # "taken"
\* every canonical approach exists for every measure
Complete == (Done /\ req.style = "class" /\ req.word \in DOMAIN Names /\ Names[req.word] # "hx" /\ req.ap \in Canonical)
            => ans.verdict = "taken"
=============================================================================
