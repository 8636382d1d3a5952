------------------------------- MODULE MC_C04 -------------------------------
(* Every ordered pair of small samples: cross-entropy and Kullback-Leibler   *)
(* divergence of the frequency-based approaches, and the approaches for      *)
(* which no cross-entropy is defined.                                        *)
EXTENDS Measures, LogForm, Json, IOUtils

Deep == IOEnv.VERIF_TIER = "thorough"
Plug == [ap |-> "discrete", K |-> 0]
Pars == {Plug, [ap |-> "mm", K |-> 0], [ap |-> "miller_madow", K |-> 0]}
        \cup {[ap |-> "bayes", K |-> k, alpha |-> a] : k \in {0, 3},
                a \in {<<"num", 1, 2>>, <<"laplace">>, <<"jeffrey">>, <<"min-max">>}}
NoCross == {"ansb", "bonachela", "chao_shen", "cs", "chao_wang_jost", "cwj", "grassberger", "nsb",
            "shrink", "js", "zhang"}
VARIABLES p, s, kind, par, phase
vars == <<p, s, kind, par, phase>>
\* samples as sorted sequences (order is irrelevant, C03; the harness shuffles them)
Sorted(n, k) == {f \in [1..n -> 0..k] : \A i \in 1..n-1 : f[i] <= f[i + 1]}
Init ==
    /\ phase = "asked" /\ kind \in {"hx", "kld"}
    /\ par \in Pars \cup {[ap |-> a, K |-> 0] : a \in NoCross}
    /\ \E n \in 1..(IF Deep THEN 5 ELSE 4), m \in 1..(IF Deep THEN 4 ELSE 3) :
          \E f \in Sorted(n, 2), g \in Sorted(m, 2) :
             /\ p = Col(f) /\ s = Col(g)
             /\ par.ap \in NoCross => n + m <= 4
Case == [kind |-> kind, par |-> par, vars |-> <<p, s>>]
Refused == par.ap \in NoCross
Respond == /\ phase = "asked" /\ phase' = "answered" /\ UNCHANGED <<p, s, kind, par>>
           /\ PrintT(ToJson([case |-> Case, refused |-> Refused,
                             ans |-> IF Refused THEN NoLoc(NaN) ELSE Answer(Case)]))
Spec == Init /\ [][Respond]_vars

\* Len(p) * H_s(p) as a log form (plug-in)
Common == Support(p) \cap Support(s)
CForm(a, b) == FSumSeq(MapSeq(LAMBDA v : FAdd(FLn(CountOf(a, v), Len(b)), FLn(-CountOf(a, v), CountOf(b, v))),
                              SetToSeq(Support(a) \cap Support(b))))
SelfCross == CForm(p, p) = FH(p)
Gibbs == Support(p) \subseteq Support(s) => FNonNeg(FSub(CForm(p, s), FH(p)))
Proportional == \A v \in Support(p) \cup Support(s) : CountOf(p, v) * Len(s) = CountOf(s, v) * Len(p)
ZeroIffSame == Support(p) \subseteq Support(s) => ((CForm(p, s) = FH(p)) <=> Proportional)
NothingShared == Common = {} => CForm(p, s) = FZero
=============================================================================
