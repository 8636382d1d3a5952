------------------------------- MODULE MC_C05 -------------------------------
(* Every pair and triple of small samples: Jensen-Shannon divergence of the  *)
(* frequency-based approaches; samples may have different lengths.           *)
EXTENDS Measures, LogForm, Json, IOUtils

Deep == IOEnv.VERIF_TIER = "thorough"
Plug == [ap |-> "discrete", K |-> 0]
Pars == {Plug, [ap |-> "shrink", K |-> 0], [ap |-> "js", K |-> 0]}
        \cup {[ap |-> "bayes", K |-> k, alpha |-> a] : k \in {0, 4},
                a \in {<<"num", 1, 2>>, <<"laplace">>, <<"sch-grass">>, <<"min-max">>}}
NoJsd == {"miller_madow", "mm", "ansb", "bonachela", "chao_shen", "cs", "chao_wang_jost", "cwj", "grassberger",
          "nsb", "zhang", "metric", "kl", "renyi", "tsallis"}
VARIABLES ss, par, phase
vars == <<ss, par, phase>>
Sorted(n, k) == {f \in [1..n -> 0..k] : \A i \in 1..n-1 : f[i] <= f[i + 1]}
S(n, k) == {Col(f) : f \in UNION {Sorted(i, k) : i \in 1..n}}
Init ==
    /\ phase = "asked"
    /\ \/ /\ par \in Pars
          /\ \/ \E a \in S(4, 2), b \in S(3, 2) : ss = <<a, b>>
             \/ /\ IF Deep \/ par.ap # "bayes" THEN par.ap # "js" ELSE par.K = 0 /\ par.alpha = <<"laplace">>
                /\ \/ \E a \in S(3, 2), b, c \in S(IF Deep THEN 3 ELSE 2, 2) : ss = <<a, b, c>>
                   \/ \E a, b, c, d \in S(2, 1) : ss = <<a, b, c, d>>
       \/ /\ par \in {[ap |-> a, K |-> 0] : a \in NoJsd}
          /\ ss \in {<<Col(<<0, 1, 1>>), Col(<<0, 1, 2>>)>>, <<Col(<<0, 1>>), Col(<<0, 0, 1>>), Col(<<1, 2>>)>>}
Case == [kind |-> "jsd", par |-> par, vars |-> ss]
Refused == par.ap \in NoJsd
Respond == /\ phase = "asked" /\ phase' = "answered" /\ UNCHANGED <<ss, par>>
           /\ PrintT(ToJson([case |-> Case, refused |-> Refused,
                             ans |-> IF Refused THEN NoLoc(NaN) ELSE AnswerAny(Case)]))
Spec == Init /\ [][Respond]_vars

\* all samples repeated to the common length 12: mixture = pooled sample
RECURSIVE Times(_, _)
Times(s, k) == IF k = 0 THEN <<>> ELSE s \o Times(s, k - 1)
Rep(t) == [i \in 1..Len(t) |-> Times(t[i], 12 \div Len(t[i]))]
Form(t) == LET r == TLCEval(Rep(t))
           IN  FSub(FH(ConcatAll(r)), FSumSeq([i \in 1..Len(r) |-> FH(r[i])]))
\* exact signs need small exponents: pairs of equally long samples
Small == par = Plug /\ Len(ss) = 2 /\ Len(ss[1]) = Len(ss[Len(ss)])
Form2 == FSub(FH(ConcatAll(ss)), FSumSeq([i \in 1..2 |-> FH(ss[i])]))
NonNegative == Small => FNonNeg(Form2)
AtMostLog == Small => FNonNeg(FSub(FLn(2 * Len(ss[1]), 2), Form2))
Symmetric == par = Plug => Form(ss) = Form(Reverse(ss)) /\ Form(ss) = Form(Tail(ss) \o <<Head(ss)>>)
SameDistribution == \A i \in 2..Len(ss) : \A v \in Support(ss[1]) \cup Support(ss[i]) :
    CountOf(ss[1], v) * Len(ss[i]) = CountOf(ss[i], v) * Len(ss[1])
ZeroIffAllAgree == par = Plug => ((Form(ss) = FZero) <=> SameDistribution)
=============================================================================
