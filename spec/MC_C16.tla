------------------------------- MODULE MC_C16 -------------------------------
(* Every measure of every approach, on fixed small data, in every base.      *)
(* The value in base b is the value in nats over ln b; estimates without a   *)
(* logarithmic unit (Tsallis of an order other than one) ignore the base;    *)
(* negative bases are refused.                                               *)
EXTENDS Measures, Json, IOUtils

Deep == IOEnv.VERIF_TIER = "thorough"
VARIABLES kind, par, base, data, phase
vars == <<kind, par, base, data, phase>>
D(a) == [ap |-> a, K |-> 0, mloc |-> (a \in {"shrink", "js"})]
B(a) == [ap |-> "bayes", K |-> 0, mloc |-> FALSE, alpha |-> a]
Disc1 == {D(a) : a \in {"discrete", "miller_madow", "grassberger", "bonachela", "chao_shen", "chao_wang_jost",
                        "zhang", "shrink", "ansb", "nsb"}} \cup {B(<<"num", 1, 2>>), B(<<"laplace">>)}
Kn == [ap |-> "metric", K |-> 0, mloc |-> FALSE, k |-> 2, p |-> 0, ksg |-> 1, sc |-> <<1, 2>>]
L(a, q) == [ap |-> a, K |-> 0, mloc |-> FALSE, k |-> 2, q |-> q, sc |-> <<1, 2>>]
Ke(k) == [ap |-> "kernel", K |-> 0, mloc |-> FALSE, ker |-> k, bw |-> <<2, 1>>, sc |-> <<1, 2>>]
Od == [ap |-> "ordinal", K |-> 0, mloc |-> FALSE, d |-> 2, st |-> 1, sc |-> <<1, 1>>, stable |-> TRUE]
Real == {Kn, [Kn EXCEPT !.ksg = 2, !.p = 2], Ke("box"), Ke("gaussian"), Od}
        \cup {L(a, q) : a \in {"renyi", "tsallis"}, q \in {<<1, 1>>, <<3, 2>>, <<1, 2>>, <<2, 1>>}}
Kinds == {"h", "hx", "kld", "jsd", "mi", "cmi", "te", "cte"}
Defined(k, p) ==
    CASE k \in {"hx", "kld"} -> p \in Real \/ Canon(p.ap) \in {"discrete", "mm", "bayes"} \/ p.ap = "miller_madow"
      [] k = "jsd" -> p.ap \in {"discrete", "bayes", "shrink", "kernel", "ordinal"}
      [] OTHER -> TRUE
Bases == {<<2, 1>>, <<10, 1>>, <<3, 2>>, <<27, 10>>, <<100, 1>>, <<17, 16>>, <<-2, 1>>, <<-3, 2>>}
\* two data sets of nine observations: source, destination, condition
DD == << <<<<0,1,1,0,2,1,0,0,1>>, <<1,0,1,1,0,2,2,0,0>>, <<0,0,1,0,1,1,0,1,1>>>>,
         <<<<0,0,1,1,2,2,0,1,3>>, <<3,0,0,1,1,2,2,0,1>>, <<1,1,0,2,0,1,2,2,0>>>> >>
DR == << <<<<3,-1,4,1,-5,9,2,6,-4>>, <<2,7,-1,8,0,-8,1,5,-3>>, <<1,-6,0,3,8,2,-2,7,4>>>>,
         <<<<0,2,5,1,8,3,-2,6,9>>, <<1,3,7,0,9,2,-4,4,10>>, <<5,-3,1,7,2,-6,0,8,-1>>>> >>
Init == /\ phase = "asked"
        /\ kind \in Kinds /\ par \in Disc1 \cup Real /\ Defined(kind, par)
        /\ base \in Bases /\ data \in 1..2
Negative == base[1] < 0
R == LET d == IF par \in Real THEN DR[data] ELSE DD[data] IN [i \in 1..3 |-> Col(d[i])]
Case == [kind |-> kind, par |-> par, base |-> base,
         vars |-> IF kind = "h" THEN <<R[1]>> ELSE <<R[1], R[2]>>]
        @@ (IF kind = "mi" THEN [off |-> 0] ELSE <<>>)
        @@ (IF kind \in {"cmi", "cte"} THEN [cond |-> R[3]] ELSE <<>>)
        @@ (IF kind = "te" THEN [lx |-> 1, ly |-> 1, step |-> 1, prop |-> 0] ELSE <<>>)
        @@ (IF kind = "cte" THEN [lx |-> 1, ly |-> 1, lz |-> 1, step |-> 1, prop |-> 0] ELSE <<>>)
Respond == /\ phase = "asked" /\ phase' = "answered" /\ UNCHANGED <<kind, par, base, data>>
           /\ PrintT(ToJson([case |-> Case, refused |-> Negative,
                             ans |-> IF Negative THEN NoLoc(NaN) ELSE FullAnswer(Case)]))
Spec == Init /\ [][Respond]_vars
\* every number of an answer is the same number in nats over the logarithm of the base
Rescaled == ~Negative /\ phase = "asked" =>
    LET a == FullAnswer(Case)
        n == FullAnswer([k \in DOMAIN Case \ {"base"} |-> Case[k]])
    IN  /\ a.has = n.has /\ Len(a.l) = Len(n.l)
        /\ IF Unitless(par) THEN a.g = n.g /\ a.l = n.l
           ELSE /\ a.g = Div(n.g, LnQ(base[1], base[2]))
                /\ \A i \in 1..Len(a.l) : a.l[i] = Div(n.l[i], LnQ(base[1], base[2]))
=============================================================================
