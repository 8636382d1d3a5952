------------------------------- MODULE MC_C10 -------------------------------
(* Transfer entropy of small series for every discrete approach: the same    *)
(* windows, the approach's own entropies.                                    *)
EXTENDS Measures, LogForm, Json, IOUtils

Deep == IOEnv.VERIF_TIER = "thorough"
Ns == IF Deep THEN 3..6 ELSE 4..5

Pars == {[ap |-> a, K |-> 0, mloc |-> a = "shrink"] : a \in {"miller_madow", "grassberger", "bonachela",
             "chao_shen", "chao_wang_jost", "zhang", "shrink", "ansb"}}
        \cup {[ap |-> "bayes", K |-> 0, mloc |-> FALSE, alpha |-> <<"num", 1, 2>>],
              [ap |-> "bayes", K |-> 6, mloc |-> FALSE, alpha |-> <<"laplace">>]}
VARIABLES vs, par, lx, ly, step, phase
vars == <<vs, par, lx, ly, step, phase>>
\* up to renaming of symbols, and ending as varied as possible
Bin(n) == {f \in [1..n -> 0..1] : f[1] = 0 /\ f[2] = 1}
Init ==
    /\ phase = "asked"
    /\ par \in Pars
    /\ \E n \in Ns : \E f, g \in Bin(n) : vs = <<Col(f), Col(g)>>
    /\ lx \in 1..2 /\ ly \in 1..2 /\ step \in 1..2
    /\ MaxI(lx, ly) * step < Len(vs[1])
Case == [kind |-> "te", par |-> par, vars |-> vs, lx |-> lx, ly |-> ly, step |-> step, prop |-> 0]
Respond == /\ phase = "asked" /\ phase' = "answered" /\ UNCHANGED <<vs, par, lx, ly, step>>
           /\ PrintT(ToJson([case |-> Case, ans |-> Answer(Case)]))
Spec == Init /\ [][Respond]_vars
W == WindowsOf(Case)
\* four tables of equal length, whose parts agree
TablesAligned == Len(W.src) = Len(W.dst) /\ Len(W.fut) = Len(W.dst)
=============================================================================
