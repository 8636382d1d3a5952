------------------------------ MODULE Measures ------------------------------
(***************************************************************************)
(* The measures, for every approach, as answers to a request (a "case").   *)
(* A case is a record                                                      *)
(*   kind : "h" "hx" "mi" "cmi" "te" "cte" "jsd" "kld"                     *)
(*   par  : approach settings (par.ap is the approach)                     *)
(*   vars : sequence of variables (each a sequence of integer rows)        *)
(*   cond : condition (cmi, cte); off : offset (mi)                        *)
(*   lx, ly, lz, step, prop : window settings (te, cte)                    *)
(* Answer(case) is [g |-> term, l |-> sequence of terms or <<>>,           *)
(*                  has |-> BOOLEAN (are local values defined?)].          *)
(***************************************************************************)
EXTENDS DiscreteEntropy, Ordinal, Kernel

DiscreteAps == {"discrete", "miller_madow", "mm", "grassberger", "bonachela", "chao_shen", "cs",
                "chao_wang_jost", "cwj", "zhang", "shrink", "js", "bayes", "ansb", "nsb"}
OrdinalAps == {"ordinal", "symbolic", "permutation"}
LpsAps     == {"renyi", "tsallis"}
KlAps      == {"metric", "kl"}         \* entropy
KsgAps     == {"metric", "ksg"}        \* informations

Ans(g, l) == [g |-> g, has |-> TRUE, l |-> l]
NoLoc(g)  == [g |-> g, has |-> FALSE, l |-> <<>>]
MeanAns(l) == LET t == TLCEval(l) IN Ans(MeanT(t), t)

\* ---- entropies ------------------------------------------------------------------
OrdVar(par, v) == Patterns(Series(v), par.d, par.st)
OrdVars(par, vs) == TLCEval([i \in 1..Len(vs) |-> OrdVar(par, vs[i])])
PlugPar == [ap |-> "discrete", K |-> 0]

EntropyAns(par, vars) ==
    IF par.ap \in DiscreteAps THEN
        LET s == Join(vars)
        IN  IF HasLocal(par.ap) THEN Ans(EntropyTerm(par, s), LocalTerms(par, s))
            ELSE NoLoc(EntropyTerm(par, s))
    ELSE IF par.ap \in OrdinalAps THEN
        LET s == Join(OrdVars(par, vars))
        IN  Ans(EntropyTerm(PlugPar, s), LocalTerms(PlugPar, s))
    ELSE IF par.ap \in KlAps THEN MeanAns(KLLocals(par, Join(vars)))
    ELSE IF par.ap \in LpsAps THEN NoLoc(LpsEntropy(par, Join(vars)))
    ELSE MeanAns(KernelHLocals(par, Join(vars)))

\* ---- cross-entropy H_Q(P) ----------------------------------------------------------
\* over the outcomes both samples share; nothing shared: 0
CrossCommon(p, s, wp(_), wq(_)) ==
    Sum(MapSeq(LAMBDA v : Neg(Mul(wp(CountOf(p, v)), Ln(wq(CountOf(s, v))))),
               SetToSeq(Support(p) \cap Support(s))))
CrossPlug(p, s) ==
    CrossCommon(p, s, LAMBDA k : Q(k, Len(p)), LAMBDA k : Q(k, Len(s)))
CrossMM(par, p, s) ==
    LET kp == Cardinality(Support(p))  kq == Cardinality(Support(s))
    IN  IF Support(p) \cap Support(s) = {} THEN Zero
        ELSE Add(CrossPlug(p, s), Q(kp + kq - 2, 2 * RepOf(par) * (Len(p) + Len(s))))
CrossBayes(par, p, s) ==
    CrossCommon(p, s, LAMBDA k : BayesP(par, SampleCounts(par, p), RepOf(par) * k),
                      LAMBDA k : BayesP(par, SampleCounts(par, s), RepOf(par) * k))
CrossTerm(par, P, S) ==
    LET a == Canon(par.ap)
    IN  CASE a = "discrete" -> CrossPlug(P, S)
          [] a = "mm" -> CrossMM(par, P, S)
          [] a = "bayes" -> CrossBayes(par, P, S)
          [] a \in OrdinalAps -> CrossPlug(OrdVar(par, P), OrdVar(par, S))
          [] a \in KlAps -> KLCross(par, P, S)
          [] a \in LpsAps -> LpsCross(par, P, S)
          [] OTHER -> KernelCross(par, P, S)

\* ---- combinations of entropies -------------------------------------------------------
\* spaces: sequence of <<sign, table>>
Comb(par, sp) ==
    LET as == TLCEval([j \in 1..Len(sp) |-> EntropyAns(par, <<sp[j][2]>>)])
        sg(j, t) == IF sp[j][1] = 1 THEN t ELSE Neg(t)
        glob == Sum([j \in 1..Len(sp) |-> sg(j, as[j].g)])
    IN  IF as[1].has
        THEN LET loc == [i \in 1..Len(sp[1][2]) |-> Sum([j \in 1..Len(sp) |-> sg(j, as[j].l[i])])]
             IN  Ans(IF par.mloc THEN MeanT(loc) ELSE glob, loc)
        ELSE NoLoc(glob)

MIAns(par, vars) ==
    IF par.ap \in DiscreteAps \cup LpsAps
        THEN Comb(par, [i \in 1..Len(vars) |-> <<1, vars[i]>>] \o <<<<-1, Join(vars)>>>>)
    ELSE IF par.ap \in KsgAps THEN MeanAns(KsgMILocals(par, vars))
    ELSE MeanAns(KernelMILocals(par, vars))
CMIAns(par, vars, z) ==
    LET parts == TLCEval([i \in 1..Len(vars) |-> Join(<<vars[i], z>>)])
        joint == Join(vars \o <<z>>)
    IN  IF par.ap \in DiscreteAps \cup LpsAps
        THEN Comb(par, [i \in 1..Len(vars) |-> <<1, parts[i]>>] \o <<<<-1, joint>>, <<-1, z>>>>)
        ELSE IF par.ap \in KsgAps THEN MeanAns(KsgCMILocals(par, joint, parts, z))
        ELSE MeanAns(KernelCMILocals(par, joint, parts, z))

\* ordinal measures are the plug-in measures of the pattern series
PlugC(par) == [par EXCEPT !.ap = "discrete"]
Disc(par) == IF par.ap \in OrdinalAps THEN PlugC(par) ELSE par
AsSeen(c, v) == IF c.par.ap \in OrdinalAps THEN OrdVar(c.par, v) ELSE v

\* offset pairing; cond (if any) is aligned with the pairs
Paired(c) ==
    IF c.kind # "mi" THEN c.vars ELSE
    IF c.off = 0 THEN c.vars
    ELSE <<OffsetX(c.vars[1], c.off), OffsetY(c.vars[2], c.off)>>

WindowsOf(c) ==
    \* ordinal: the propagation shift acts on the series, then patterns, then windows
    IF c.kind = "te"
    THEN IF c.par.ap \in OrdinalAps
         THEN TEWindows(AsSeen(c, TLCEval(PropSrc(c.vars[1], c.prop, c.step))),
                        AsSeen(c, TLCEval(PropDst(c.vars[2], c.prop, c.step))), c.lx, c.ly, c.step, 0)
         ELSE TEWindows(c.vars[1], c.vars[2], c.lx, c.ly, c.step, c.prop)
    ELSE CTEWindows(AsSeen(c, c.vars[1]), AsSeen(c, c.vars[2]), AsSeen(c, c.cond),
                    c.lx, c.ly, c.lz, c.step)
\* the past the information is conditioned on
Past(c, w) == IF c.kind = "te" THEN w.dst ELSE Join(<<w.dst, w.cnd>>)

\* ---- normalisation of one-dimensional data to [0, 1] ------------------------------------
\* x' = (x - min)/(max - min); all variables are brought to the common denominator
\* prod of the ranges, which becomes the scale
MinSeq(s) == -MaxSeq(MapSeq(LAMBDA x : -x, s))
\* (a constant series has no normalised form)
Range1(v) == LET d == MaxSeq(Series(v)) - MinSeq(Series(v))
             IN  IF d = 0 THEN Assert(FALSE, "normalisation of a constant series") ELSE d
RECURSIVE ProdSeq(_)
ProdSeq(s) == IF s = <<>> THEN 1 ELSE s[1] * ProdSeq(Tail(s))
NormAll(vs) ==
    LET R == TLCEval([i \in 1..Len(vs) |-> Range1(vs[i])])
        P == ProdSeq(R)
    IN  TLCEval([i \in 1..Len(vs) |->
           LET lo == TLCEval(MinSeq(Series(vs[i])))
           IN  [t \in 1..Len(vs[i]) |-> <<(vs[i][t][1] - lo) * (P \div R[i])>>]])
NormScale(vs) == <<1, ProdSeq([i \in 1..Len(vs) |-> Range1(vs[i])])>>
Normed(c) ==
    IF c.kind = "mi"
    THEN LET v == TLCEval(Paired(c))
         IN  [c EXCEPT !.vars = NormAll(v), !.off = 0, !.par.sc = NormScale(v), !.par.norm = FALSE]
    ELSE LET v == TLCEval(NormAll(c.vars \o <<c.cond>>))
         IN  [c EXCEPT !.vars = SubSeq(v, 1, Len(c.vars)), !.cond = v[Len(v)],
                       !.par.sc = NormScale(c.vars \o <<c.cond>>), !.par.norm = FALSE]
IsNormed(c) == "norm" \in DOMAIN c.par /\ c.par.norm

AnswerRaw(c) ==
    CASE c.kind = "h"   -> EntropyAns(c.par, c.vars)
      [] c.kind = "hx"  -> NoLoc(CrossTerm(c.par, c.vars[1], c.vars[2]))
      [] c.kind = "kld" -> NoLoc(Sub(CrossTerm(c.par, c.vars[1], c.vars[2]),
                                     EntropyAns(c.par, <<c.vars[1]>>).g))
      [] c.kind = "mi"  -> LET v == TLCEval(Paired(c))
                           IN  MIAns(Disc(c.par), TLCEval([i \in 1..Len(v) |-> AsSeen(c, v[i])]))
      [] c.kind = "cmi" -> CMIAns(Disc(c.par), TLCEval([i \in 1..Len(c.vars) |-> AsSeen(c, c.vars[i])]),
                                  TLCEval(AsSeen(c, c.cond)))
      [] c.kind \in {"te", "cte"} ->
            LET w == TLCEval(WindowsOf(c)) IN CMIAns(Disc(c.par), <<w.fut, w.src>>, TLCEval(Past(c, w)))

Answer(c) == IF IsNormed(c) THEN AnswerRaw(TLCEval(Normed(c))) ELSE AnswerRaw(c)

\* ---- Jensen-Shannon divergence ---------------------------------------------------------
\* mixture of the estimated distributions (as weights on the outcomes), minus mean entropy
JsdSamples(c) == IF c.par.ap \in OrdinalAps THEN OrdVars(c.par, c.vars) ELSE c.vars
EstP(par, s, v) ==
    LET k == CountOf(s, v)
    IN  IF k = 0 THEN Zero
        ELSE CASE Canon(par.ap) = "bayes"  -> BayesP(par, SampleCounts(par, s), RepOf(par) * k)
               [] Canon(par.ap) = "shrink" -> ShrinkP(SampleCounts(par, s), RepOf(par) * k)
               [] OTHER -> Q(k, Len(s))
RECURSIVE ConcatAll(_)
ConcatAll(vs) == IF vs = <<>> THEN <<>> ELSE vs[1] \o ConcatAll(Tail(vs))
JsdTerm(c) ==
    LET S  == TLCEval(JsdSamples(c))
        m  == Len(S)
        pr == IF c.par.ap \in OrdinalAps THEN PlugPar ELSE c.par
        mean == Div(Sum([i \in 1..m |-> EntropyAns(pr, <<S[i]>>).g]), I(m))
        sup == TLCEval(SetToSeq(UNION {Support(S[i]) : i \in 1..m}))
        mix(v) == Div(Sum([i \in 1..m |-> EstP(pr, S[i], v)]), I(m))
    IN  IF c.par.ap = "kernel" THEN Sub(EntropyAns(c.par, <<ConcatAll(S)>>).g, mean)
        ELSE Sub(Neg(Sum([j \in 1..Len(sup) |-> Mul(mix(sup[j]), Ln(mix(sup[j])))])), mean)
AnswerAny(c) == IF c.kind = "jsd" THEN NoLoc(JsdTerm(c)) ELSE Answer(c)

\* ---- units -------------------------------------------------------------------------------
\* estimates without a logarithmic unit
Unitless(par) == par.ap = "tsallis" /\ par.q[1] # par.q[2]
\* c.base = <<bn, bd>> (a rational base above one); absent for natural units
InBase(c, t) == IF "base" \notin DOMAIN c \/ Unitless(c.par) THEN t
                ELSE Div(t, LnQ(c.base[1], c.base[2]))
\* a request whose exact answer floating point cannot be expected to reach
RECURSIVE Fragile(_)
Fragile(c) ==
    IF IsNormed(c) THEN Fragile(TLCEval(Normed(c))) ELSE
    IF c.par.ap \in LpsAps THEN LpsOpen(c.par) ELSE
    /\ c.par.ap \in {"metric", "kl", "ksg"}
    /\ CASE c.kind = "mi"  -> LET v == Paired(c) IN KsgTie(c.par, v, Join(v))
         [] c.kind = "cmi" -> KsgTie(c.par, [i \in 1..Len(c.vars) |-> Join(<<c.vars[i], c.cond>>)]
                                            \o <<c.cond>>, Join(c.vars \o <<c.cond>>))
         [] c.kind \in {"te", "cte"} ->
              LET w == WindowsOf(c)  z == Past(c, w)
              IN  KsgTie(c.par, <<Join(<<w.fut, z>>), Join(<<w.src, z>>), z>>,
                         Join(<<w.fut, w.src, z>>))
         [] OTHER -> FALSE
FullAnswer(c) ==
    LET a == AnswerAny(c)
    IN  [g |-> InBase(c, a.g), has |-> a.has, l |-> [i \in 1..Len(a.l) |-> InBase(c, a.l[i])],
         frag |-> Fragile(c)]
=============================================================================
