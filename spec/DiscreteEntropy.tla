-------------------------- MODULE DiscreteEntropy --------------------------
(***************************************************************************)
(* The discrete entropy estimators, as documented, on a count vector.      *)
(* par is a record with the estimator's own settings:                      *)
(*    ap : approach name                                                   *)
(*    K  : support size given by the caller, 0 when not given              *)
(*    alpha : Bayes prior: <<"jeffrey">>, <<"laplace">>, <<"sch-grass">>,  *)
(*            <<"min-max">> or <<"num", a, b>>                             *)
(* All values are in nats.                                                 *)
(***************************************************************************)
EXTENDS Samples

NPos(c) == SumSeq(c)
F(c, r) == Cardinality({j \in 1..Len(c) : c[j] = r})   \* number of categories seen r times
SupportSize(par, c) == IF par.K = 0 THEN Len(c) ELSE par.K

\* ---- plug-in (maximum likelihood) -------------------------------------------
PlugIn(c) ==
    LET n == NPos(c) IN Sum(MapSeq(LAMBDA k : Mul(Q(k, n), LnQ(n, k)), c))

\* ---- Miller-Madow: + (K-1)/(2N) ----------------------------------------------
MMCorr(c) == Q(Len(c) - 1, 2 * NPos(c))
MillerMadow(c) == Add(PlugIn(c), MMCorr(c))

\* ---- Grassberger: ln N - psi(n) - (-1)^n/(n+1), averaged over observations --
GrassLocal(n, k) == Sum(<<LnI(n), Neg(Psi(k)), Q(IF k % 2 = 0 THEN -1 ELSE 1, k + 1)>>)
Grassberger(c) ==
    LET n == NPos(c) IN Sum(MapSeq(LAMBDA k : Mul(Q(k, n), GrassLocal(n, k)), c))

\* ---- Bonachela: 1/(N+2) sum_i (n_i+1) sum_{j=n_i+2}^{N+2} 1/j -----------------
Bonachela(c) ==
    LET n == NPos(c)
    IN  Div(Sum(MapSeq(LAMBDA k : Mul(I(k + 1),
                 SumOver("j", I(k + 2), I(n + 2), Div(One, Var("j")))), c)), I(n + 2))

\* ---- Chao-Shen: coverage-adjusted Horvitz-Thompson ----------------------------
ChaoShen(c) ==
    LET n  == NPos(c)
        f1 == IF F(c, 1) = n THEN n - 1 ELSE F(c, 1)
        \* C p_k = (1 - f1/n) k/n
        Pa(k) == Mul(Q(n - f1, n), Q(k, n))
    IN  Neg(Sum(MapSeq(LAMBDA k :
              Div(Mul(Pa(k), Ln(Pa(k))), Sub(One, Pow(Sub(One, Pa(k)), I(n)))), c)))

\* ---- Chao-Wang-Jost ------------------------------------------------------------
ChaoWangJost(c) ==
    LET n  == NPos(c)
        f1 == F(c, 1)
        f2 == F(c, 2)
        \* A as an exact rational num/den
        num == IF f2 > 0 THEN 2 * f2 ELSE IF f1 > 0 THEN 2 ELSE 1
        den == IF f2 > 0 THEN (n - 1) * f1 + 2 * f2
               ELSE IF f1 > 0 THEN (n - 1) * (f1 - 1) + 2 ELSE 1
        A    == Q(num, den)
        B    == Q(den - num, den)           \* 1 - A
        base == Div(Sum(MapSeq(LAMBDA k : Mul(I(k), Sub(Psi(n), Psi(k))), c)), I(n))
        corr == Prod(<<Q(f1, n), Pow(B, I(1 - n)),
                   Sub(Neg(Ln(A)), SumOver("r", One, I(n - 1),
                         Div(Pow(B, Var("r")), Var("r"))))>>)
    IN  IF f1 > 0 /\ num # den THEN Add(base, corr) ELSE base

\* ---- Zhang: sum_i p_i sum_{v=1}^{N-n_i} 1/v prod_{j=0}^{v-1} (1 + (1-n_i)/(N-1-j))
ZhangLocal(n, k) ==
    SumOver("v", One, I(n - k),
        Div(ProdOver("j", Zero, Sub(Var("v"), One),
                Add(One, Div(I(1 - k), Sub(I(n - 1), Var("j"))))), Var("v")))
Zhang(c) == LET n == NPos(c) IN Sum(MapSeq(LAMBDA k : Mul(Q(k, n), ZhangLocal(n, k)), c))

\* ---- James-Stein shrinkage towards 1/K ------------------------------------------
\* lambda = sum p(1-p)/(N-1) / sum (1/K - p)^2, clipped to [0,1]; 1 when undefined.
\* num/den over the common denominators: p = k/n.
ShrinkLambda(c) ==
    LET n == NPos(c)
        K == Len(c)
        \* numerator * n^2 (n-1) and denominator * n^2 K^2
        v == Sum(MapSeq(LAMBDA k : Mul(I(k), I(n - k)), c))
        m == Sum(MapSeq(LAMBDA k : Mul(I(n - K * k), I(n - K * k)), c))
    IN  IF n = 1 \/ (\A j \in 1..K : n = K * c[j]) THEN One
        ELSE Min2(One, Div(Prod(<<v, I(K), I(K)>>), Mul(m, I(n - 1))))
ShrinkP(c, k) ==
    LET L == ShrinkLambda(c)
    IN  Add(Mul(L, Q(1, Len(c))), Mul(Sub(One, L), Q(k, NPos(c))))
Shrink(c) == Neg(Sum(MapSeq(LAMBDA k : Mul(ShrinkP(c, k), Ln(ShrinkP(c, k))), c)))

\* ---- Bayes / Dirichlet: (n_k + alpha)/(N + K alpha) ------------------------------
Alpha(par, c) ==
    LET a == par.alpha  K == SupportSize(par, c)
    IN  CASE a[1] = "jeffrey"   -> Q(1, 2)
          [] a[1] = "laplace"   -> One
          [] a[1] = "sch-grass" -> Q(1, K)
          [] a[1] = "min-max"   -> Div(Sqrt(I(NPos(c))), I(K))
          [] a[1] = "num"       -> Q(a[2], a[3])
BayesP(par, c, k) ==
    LET a == Alpha(par, c)  K == SupportSize(par, c)
    IN  Div(Add(I(k), a), Add(I(NPos(c)), Mul(I(K), a)))
Bayes(par, c) == Neg(Sum(MapSeq(LAMBDA k : Mul(BayesP(par, c, k), Ln(BayesP(par, c, k))), c)))

\* ---- ANSB: gamma - ln 2 + 2 ln N - psi(N - K), undefined without coincidences ---
Ansb(par, c) ==
    LET n == NPos(c)  D == n - SupportSize(par, c)
    IN  IF D = 0 THEN NaN
        ELSE Sum(<<EulerGamma, Neg(LnI(2)), Mul(I(2), LnI(n)), Neg(Psi(D))>>)

\* ---- NSB --------------------------------------------------------------------------
\* Posterior mean entropy at concentration beta (documented <H>_beta):
NsbMean(c, K, b) ==
    LET n == NPos(c)
        tot == Add(I(n), Mul(I(K), b))
    IN  Sub(PsiT(Add(tot, One)),
            Sum(MapSeq(LAMBDA k : Mul(Div(Add(I(k), b), tot),
                                     PsiT(Sum(<<I(k), b, One>>))), c)))
\* ln of the likelihood factor; w(k) is the weight of category with count k
NsbLogRho(c, K, b, w(_)) ==
    LET n == NPos(c)
    IN  Add(Sub(LnGamma(Mul(I(K), b)), LnGamma(Add(I(n), Mul(I(K), b)))),
            Sum(MapSeq(LAMBDA k : Mul(I(w(k)),
                  Sub(LnGamma(Add(I(k), b)), LnGamma(b))), c)))
NsbPrior(K, b) == Sub(Mul(I(K), Psi1(Add(One, Mul(I(K), b)))), Psi1(Add(One, b)))
\* Deviation as implemented (see DESIGN.md, known finding F-NSB): every category's
\* likelihood factor is raised to the power n_k, and beta runs over (0, ln K).
\* ref is a constant that cancels in the ratio; it keeps exp in range.
NsbImplemented(par, c) ==
    LET n == NPos(c)  K == SupportSize(par, c)
        b == Var("b")
        ref == NsbLogRho(c, K, Q(1, 2), LAMBDA k : k)
        rho == Mul(Exp(Sub(NsbLogRho(c, K, b, LAMBDA k : k), ref)), NsbPrior(K, b))
        \* the code's <H>_beta uses the observed categories only
        mean == NsbMean(c, Len(c), b)
    IN  IF n = K THEN NaN
        ELSE Div(Integral("b", Zero, LnI(K), Mul(rho, mean)), Integral("b", Zero, LnI(K), rho))

\* As documented: beta is a function of xi = psi(K beta + 1) - psi(beta + 1) on (0, ln K), i.e.
\* beta runs over (0, infinity); each category's factor appears once; <H>_beta sums over all
\* K categories.
NsbMeanAll(c, K, b) ==
    LET n == NPos(c)  tot == Add(I(n), Mul(I(K), b))
    IN  Sub(NsbMean(c, K, b), Prod(<<I(K - Len(c)), Div(b, tot), PsiT(Add(b, One))>>))
NsbDocumented(par, c) ==
    LET n == NPos(c)  K == SupportSize(par, c)
        b == Var("b")
        ref == NsbLogRho(c, K, One, LAMBDA k : 1)
        rho == Mul(Exp(Sub(NsbLogRho(c, K, b, LAMBDA k : 1), ref)), NsbPrior(K, b))
    IN  IF n = K THEN NaN
        ELSE Div(Integral("b", Zero, Inf, Mul(rho, NsbMeanAll(c, K, b))),
                 Integral("b", Zero, Inf, rho))

\* ---- dispatch ------------------------------------------------------------------------
Canon(ap) == CASE ap \in {"discrete"} -> "discrete"
              [] ap \in {"miller_madow", "mm"} -> "mm"
              [] ap \in {"chao_shen", "cs"} -> "chao_shen"
              [] ap \in {"chao_wang_jost", "cwj"} -> "cwj"
              [] ap \in {"shrink", "js"} -> "shrink"
              [] OTHER -> ap
EntropyOfCounts(par, c) ==
    LET a == Canon(par.ap)
    IN  CASE a = "discrete"    -> PlugIn(c)
          [] a = "mm"          -> MillerMadow(c)
          [] a = "grassberger" -> Grassberger(c)
          [] a = "bonachela"   -> Bonachela(c)
          [] a = "chao_shen"   -> ChaoShen(c)
          [] a = "cwj"         -> ChaoWangJost(c)
          [] a = "zhang"       -> Zhang(c)
          [] a = "shrink"      -> Shrink(c)
          [] a = "bayes"       -> Bayes(par, c)
          [] a = "ansb"        -> Ansb(par, c)
          [] a = "nsb"         -> IF "doc" \in DOMAIN par THEN NsbDocumented(par, c)
                                  ELSE NsbImplemented(par, c)

LocalKinds == {"discrete", "mm", "grassberger", "zhang", "shrink"}
HasLocal(ap) == Canon(ap) \in LocalKinds
\* local value of an observation whose outcome was seen k times
LocalOf(par, c, k) ==
    LET a == Canon(par.ap)  n == NPos(c)
    IN  CASE a = "discrete"    -> LnQ(n, k)
          [] a = "mm"          -> Add(LnQ(n, k), MMCorr(c))
          [] a = "grassberger" -> GrassLocal(n, k)
          [] a = "zhang"       -> ZhangLocal(n, k)
          [] a = "shrink"      -> Neg(Ln(ShrinkP(c, k)))

\* A request may say that its sample stands for a longer one (in any order):
\*   par.rep : the whole sample repeated that many times;
\*   par.w   : observation i repeated par.w[i] times (one sample or variables
\*             observed together).
\* Every count is then a sum of multiplicities, and each observation stands for that
\* many equal ones.
RepOf(par) == IF "rep" \in DOMAIN par THEN par.rep ELSE 1
Weighted(par) == "w" \in DOMAIN par
RECURSIVE WSum(_, _, _, _)
WSum(w, s, v, i) == IF i = 0 THEN 0 ELSE WSum(w, s, v, i - 1) + (IF s[i] = v THEN w[i] ELSE 0)
MultOf(par, s, v) == IF Weighted(par) THEN WSum(par.w, s, v, Len(s)) ELSE RepOf(par) * CountOf(s, v)
SampleCounts(par, s) ==
    LET u == TLCEval(SetToSeq(Support(s))) IN TLCEval([j \in 1..Len(u) |-> MultOf(par, s, u[j])])
EntropyTerm(par, s) == EntropyOfCounts(par, SampleCounts(par, s))
LocalTerms(par, s) ==
    LET c == SampleCounts(par, s)
        m == TLCEval([v \in Support(s) |-> MultOf(par, s, v)])
    IN  [i \in 1..Len(s) |-> LocalOf(par, c, m[s[i]])]
=============================================================================
