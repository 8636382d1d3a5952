-------------------------------- MODULE Knn --------------------------------
(***************************************************************************)
(* Nearest-neighbour quantities on integer point sets.  Points are rows of *)
(* integers; the real data are these integers times the rational           *)
(* par.sc = <<sn, sd>> times 2^par.x2 (0 when absent).  par.p is the       *)
(* Minkowski exponent, 0 for the maximum norm, -m for the exponent m/2     *)
(* (then every coordinate difference has to be a square).  Distances are   *)
(* compared exactly as integer power sums.  par.copies (1 when absent): the *)
(* sample also has that many translates of the points, so far apart in     *)
(* every coordinate that all neighbours lie within one translate.          *)
(* par.moved (all when absent): which variables, the condition last, the   *)
(* translates move; the others are then repeated as they are.              *)
(***************************************************************************)
EXTENDS Windows

PNum(p) == IF p < 0 THEN -p ELSE p
PDen(p) == IF p < 0 THEN 2 ELSE 1
RECURSIVE ISqrtFrom(_, _)
ISqrtFrom(d, r) == IF r * r = d THEN r ELSE IF r * r > d THEN Assert(FALSE, <<"not a square", d>>)
                   ELSE ISqrtFrom(d, r + 1)
DPow(d, p) == IF p < 0 THEN IPow(ISqrtFrom(d, 0), -p) ELSE IPow(d, p)
RECURSIVE PSum(_, _, _, _)
PSum(a, b, p, j) ==
    IF j = 0 THEN 0
    ELSE LET d == Abs(a[j] - b[j])
         IN  IF p = 0 THEN MaxI(d, PSum(a, b, p, j - 1)) ELSE DPow(d, p) + PSum(a, b, p, j - 1)
Dist(a, b, p) == PSum(a, b, p, Len(a))

CopiesOf(par) == IF "copies" \in DOMAIN par THEN par.copies ELSE 1
Moved(par, v) == IF "moved" \in DOMAIN par THEN par.moved[v] ELSE TRUE
MovedCond(par) == IF "moved" \in DOMAIN par THEN par.moved[Len(par.moved)] ELSE TRUE
\* how often every point of a space lies at the same place
Stack(par, moved) == IF moved THEN 1 ELSE CopiesOf(par)
\* k-th smallest element of a sequence
KthSmallest(D, k) == SortSeq(D, LAMBDA a, b : a < b)[k]
\* k-th neighbour distance (power sum) of every point among the others (the point itself comes first)
KthSelf(X, p, k) ==
    TLCEval([i \in 1..Len(X) |->
        KthSmallest(TLCEval([j \in 1..Len(X) |-> Dist(X[i], X[j], p)]), k + 1)])
\* k-th neighbour distance of every point of P among the points of S
KthIn(P, S, p, k) ==
    TLCEval([i \in 1..Len(P) |->
        KthSmallest(TLCEval([j \in 1..Len(S) |-> Dist(P[i], S[j], p)]), k)])

\* radius as a term: scale * S^(1/p)
Scale(par) == IF "x2" \in DOMAIN par THEN Mul(Q(par.sc[1], par.sc[2]), Pow(I(2), I(par.x2)))
              ELSE Q(par.sc[1], par.sc[2])
Radius(S, p, par) ==
    Mul(Scale(par), IF p = 0 \/ p = 1 THEN I(S)
                         ELSE IF p = 2 THEN Sqrt(I(S)) ELSE Pow(I(S), Q(PDen(p), PNum(p))))

\* ---- Kozachenko-Leonenko ----------------------------------------------------------
\* ln of the volume of the ball of diameter one in d dimensions under norm p
LnBallHalf(d, p) ==
    IF p = 0 THEN Zero
    ELSE LET a == PNum(p)  b == PDen(p)
         IN  Sub(Mul(I(d), LnGamma(Q(a + b, a))), LnGamma(Q(a + d * b, a)))
KLConst(par, n) == Sub(Psi(n), IF par.ksg = 2 THEN Sub(Psi(par.k), Q(1, par.k)) ELSE Psi(par.k))
KLLocal(par, n, d, S) ==
    IF S = 0 THEN Zero       \* coinciding points contribute nothing
    ELSE Sum(<<KLConst(par, n), LnBallHalf(d, par.p),
               Mul(I(d), Ln(Mul(I(2), Radius(S, par.p, par))))>>)
KLLocals(par, X) == LET ks == KthSelf(X, par.p, par.k)
                    IN  [i \in 1..Len(X) |-> KLLocal(par, Len(X) * CopiesOf(par), Len(X[1]), ks[i])]
KLEntropy(par, X) == MeanT(KLLocals(par, X))
\* cross: constant term for the size of S, mean over P of d ln(2 rho)
KLCross(par, P, S) ==
    LET ks == KthIn(P, S, par.p, par.k)
        d  == Len(P[1])
    IN  Sum(<<KLConst(par, Len(S) * CopiesOf(par)), LnBallHalf(d, par.p),
              MeanT([i \in 1..Len(P) |->
                IF ks[i] = 0 THEN Zero
                ELSE Mul(I(d), Ln(Mul(I(2), Radius(ks[i], par.p, par))))])>>)

\* ---- Renyi / Tsallis (Leonenko-Pronzato-Savani), Euclidean norm ---------------------
\* par.q = <<a, b>>: order a/b.  ks : k-th distances (squared), M : sample size constant
VBall(m) == Div(Pow(Pi, Q(m, 2)), Gamma(Q(m + 2, 2)))
LpsI(par, ks, M, m) ==
    LET a == par.q[1]  b == par.q[2]
        oneMinus == Q(b - a, b)
    IN  IF a = b * (par.k + 1) THEN Zero
        ELSE LET C == Pow(Div(Gamma(I(par.k)), Gamma(Q(b * (par.k + 1) - a, b))),
                          Q(b, b - a))
             IN  Mul(Pow(Prod(<<I(M), C, VBall(m)>>), oneMinus),
                     MeanT([i \in 1..Len(ks) |->
                        IF ks[i] = 0 THEN Zero
                        ELSE Pow(Pow(Radius(ks[i], 2, par), I(m)), oneMinus)]))
LpsOne(par, ks, M, m) ==
    MeanT([i \in 1..Len(ks) |->
        IF ks[i] = 0 THEN Zero
        ELSE Ln(Prod(<<I(M), Exp(Neg(Psi(par.k))), VBall(m),
                       Pow(Radius(ks[i], 2, par), I(m))>>))])
\* the estimator is defined for orders below k + 1 (and taken as zero at k + 1)
LpsOpen(par) == par.q[1] > par.q[2] * (par.k + 1)
LpsZero(par, ks) == par.q[1] = par.q[2] * (par.k + 1) \/ \A i \in 1..Len(ks) : ks[i] = 0
LpsValue(par, ks, M, m) ==
    LET a == par.q[1]  b == par.q[2]
    IN  IF a = b THEN LpsOne(par, ks, M, m)
        ELSE IF LpsZero(par, ks) THEN Zero
        ELSE IF par.ap = "renyi" THEN Div(Ln(LpsI(par, ks, M, m)), Q(b - a, b))
        ELSE Div(Sub(One, LpsI(par, ks, M, m)), Q(a - b, b))
LpsEntropy(par, X) == LpsValue(par, KthSelf(X, 2, par.k), Len(X) * CopiesOf(par) - 1, Len(X[1]))
LpsCross(par, P, S) == LpsValue(par, KthIn(P, S, 2, par.k), Len(S) * CopiesOf(par), Len(P[1]))

\* ---- Kraskov-Stoegbauer-Grassberger ---------------------------------------------------
\* number of points within the joint distance Di of point i in the space X:
\* type 1: others strictly closer; type 2: all points (itself included) at most as far
\* (f: every point of X is f points)
KsgCount(par, X, i, Di, f) ==
    IF par.ksg = 1
    THEN IF Di = 0 THEN 0 ELSE f * Cardinality({j \in 1..Len(X) : Dist(X[i], X[j], par.p) < Di}) - 1
    ELSE f * Cardinality({j \in 1..Len(X) : Dist(X[i], X[j], par.p) <= Di})
KsgPsi(par, n) == IF par.ksg = 1 THEN Psi(n + 1) ELSE Psi(n)
KsgK(par) == IF par.ksg = 1 THEN Psi(par.k) ELSE Sub(Psi(par.k), Q(1, par.k))
\* total correlation of the variables
KsgMILocals(par, vars) ==
    LET J  == Join(vars)
        ks == KthSelf(J, par.p, par.k)
        n  == Len(J)
    IN  [i \in 1..n |->
          Sum(<<KsgK(par), Mul(I(Len(vars) - 1), Psi(n * CopiesOf(par)))>> \o
              [v \in 1..Len(vars) |-> Neg(KsgPsi(par, KsgCount(par, vars[v], i, ks[i], Stack(par, Moved(par, v)))))])]
\* conditional: parts are the spaces (variable, condition); cnd the condition
KsgCMILocals(par, joint, parts, cnd) ==
    LET ks == KthSelf(joint, par.p, par.k)
    IN  [i \in 1..Len(joint) |->
          Sum(<<KsgK(par), KsgPsi(par, KsgCount(par, cnd, i, ks[i], Stack(par, MovedCond(par))))>> \o
              [v \in 1..Len(parts) |-> Neg(KsgPsi(par, KsgCount(par, parts[v], i, ks[i], Stack(par, Moved(par, v) \/ MovedCond(par)))))])]
\* a case is fragile when a marginal distance coincides with the joint radius under a
\* norm whose radii are not exactly representable
KsgTie(par, spaces, joint) ==
    /\ par.p \notin {0, 1}
    /\ LET ks == KthSelf(joint, par.p, par.k)
       IN \E v \in 1..Len(spaces) : \E i, j \in 1..Len(joint) :
            i # j /\ ks[i] > 0 /\ Dist(spaces[v][i], spaces[v][j], par.p) = ks[i]
=============================================================================
