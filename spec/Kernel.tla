------------------------------- MODULE Kernel -------------------------------
(***************************************************************************)
(* Kernel density estimates on integer point sets (real data = integers    *)
(* times par.sc times 2^par.x2); kernel par.ker.  The bandwidth is         *)
(* par.bw = <<bn, bd>>, for the box kernel also times 2^par.x2.            *)
(***************************************************************************)
EXTENDS Knn

\* |x - y| <= h/2 in every coordinate, exactly: 2*|d|*sn*bd <= bn*sd
InBox(par, a, b) ==
    \A j \in 1..Len(a) : 2 * Abs(a[j] - b[j]) * par.sc[1] * par.bw[2] <= par.bw[1] * par.sc[2]
Bw(par) == IF "x2" \in DOMAIN par THEN Mul(Q(par.bw[1], par.bw[2]), Pow(I(2), I(par.x2)))
           ELSE Q(par.bw[1], par.bw[2])
BoxCount(par, a, X) == Cardinality({j \in 1..Len(X) : InBox(par, a, X[j])})
BoxDensity(par, a, X) ==
    Div(I(BoxCount(par, a, X)), Prod(<<I(Len(X) * CopiesOf(par)), Pow(Bw(par), I(Len(a)))>>))

\* ---- Gaussian mixture with covariance  h^2 * Cov(X)  (d = 1, 2, 3) -------------------
\* integer scatter: n*sum(x_a x_b) - sum(x_a)*sum(x_b) = n(n-1) Cov_ab (before scaling)
Scatter(X) ==
    LET n == Len(X)
        d == Len(X[1])
        s(a) == SumSeq([i \in 1..n |-> X[i][a]])
        ss(a, b) == SumSeq([i \in 1..n |-> X[i][a] * X[i][b]])
    IN  TLCEval([a \in 1..d |-> [b \in 1..d |-> n * ss(a, b) - s(a) * s(b)]])
\* Scatter over covariance.  A sample of which every point occurs par.rep times (large samples
\* stated by their distinct points) differs from the plain one only in the degrees of freedom.
ScatterRatio(par, n) ==
    LET r == IF "rep" \in DOMAIN par THEN par.rep ELSE 1
    IN  Q(n * (n * r - 1), r)
\* density at a: mean of N(a; x_j, h^2 Cov); the scale cancels in the exponent.
\* "det" and "quadinv" (u' M^-1 u) are the determinant and inverse quadratic form of an
\* integer matrix.
GaussDensity(par, a, X) ==
    LET n == Len(X)  d == Len(X[1])
        M == Scatter(X)
        h == Q(par.bw[1], par.bw[2])
        ratio == ScatterRatio(par, n)
        norm == Sqrt(Mul(Pow(Div(Prod(<<I(2), Pi, h, h, Scale(par), Scale(par)>>), ratio), I(d)),
                         <<"det", M>>))
        diff(j) == TLCEval([c \in 1..d |-> a[c] - X[j][c]])
    IN  Div(Sum([j \in 1..n |->
              Exp(Neg(Div(Mul(<<"quadinv", M, diff(j)>>, ratio),
                          Prod(<<I(2), h, h>>))))]),
            Mul(I(n), norm))

Density(par, a, X) == IF par.ker = "box" THEN BoxDensity(par, a, X) ELSE GaussDensity(par, a, X)
Densities(par, X) == [i \in 1..Len(X) |-> Density(par, X[i], X)]

KernelHLocals(par, X) == [i \in 1..Len(X) |-> Neg(Ln(Density(par, X[i], X)))]
\* H_Q(P): mean over P of -ln q(x), points of zero density contribute nothing
KernelCross(par, P, S) ==
    MeanT([i \in 1..Len(P) |->
        IF par.ker = "box" /\ BoxCount(par, P[i], S) = 0 THEN Zero
        ELSE Neg(Ln(Density(par, P[i], S)))])
\* in a space that the translates do not move they change no relative frequency
In(par, moved) == IF moved \/ "copies" \notin DOMAIN par THEN par ELSE [par EXCEPT !.copies = 1]
KernelMILocals(par, vars) ==
    LET J == Join(vars)
    IN  [i \in 1..Len(J) |->
          Sub(Ln(Density(par, J[i], J)),
              Sum([v \in 1..Len(vars) |-> Ln(Density(In(par, Moved(par, v)), vars[v][i], vars[v]))]))]
KernelCMILocals(par, joint, parts, cnd) ==
    [i \in 1..Len(joint) |->
          Sub(Add(Ln(Density(par, joint[i], joint)), Ln(Density(In(par, MovedCond(par)), cnd[i], cnd))),
              Sum([v \in 1..Len(parts) |-> Ln(Density(In(par, Moved(par, v) \/ MovedCond(par)), parts[v][i], parts[v]))]))]
=============================================================================
