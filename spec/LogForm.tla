------------------------------ MODULE LogForm ------------------------------
(***************************************************************************)
(* Exact canonical forms for plug-in information values.  A value          *)
(*     (1/N) * sum_p  c_p * ln p       (p prime, c_p integer)              *)
(* is represented by the function p -> c_p on the primes up to MaxPrime,   *)
(* with the common denominator N kept separately.  Because the logarithms  *)
(* of the primes are linearly independent over the rationals, two plug-in  *)
(* values with the same N are equal as reals iff their forms are equal, so *)
(* identities (chain rule, symmetry, TE = CMI, ...) are decided exactly.   *)
(***************************************************************************)
EXTENDS Samples

Primes == {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31}
FZero == [p \in Primes |-> 0]
RECURSIVE Ord(_, _)
Ord(n, p) == IF n % p = 0 THEN 1 + Ord(n \div p, p) ELSE 0
\* c * ln n
FLn(c, n) == [p \in Primes |-> c * Ord(n, p)]
FAdd(f, g) == [p \in Primes |-> f[p] + g[p]]
FSub(f, g) == [p \in Primes |-> f[p] - g[p]]
FScale(c, f) == [p \in Primes |-> c * f[p]]
RECURSIVE FSumSeq(_)
FSumSeq(s) == IF s = <<>> THEN FZero ELSE FAdd(s[1], FSumSeq(Tail(s)))

\* N * H(s)  =  N ln N - sum n ln n
FH(s) == LET n == Len(s)  c == Freq(s)
         IN TLCEval(FSub(FLn(n, n), FSumSeq([j \in 1..Len(c) |-> FLn(c[j], c[j])])))
\* N * I(X1;...;Xm)
FMI(vars) == TLCEval(FSub(FSumSeq([i \in 1..Len(vars) |-> FH(vars[i])]), FH(Join(vars))))
FCMI(vars, z) ==
    TLCEval(FSub(FSub(FSumSeq([i \in 1..Len(vars) |-> FH(Join(<<vars[i], z>>))]),
                      FH(Join(vars \o <<z>>))), FH(z)))

\* sign of (1/1) sum c_p ln p decided exactly: compare the products of the
\* positive and negative powers as integers (only for small exponents).
RECURSIVE PowProd(_, _)
PowProd(f, S) == IF S = {} THEN 1
                 ELSE LET p == CHOOSE q \in S : TRUE
                      IN  IPow(p, MaxI(f[p], 0)) * PowProd(f, S \ {p})
FNonNeg(f) == PowProd(f, Primes) >= PowProd([p \in Primes |-> -f[p]], Primes)
=============================================================================
