------------------------------- MODULE Terms -------------------------------
(***************************************************************************)
(* Symbolic values.  Every real-valued answer of the library is specified  *)
(* as a term over exact integers; a term is a tuple <<tag, args...>>.      *)
(* TLC computes the term (all counting, neighbour search, windowing and    *)
(* case analysis happen here, on exact integers); the harness contains one *)
(* generic evaluator (harness/terms.py) that maps each tag to the function *)
(* of that name and nothing else.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

I(n)       == <<"q", n, 1>>                 \* integer
Q(n, d)    == <<"q", n, d>>                 \* rational
LnI(n)     == <<"ln", <<"q", n, 1>>>>       \* ln of a positive integer
LnQ(n, d)  == <<"ln", <<"q", n, d>>>>
Ln(t)      == <<"ln", t>>
Psi(n)     == <<"psi", <<"q", n, 1>>>>      \* digamma at an integer
PsiT(t)    == <<"psi", t>>
Neg(t)     == <<"neg", t>>
Sum(s)     == <<"add", s>>                  \* s: sequence of terms
Prod(s)    == <<"mul", s>>
Add(a, b)  == <<"add", <<a, b>>>>
Sub(a, b)  == <<"sub", a, b>>
Mul(a, b)  == <<"mul", <<a, b>>>>
Div(a, b)  == <<"div", a, b>>
Pow(a, b)  == <<"pow", a, b>>
Exp(a)     == <<"exp", a>>
Sqrt(a)    == <<"sqrt", a>>
Max2(a, b) == <<"max", <<a, b>>>>
Min2(a, b) == <<"min", <<a, b>>>>
Gamma(a)   == <<"gamma", a>>
LnGamma(a) == <<"lngamma", a>>
Psi1(a)    == <<"psi1", a>>                 \* trigamma
Pi         == <<"pi">>
EulerGamma == <<"euler">>
NaN        == <<"nan">>
Inf        == <<"inf">>
Var(v)     == <<"var", v>>                  \* bound variable of a binder
Arg(i)     == <<"arg", i>>                  \* i-th recorded real (1-based)
\* binders: sum / product over v = lo..hi (terms), integral over an interval
SumOver(v, lo, hi, body)  == <<"sumover", v, lo, hi, body>>
ProdOver(v, lo, hi, body) == <<"prodover", v, lo, hi, body>>
Integral(v, lo, hi, body) == <<"integral", v, lo, hi, body>>
\* mean of a sequence of terms
MeanT(s) == Div(Sum(s), I(Len(s)))
Zero == I(0)
One  == I(1)

MapSeq(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]

\* ---- plain integer helpers -------------------------------------------------
MaxI(a, b) == IF a >= b THEN a ELSE b
MinI(a, b) == IF a <= b THEN a ELSE b
Abs(a)     == IF a >= 0 THEN a ELSE -a
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE s[1] + SumSeq(Tail(s))
RECURSIVE MaxSeq(_)
MaxSeq(s) == IF Len(s) = 1 THEN s[1] ELSE MaxI(s[1], MaxSeq(Tail(s)))
RECURSIVE IPow(_, _)
IPow(a, k) == IF k = 0 THEN 1 ELSE a * IPow(a, k - 1)
RECURSIVE Fact(_)
Fact(n) == IF n <= 1 THEN 1 ELSE n * Fact(n - 1)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
=============================================================================
