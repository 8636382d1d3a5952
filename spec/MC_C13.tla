------------------------------- MODULE MC_C13 -------------------------------
(* Every small one- and two-dimensional point set: nearest-neighbour         *)
(* entropies.                                                                *)
EXTENDS Measures, Json, IOUtils

Deep == IOEnv.VERIF_TIER = "thorough"
VARIABLES x, par, phase
vars == <<x, par, phase>>
Sorted(n, k) == {f \in [1..n -> 0..k] : \A i \in 1..n-1 : f[i] <= f[i + 1]}
\* a grid point of the plane from its number
Grid(f) == [i \in 1..Len(f) |-> <<f[i] \div 3, f[i] % 3>>]
Kl(k, p, g, sc) == [ap |-> "metric", K |-> 0, mloc |-> FALSE, k |-> k, p |-> p, ksg |-> g, sc |-> sc]
Lps(a, k, q, sc) == [ap |-> a, K |-> 0, mloc |-> FALSE, k |-> k, q |-> q, sc |-> sc]
Qs == {<<1, 2>>, <<1, 1>>, <<3, 2>>, <<2, 1>>}
Init ==
    /\ phase = "asked"
    /\ \/ \E n \in 2..(IF Deep THEN 5 ELSE 4) : \E f \in Sorted(n, 4) : x = Col(f)
       \/ \E n \in 2..(IF Deep THEN 4 ELSE 3) : \E f \in Sorted(n, 8) : x = Grid(f)
    /\ \E k \in 1..3 : k < Len(x) /\
          (\/ \E p \in 0..3, g \in 1..2 : par = Kl(k, p, g, IF k = 1 THEN <<1, 1>> ELSE <<3, 8>>)
           \/ \E a \in {"renyi", "tsallis"}, q \in Qs : par = Lps(a, k, q, IF k = 2 THEN <<1, 1>> ELSE <<1, 4>>))
Case == [kind |-> "h", par |-> par, vars |-> <<x>>]
Respond == /\ phase = "asked" /\ phase' = "answered" /\ UNCHANGED <<x, par>>
           /\ PrintT(ToJson([case |-> Case, ans |-> Answer(Case)]))
Spec == Init /\ [][Respond]_vars

N == Len(x)
Dm == Len(x[1])
P == IF par.ap = "metric" THEN par.p ELSE 2
Ks(y) == KthSelf(y, P, par.k)
Map(f(_)) == [i \in 1..N |-> [j \in 1..Dm |-> f(x[i][j])]]
Shifted == Ks(Map(LAMBDA v : v + 17)) = Ks(x)
Mirrored == Ks(Map(LAMBDA v : -v)) = Ks(x)
Scaled == LET s == Ks(Map(LAMBDA v : 3 * v))
          IN  \A i \in 1..N : s[i] = Ks(x)[i] * (IF P = 0 THEN 3 ELSE IPow(3, P))
AxesSwapped == Ks([i \in 1..N |-> Reverse(x[i])]) = Ks(x)
OrderIrrelevant == LET r == Ks(Reverse(x)) IN \A i \in 1..N : r[N + 1 - i] = Ks(x)[i]
\* the k-th distance has at least k other points within it and fewer than k inside it
KthRight == \A i \in 1..N :
    /\ Cardinality({j \in 1..N : j # i /\ Dist(x[i], x[j], P) <= Ks(x)[i]}) >= par.k
    /\ Cardinality({j \in 1..N : j # i /\ Dist(x[i], x[j], P) < Ks(x)[i]}) < par.k
\* a far translate changes nothing but the number of points
Twice == x \o Map(LAMBDA v : v + 1000)
CopiesRight == LET two == par @@ [copies |-> 2] IN
    /\ Ks(Twice) = Ks(x) \o Ks(x)
    /\ par.ap = "metric" => KLLocals(par, Twice) = KLLocals(two, x) \o KLLocals(two, x)
Monotone == par.k > 1 => \A i \in 1..N : KthSelf(x, P, par.k - 1)[i] <= Ks(x)[i]
=============================================================================
