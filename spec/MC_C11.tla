------------------------------- MODULE MC_C11 -------------------------------
(* Conditional transfer entropy of small series under every window setting.  *)
EXTENDS Measures, LogForm, Json, IOUtils

Deep == IOEnv.VERIF_TIER = "thorough"
MaxN == IF Deep THEN 5 ELSE 4
Par == [ap |-> "discrete", K |-> 0, mloc |-> FALSE]

VARIABLES vs, z, lx, ly, lz, step, phase
vars == <<vs, z, lx, ly, lz, step, phase>>
Bin(n) == {f \in [1..n -> 0..1] : f[1] = 0}
Init ==
    /\ phase = "asked"
    /\ \E n \in 2..MaxN : \E f, g, h \in Bin(n) :
          /\ vs = <<Col(f), Col(g)>> /\ z = Col(h)
          /\ step \in 1..2
          /\ lx \in 1..2 /\ ly \in 1..2 /\ lz \in 1..3
          /\ MaxI(MaxI(lx, ly), lz) * step < n
Case == [kind |-> "cte", par |-> Par, vars |-> vs, cond |-> z, lx |-> lx, ly |-> ly, lz |-> lz,
         step |-> step]
Respond == /\ phase = "asked" /\ phase' = "answered" /\ UNCHANGED <<vs, z, lx, ly, lz, step>>
           /\ PrintT(ToJson([case |-> Case, ans |-> Answer(Case)]))
Spec == Init /\ [][Respond]_vars

W == WindowsOf(Case)
m == MaxI(MaxI(lx, ly), lz) * step
N == Len(z)
Times == {t \in 0..(N - 1) : t >= m /\ (t - m) % step = 0}
Hist(v, l, t) == [j \in 1..l |-> v[t - (l - j + 1) * step + 1][1]]
WindowsRight ==
    /\ Len(W.fut) = Cardinality(Times)
    /\ \A i \in 1..Len(W.fut) :
        LET t == m + (i - 1) * step
        IN  /\ W.fut[i] = vs[2][t + 1] /\ W.src[i] = Hist(vs[1], lx, t)
            /\ W.dst[i] = Hist(vs[2], ly, t) /\ W.cnd[i] = Hist(z, lz, t)
CTE == FCMI(<<W.fut, W.src>>, Past(Case, W))
NonNegative == FNonNeg(CTE)
TEW == TEWindows(vs[1], vs[2], lx, ly, step, 0)
ConstantCondition ==
    (Cardinality(Support(z)) = 1 /\ lz <= MaxI(lx, ly)) =>
        CTE = FCMI(<<TEW.fut, TEW.src>>, TEW.dst)
\* conditioning on the source itself explains everything it knows
SelfCondition == (z = vs[1] /\ lz = lx) => CTE = FZero
=============================================================================
