------------------------------- MODULE MC_C09 -------------------------------
(* Transfer entropy of every pair of small series under every window setting *)
EXTENDS Measures, LogForm, Json, IOUtils

Deep == IOEnv.VERIF_TIER = "thorough"
MaxN == IF Deep THEN 6 ELSE 5
Par == [ap |-> "discrete", K |-> 0, mloc |-> FALSE]

VARIABLES vs, lx, ly, step, prop, phase
vars == <<vs, lx, ly, step, prop, phase>>
\* renaming symbols changes nothing (C03), so both series start with 0
Bin(n) == {f \in [1..n -> 0..1] : f[1] = 0}
Init ==
    /\ phase = "asked"
    /\ \E n \in 2..MaxN : \E f, g \in Bin(n) :
          /\ vs = <<Col(f), Col(g)>>
          /\ step \in 1..(IF n <= 4 \/ Deep THEN 3 ELSE 2)
          /\ lx \in 1..3 /\ ly \in 1..3 /\ lx + ly <= 4
          /\ prop \in -2..2 /\ (n >= 5 => prop >= -1 /\ prop <= 1)
          /\ MaxI(lx, ly) * step < n - Abs(prop) * step
Case == [kind |-> "te", par |-> Par, vars |-> vs, lx |-> lx, ly |-> ly, step |-> step, prop |-> prop]
Respond == /\ phase = "asked" /\ phase' = "answered" /\ UNCHANGED <<vs, lx, ly, step, prop>>
           /\ PrintT(ToJson([case |-> Case, ans |-> Answer(Case)]))
Spec == Init /\ [][Respond]_vars

N == Len(vs[1])
Nu == N - Abs(prop) * step       \* length after propagation
W == WindowsOf(Case)
m == MaxI(lx, ly) * step
\* prediction times, from first principles
Times == {t \in 0..(Nu - 1) : t >= m /\ (t - m) % step = 0}
CountRight == Len(W.fut) = Cardinality(Times) /\ Len(W.src) = Len(W.fut) /\ Len(W.dst) = Len(W.fut)
\* windows in terms of the ORIGINAL series: source time is shifted back by prop*step
Ox == IF prop < 0 THEN -prop * step ELSE 0
Oy == IF prop > 0 THEN prop * step ELSE 0
WindowsRight ==
    \A i \in 1..Len(W.fut) :
        LET t == m + (i - 1) * step
        IN  /\ W.fut[i] = vs[2][Oy + t + 1]
            /\ W.src[i] = [j \in 1..lx |-> vs[1][Ox + t - (lx - j + 1) * step + 1][1]]
            /\ W.dst[i] = [j \in 1..ly |-> vs[2][Oy + t - (ly - j + 1) * step + 1][1]]
\* the source window ends prop+1 strides before the predicted value
CausalOrder == prop >= 0 => \A i \in 1..Len(W.fut) : Ox + m + (i - 1) * step - step < Oy + m + (i - 1) * step
TE == FCMI(<<W.fut, W.src>>, W.dst)
NonNegative == FNonNeg(TE)
ConstantSource == Cardinality(Support(vs[1])) = 1 => TE = FZero
ChainRule == FMI(<<W.fut, Join(<<W.src, W.dst>>)>>) = FAdd(FMI(<<W.fut, W.dst>>), TE)
=============================================================================
