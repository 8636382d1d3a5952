------------------------------ MODULE Windows ------------------------------
(***************************************************************************)
(* Which observations a time-ordered measure sees.  A series is a sequence *)
(* of rows (one row per time step, possibly several columns).  Time is     *)
(* counted from 0 in the comments and from 1 in the sequences.             *)
(***************************************************************************)
EXTENDS Samples

\* ---- offset of mutual information: pairs <<x[t], y[t+k]>> ------------------------
OffsetX(x, k) == IF k >= 0 THEN SubSeq(x, 1, Len(x) - k) ELSE SubSeq(x, 1 - k, Len(x))
OffsetY(y, k) == IF k >= 0 THEN SubSeq(y, k + 1, Len(y)) ELSE SubSeq(y, 1, Len(y) + k)

\* ---- transfer entropy ---------------------------------------------------------------
\* propagation time p (in steps of s): the source is moved back p*s time steps.
PropSrc(x, p, s) == OffsetX(x, p * s)
PropDst(y, p, s) == OffsetY(y, p * s)

\* prediction times m, m+s, m+2s, ... < n
PredTimes(n, m, s) == TLCEval([i \in 1..((n - m + s - 1) \div s) |-> m + (i - 1) * s])
RECURSIVE HistRow(_, _, _, _)
\* the values at t-l*s, ..., t-2s, t-s (oldest first)
HistRow(x, t, l, s) == IF l = 0 THEN <<>> ELSE x[t - l * s + 1] \o HistRow(x, t, l - 1, s)
History(x, times, l, s) == TLCEval([i \in 1..Len(times) |-> HistRow(x, times[i], l, s)])
Future(y, times) == TLCEval([i \in 1..Len(times) |-> y[times[i] + 1]])

\* the three / four observation tables of (conditional) transfer entropy
TEWindows(x, y, lx, ly, s, p) ==
    LET xs == TLCEval(PropSrc(x, p, s))  ys == TLCEval(PropDst(y, p, s))
        m  == MaxI(lx, ly) * s
        tt == PredTimes(Len(ys), m, s)
    IN  TLCEval([src |-> History(xs, tt, lx, s), dst |-> History(ys, tt, ly, s),
                 fut |-> Future(ys, tt)])
CTEWindows(x, y, z, lx, ly, lz, s) ==
    LET m  == MaxI(MaxI(lx, ly), lz) * s
        tt == PredTimes(Len(y), m, s)
    IN  TLCEval([src |-> History(x, tt, lx, s), dst |-> History(y, tt, ly, s),
                 fut |-> Future(y, tt), cnd |-> History(z, tt, lz, s)])
=============================================================================
