------------------------------- MODULE MC_C03 -------------------------------
(* Requests are rewritten: the symbols of a variable are renamed one-to-one  *)
(* (Rename) or all observations are put in another order (Reorder, only for  *)
(* measures without time order).  The specified value never changes and      *)
(* local values follow their observation; the harness asks the code the      *)
(* rewritten request and expects the answer of the original one.             *)
EXTENDS Measures, LogForm, Json, IOUtils

Deep == IOEnv.VERIF_TIER = "thorough"
Par == [ap |-> "discrete", K |-> 0, mloc |-> FALSE]
VARIABLES orig, cur, order, phase
vars == <<orig, cur, order, phase>>

Sym == 0..2
Ser(n) == [1..n -> Sym]
Bin(n) == [1..n -> 0..1]
Bin0(n) == {f \in Bin(n) : Deep \/ f[1] = 0}
Two(f, g) == [i \in 1..Len(f) |-> <<f[i], g[i]>>]
Requests ==
    {[kind |-> "h", par |-> Par, vars |-> <<Col(f)>>] : f \in UNION {Ser(n) : n \in 1..(IF Deep THEN 5 ELSE 4)}}
    \cup {[kind |-> "h", par |-> Par, vars |-> <<Two(f, g)>>] : f \in Bin(3), g \in Ser(3)}
    \cup {[kind |-> "mi", par |-> Par, vars |-> <<Col(f), Col(g)>>, off |-> 0] : f \in Bin(3), g \in Ser(3)}
    \cup {[kind |-> "mi", par |-> Par, vars |-> <<Two(f, g), Col(h)>>, off |-> 0] : f, g, h \in Bin0(3)}
    \cup {[kind |-> "cmi", par |-> Par, vars |-> <<Col(f), Col(g)>>, cond |-> Col(h)] : f, g, h \in Bin0(3)}
    \cup {[kind |-> "te", par |-> Par, vars |-> <<Col(f), Col(g)>>, lx |-> a, ly |-> 1, step |-> 1, prop |-> p]
              : f, g \in Bin0(4), a \in 1..2, p \in 0..1}
    \cup {[kind |-> "cte", par |-> Par, vars |-> <<Col(f), Col(g)>>, cond |-> Col(h), lx |-> 1, ly |-> 1, lz |-> 1,
            step |-> 1, prop |-> 0] : f, g, h \in {x \in Bin(4) : x[1] = 0}}

Timed(c) == c.kind \in {"te", "cte"}
Columns == Permutations(Sym)
RenameVar(v, f) == [i \in 1..Len(v) |-> [j \in 1..Len(v[i]) |-> f[v[i][j]]]]
Renamings(c) ==
    {[c EXCEPT !.vars[k] = RenameVar(@, f)] : k \in 1..Len(c.vars), f \in Columns}
    \cup (IF "cond" \in DOMAIN c THEN {[c EXCEPT !.cond = RenameVar(@, f)] : f \in Columns} ELSE {})
Put(v, p) == [i \in 1..Len(v) |-> v[p[i]]]
Reordered(c, p) ==
    LET d == [c EXCEPT !.vars = [k \in 1..Len(c.vars) |-> Put(c.vars[k], p)]]
    IN  IF "cond" \in DOMAIN c THEN [d EXCEPT !.cond = Put(c.cond, p)] ELSE d

NLoc(c) == IF Timed(c) THEN Len(WindowsOf(c).fut) ELSE Len(c.vars[1])
Init == /\ orig \in Requests /\ cur = orig /\ phase = "asked"
        /\ order = [i \in 1..NLoc(orig) |-> i]
Rename == /\ phase = "asked" /\ phase' = "rewritten"
          /\ cur' \in Renamings(cur) \ {cur} /\ UNCHANGED <<orig, order>>
Reorder == /\ phase = "asked" /\ phase' = "rewritten" /\ ~Timed(orig)
           /\ order' \in Permutations(1..Len(orig.vars[1]))
           /\ cur' = Reordered(orig, order') /\ UNCHANGED orig
Respond == /\ phase = "rewritten" /\ phase' = "answered" /\ UNCHANGED <<orig, cur, order>>
           /\ PrintT(ToJson([case |-> cur, order |-> order, ans |-> Answer(orig)]))
Next == Rename \/ Reorder \/ Respond
Spec == Init /\ [][Next]_vars

Form(c) == CASE c.kind = "h" -> FH(Join(c.vars))
             [] c.kind = "mi" -> FMI(c.vars)
             [] c.kind = "cmi" -> FCMI(c.vars, c.cond)
             [] OTHER -> LET w == WindowsOf(c) IN FCMI(<<w.fut, w.src>>, Past(c, w))
\* per-observation counts, from which every local value is built
LocCounts(c) == CASE c.kind = "h" -> <<CountAt(Join(c.vars))>>
                  [] c.kind = "mi" -> [k \in 1..Len(c.vars) |-> CountAt(c.vars[k])] \o <<CountAt(Join(c.vars))>>
                  [] c.kind = "cmi" -> <<CountAt(Join(<<c.vars[1], c.cond>>)), CountAt(Join(<<c.vars[2], c.cond>>)),
                                         CountAt(c.cond), CountAt(Join(c.vars \o <<c.cond>>))>>
                  [] OTHER -> LET w == WindowsOf(c)  z == Past(c, w)
                              IN  <<CountAt(z), CountAt(Join(<<w.fut, z>>)), CountAt(Join(<<w.src, z>>)),
                                    CountAt(Join(<<w.fut, w.src, z>>))>>
ValueKept == phase # "asked" => Form(cur) = Form(orig)
LocalsFollow == phase # "asked" =>
    LET a == LocCounts(orig)  b == LocCounts(cur)
    IN  \A k \in 1..Len(a) : \A i \in 1..Len(a[k]) : b[k][i] = a[k][order[i]]
=============================================================================
