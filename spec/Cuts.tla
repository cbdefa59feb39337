------------------------------- MODULE Cuts -------------------------------
(* Linearisations of the relaxation: the linear relaxation built at a point, outer-approximation cuts at a point (all rows, one row, the   *)
(* objective) and Benders cuts at a solved point.  Whatever the history of the object, a linearisation must keep every feasible point       *)
(* (with the objective column, index n, at the objective value), and it must be tight where it was made: at that point it is violated by    *)
(* what the nonlinear rows are violated by, and it bounds the objective column by the objective.                                            *)
(* A linear row is [c |-> <<<<column, coefficient>>, ...>>, lb, ub], everything scaled by 1000; lattice points are unscaled.                *)
EXTENDS OsiNlp
BIGL == 1000000000
Pts(o, lo, up) == {y \in [1..N -> -4..4] : /\ \A v \in 1..N: y[v] >= lo[v] /\ y[v] <= up[v]
                                           /\ LET x == [v \in 1..N |-> 1000*y[v]] IN \A j \in 1..Len(Rows(o)): LET r == Rows(o)[j] a == Val(r, x) IN (r.lb > -INF => a >= 1000000*r.lb) /\ (r.ub < INF => a <= 1000000*r.ub)}
Int0(r, y) == r.k + Sum([i \in 1..Len(r.l) |-> r.l[i][2]*y[r.l[i][1]+1]]) + Sum([i \in 1..Len(r.q) |-> r.q[i][3]*y[r.q[i][1]+1]*y[r.q[i][2]+1]])
(* activity of a linear row at a lattice point, at a scaled point *)
ActL(c, y, f) == Sum([i \in 1..Len(c) |-> c[i][2]*(IF c[i][1] = N THEN f ELSE y[c[i][1]+1])])
ActS(c, x, f) == Sum([i \in 1..Len(c) |-> (IF c[i][1] = N THEN (c[i][2] \div 1000)*f ELSE (c[i][2]*x[c[i][1]+1]) \div 1000)])        \* f scaled by 1000 there
Noise(c) == 10 + Sum([i \in 1..Len(c) |-> 2])
Keeps(r, P) == \A y \in P: LET a == ActL(r.c, y, Int0(base.obj, y)) IN (r.ub < BIGL => a <= r.ub + Noise(r.c)) /\ (r.lb > -BIGL => a >= r.lb - Noise(r.c))
Nonlin(r) == r.q # <<>>
(* how much the scaled point x (with objective column value f) violates a row, a linear row *)
ViolRow(r, x) == Max2(IF r.ub < INF THEN Val(r, x) \div 1000 - 1000*r.ub ELSE -INF, IF r.lb > -INF THEN 1000*r.lb - Val(r, x) \div 1000 ELSE -INF)
ViolLin(r, x, f) == Max2(IF r.ub < BIGL THEN ActS(r.c, x, f) - r.ub ELSE -INF, IF r.lb > -BIGL THEN r.lb - ActS(r.c, x, f) ELSE -INF)
Fuzz(r, x) == 20 + Tol(r, x) \div 400
(* violation at y2 of the linearisation of r at x (what the filter by a second point looks at), lattice points *)
LinViol(r, x, y2) == LET s == [v \in 1..N |-> 1000*x[v]] g == Int0(r, x) + Sum([v \in 1..N |-> (D1(r, s, v) \div 1000)*(y2[v] - x[v])]) IN Max2(IF r.ub < INF THEN g - r.ub ELSE -INF, IF r.lb > -INF THEN r.lb - g ELSE -INF)
HasCol(r) == \E i \in 1..Len(r.c): r.c[i][1] = N
Tight(cuts, r, x) == \E i \in 1..Len(cuts): ~HasCol(cuts[i]) /\ ViolLin(cuts[i], x, 0) >= ViolRow(r, x) - Fuzz(r, x)
TightObj(cuts, x) == \E i \in 1..Len(cuts): HasCol(cuts[i]) /\ ViolLin(cuts[i], x, Val(base.obj, x) \div 1000) >= -Fuzz(base.obj, x)
LinObj == base.obj.q = <<>>
Wanted(g) == g = 2 \/ (g = 1 /\ ~LinObj)
(* cuts made at the scaled point x; box is the box they have to be valid in; exact: no coefficient is cleaned away *)
CutsOk(o, cuts, x, g, rows, lo, up, exact) ==
  /\ LET P == Pts(o, lo, up) IN \A i \in 1..Len(cuts): Keeps(cuts[i], P) /\ (HasCol(cuts[i]) => Wanted(g))
  /\ (exact => /\ \A j \in rows: (IF Nonlin(Rows(o)[j]) THEN Tight(cuts, Rows(o)[j], x) ELSE TRUE)
               /\ (IF Wanted(g) THEN TightObj(cuts, x) ELSE TRUE))
(* the linear relaxation made at x *)
RelaxOk(o, e, x, g, exact) ==
  /\ e.ncols = N + (IF Wanted(g) THEN 1 ELSE 0)
  /\ \A v \in 1..N: e.lo[v] = o.lo[v] /\ e.up[v] = o.up[v] /\ e.int[v] = (o.ty[v] # "C")
  /\ (Wanted(g) => e.lo[N+1] <= -BIGL /\ e.up[N+1] >= BIGL /\ ~e.int[N+1])
  /\ \A i \in 1..Len(e.rows): Keeps(e.rows[i], Pts(o, o.lo, o.up))
  /\ (exact => \A j \in 1..Len(Rows(o)): LET r == Rows(o)[j] IN IF Nonlin(r) THEN Tight(e.rows, r, x) ELSE
        \E i \in 1..Len(e.rows): LET w == e.rows[i] IN /\ Len(w.c) <= Len(r.l) /\ \A v \in 0..N-1: Sum([k \in 1..Len(w.c) |-> IF w.c[k][1] = v THEN w.c[k][2] ELSE 0]) = 1000*Sum([k \in 1..Len(r.l) |-> IF r.l[k][1] = v THEN r.l[k][2] ELSE 0])
                                                      /\ (IF r.lb > -INF THEN Abs(w.lb - 1000*r.lb) <= 1 ELSE w.lb <= -BIGL) /\ (IF r.ub < INF THEN Abs(w.ub - 1000*r.ub) <= 1 ELSE w.ub >= BIGL))
  /\ (IF Wanted(g) THEN TightObj(e.rows, x) \/ ~exact ELSE TRUE)
  /\ e.obj = [v \in 1..e.ncols |-> IF v = N + 1 THEN 1000 ELSE IF g > 0 /\ LinObj THEN 1000*Sum([k \in 1..Len(base.obj.l) |-> IF base.obj.l[k][1] = v-1 THEN base.obj.l[k][2] ELSE 0]) ELSE 0]
  /\ e.off = IF g > 0 /\ LinObj THEN -1000*base.obj.k ELSE 0
(* a Benders cut at the optimum x of the relaxation of o: keeps everything feasible for the rows, and is tight at the optimum if it has one *)
Huge(w) == \E i \in 1..Len(w.c): Abs(w.c[i][2]) > 400000          \* degenerate problem: multipliers need not be bounded
BendersOk(o, cuts, x, opt, exact) == IF \E i \in 1..Len(cuts): Huge(cuts[i]) THEN TRUE ELSE
  /\ \A i \in 1..Len(cuts): Keeps(cuts[i], Pts(o, IF exact THEN base.lo ELSE o.lo, IF exact THEN base.up ELSE o.up))
  /\ (opt /\ exact /\ ~LinObj => Len(cuts) = 1 /\ HasCol(cuts[1]) /\ ViolLin(cuts[1], x, Val(base.obj, x) \div 1000) >= -(Fuzz(base.obj, x) + Sum([j \in 1..Len(Rows(o)) |-> Fuzz(Rows(o)[j], x)])))
(* -- what the code computes, for model checking: linearisation of a <= row at a lattice point, cleaning of a coefficient, aggregation -- *)
Grad(r, y) == [v \in 1..N |-> D1(r, [w \in 1..N |-> 1000*y[w]], v)]
Dense(g) == [v \in 1..N |-> <<v - 1, g[v]>>]
Lin(r, y) == [c |-> Dense(Grad(r, y)), lb |-> -BIGL, ub |-> 1000*(r.ub - Int0(r, y)) + Sum([v \in 1..N |-> Grad(r, y)[v]*y[v]])]
LinObjCut(y) == [c |-> Append(Dense(Grad(base.obj, y)), <<N, -1000>>), lb |-> -BIGL, ub |-> -1000*Int0(base.obj, y) + Sum([v \in 1..N |-> Grad(base.obj, y)[v]*y[v]])]
Cleaned(w, v, lo, up) == LET a == w.c[v][2] IN [w EXCEPT !.c[v][2] = 0, !.ub = @ - a*(IF a > 0 THEN lo[v] ELSE up[v])]
Aggr(w1, m1, w2, m2, w3) == [c |-> Append([v \in 1..N |-> <<v - 1, m1*w1.c[v][2] + m2*w2.c[v][2] + w3.c[v][2]>>], <<N, -1000>>), lb |-> -BIGL, ub |-> m1*w1.ub + m2*w2.ub + w3.ub]
=============================================================================
