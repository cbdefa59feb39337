------------------------------ MODULE OsiNlp ------------------------------
(* The continuous relaxation as its users (branch-and-bound, cut generators, heuristics) see it through the solver interface: objects     *)
(* that carry a box, integrality marks and appended rows over the user's problem, can be copied and assigned, solved from scratch or      *)
(* from a warm or hot start, and switched to a feasibility problem (closest point to x-bar, optionally with a cutoff, or the original      *)
(* objective within a Hamming ball).  A solve must return a Karush-Kuhn-Tucker point of exactly the problem the object stands for          *)
(* (problems are convex), never claim infeasibility when there is a lattice point satisfying all rows, and touch no other object.         *)
(* Points and multipliers are scaled by 1000, function values by 10^6.                                                                    *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, Functions
VARIABLES base,     \* [n, obj, con, lo, up, ty]
          objs
ovars == <<base, objs>>
INF == 100000000
N == base.n
Abs(a) == IF a < 0 THEN -a ELSE a
Max2(a, b) == IF a > b THEN a ELSE b
Sum(s) == FoldLeft(LAMBDA a, b: a + b, 0, s)
Orig == [kind |-> "orig", xbar |-> <<>>, inds |-> <<>>, norm |-> 2, cut |-> <<>>, rhs |-> 0]
NotSolved == [kind |-> "no", xbar |-> <<>>, inds |-> <<>>, norm |-> 2, cut |-> <<>>, rhs |-> 0]
Rows(o) == base.con \o o.add
(* values and derivatives at a scaled point *)
Val(r, x) == r.k*1000000 + Sum([i \in 1..Len(r.l) |-> 1000*r.l[i][2]*x[r.l[i][1]+1]]) + Sum([i \in 1..Len(r.q) |-> r.q[i][3]*x[r.q[i][1]+1]*x[r.q[i][2]+1]])
D1(r, x, v) == Sum([i \in 1..Len(r.l) |-> IF r.l[i][1]+1 = v THEN 1000*r.l[i][2] ELSE 0])
             + Sum([i \in 1..Len(r.q) |-> r.q[i][3]*((IF r.q[i][1]+1 = v THEN x[r.q[i][2]+1] ELSE 0) + (IF r.q[i][2]+1 = v THEN x[r.q[i][1]+1] ELSE 0))])
Tol(r, x) == 5000 + Sum([v \in 1..N |-> Abs(D1(r, x, v))])                    \* what rounding the point to three digits can do to a value
Dist(f, x) == IF f.norm = 2 THEN Sum([i \in 1..Len(f.inds) |-> (x[f.inds[i]+1] - 1000*f.xbar[i])*(x[f.inds[i]+1] - 1000*f.xbar[i])])
              ELSE Sum([i \in 1..Len(f.inds) |-> 1000*(IF f.xbar[i] <= 0 THEN x[f.inds[i]+1] ELSE 1000 - x[f.inds[i]+1])])
Ham(f, x) == Sum([i \in 1..Len(f.inds) |-> IF f.xbar[i] <= 0 THEN x[f.inds[i]+1] ELSE 1000 - x[f.inds[i]+1]])
(* the point satisfies box, rows and the extra row of the problem f that was solved, up to slack *)
Within(o, f, x, slack) ==
  /\ \A v \in 1..N: x[v] >= 1000*o.lo[v] - 2*slack /\ x[v] <= 1000*o.up[v] + 2*slack
  /\ \A j \in 1..Len(Rows(o)): LET r == Rows(o)[j] a == Val(r, x) t == slack*Tol(r, x) IN (r.lb > -INF => a >= 1000000*r.lb - t) /\ (r.ub < INF => a <= 1000000*r.ub + t)
  /\ (f.cut # <<>> => Val(base.obj, x) <= 1000000*f.cut[1] + slack*Tol(base.obj, x) - (1 - slack)*1000)
  /\ (f.kind = "loc" => Ham(f, x) <= 1000*f.rhs + 5*slack)
Goal(f, x) == IF f.kind = "dist" THEN Dist(f, x) ELSE Val(base.obj, x)
Lattice(o) == [1..N -> -4..4]
Better(o, f, g) == \E y \in Lattice(o): (\A v \in 1..N: y[v] >= o.lo[v] /\ y[v] <= o.up[v]) /\ LET x == [v \in 1..N |-> 1000*y[v]] IN Within(o, f, x, 0) /\ Goal(f, x) < g
(* multipliers: zL, zU, row multipliers *)
Kkt(o, x, du) == LET m == Len(Rows(o)) lam(j) == du[2*N + j] IN
  IF (\E j \in 1..m: Abs(lam(j)) > 30000) \/ (\E i \in 1..2*N: Abs(du[i]) > 10000000) THEN TRUE       \* degenerate: multipliers need not exist
  ELSE /\ \A v \in 1..N: o.lo[v] < o.up[v] =>
          /\ du[v] >= -50 /\ du[N+v] >= -50
          /\ (du[v] > 100 => x[v] <= 1000*o.lo[v] + 30) /\ (du[N+v] > 100 => x[v] >= 1000*o.up[v] - 30)
          /\ Abs(D1(base.obj, x, v) - du[v] + du[N+v] + Sum([j \in 1..m |-> IF Abs(lam(j)) > 8000 THEN ((lam(j) \div 20)*D1(Rows(o)[j], x, v)) \div 50 ELSE (lam(j)*D1(Rows(o)[j], x, v)) \div 1000]))
             <= 60 + Sum([j \in 1..m |-> 1 + ((IF Abs(lam(j)) > 8000 THEN 21 ELSE 1)*Abs(D1(Rows(o)[j], x, v)) + 30*Abs(lam(j))) \div 1000])
       /\ \A j \in 1..m: LET r == Rows(o)[j] a == Val(r, x) t == 30000 + Tol(r, x) IN
          (lam(j) > 100 => r.ub < INF /\ a >= 1000000*r.ub - t) /\ (lam(j) < -100 => r.lb > -INF /\ a <= 1000000*r.lb + t)
AllFixed(o) == \A v \in 1..N: o.lo[v] = o.up[v]
(* as many equalities as free variables: Ipopt solves the system and ignores the objective *)
Square(o) == Cardinality({v \in 1..N: o.lo[v] < o.up[v]}) <= Cardinality({j \in 1..Len(Rows(o)): Rows(o)[j].lb = Rows(o)[j].ub})
(* what may be observed of an object after a solve of the problem f *)
Solved(o, f, e) ==
  CASE e.st = "opt" -> /\ e.hasx /\ Within(o, f, e.x, 1)
                       /\ ~(~Square(o) /\ Better(o, f, Goal(f, e.x) - 3*(IF f.kind = "dist" THEN 20000 ELSE Tol(base.obj, e.x))))
                       /\ Len(e.ac) = Len(Rows(o)) /\ \A j \in 1..Len(Rows(o)): Abs(e.ac[j] - Val(Rows(o)[j], e.x)) <= Tol(Rows(o)[j], e.x)
                       /\ (f.kind # "dist" => Abs(e.obj - Val(base.obj, e.x)) <= Tol(base.obj, e.x))
                       /\ (f.kind = "orig" => (IF AllFixed(o) \/ Square(o) THEN TRUE ELSE Len(e.du) = 2*N + Len(Rows(o)) /\ Kkt(o, e.x, e.du)))
    [] e.st = "inf" -> ~Better(o, f, 2000000000)
    [] OTHER -> FALSE
Sense(r) == IF r.lb <= -INF THEN (IF r.ub >= INF THEN "N" ELSE "L") ELSE IF r.ub >= INF THEN "G" ELSE IF r.lb = r.ub THEN "E" ELSE "R"
Rhs(r) == CASE Sense(r) = "N" -> 0 [] Sense(r) = "G" -> r.lb [] OTHER -> r.ub
(* what may be observed of an object at any time *)
Looks(o, e) ==
  /\ e.n = N /\ e.m = Len(Rows(o)) /\ e.lo = o.lo /\ e.up = o.up /\ e.ty = o.ty
  /\ e.ni = Cardinality({v \in 1..N: o.ty[v] # "C"})
  /\ e.rl = [j \in 1..e.m |-> Rows(o)[j].lb] /\ e.ru = [j \in 1..e.m |-> Rows(o)[j].ub]
  /\ e.se = [j \in 1..e.m |-> Sense(Rows(o)[j])] /\ e.rh = [j \in 1..e.m |-> Rhs(Rows(o)[j])]
  /\ e.rr = [j \in 1..e.m |-> IF Sense(Rows(o)[j]) = "R" THEN Rows(o)[j].ub - Rows(o)[j].lb ELSE 0]
  /\ (o.xk # <<>> => e.hasx /\ e.x = [v \in 1..N |-> 1000*o.xk[v]])
  /\ (o.fresh.kind # "no" => Solved(o, o.fresh, e))
(* -- transitions -- *)
New(b) == [add |-> <<>>, lo |-> b.lo, up |-> b.up, ty |-> b.ty, mode |-> Orig, fresh |-> NotSolved, xk |-> <<>>]
ResetTo(b) == base' = b /\ objs' = <<New(b)>>
Upd(o, r) == objs' = [objs EXCEPT ![o] = r] /\ UNCHANGED base
SetBound(o, v, lo, up) == Upd(o, [objs[o] EXCEPT !.lo[v] = lo, !.up[v] = up, !.fresh = NotSolved])
Solve(o) == Upd(o, [objs[o] EXCEPT !.fresh = objs[o].mode, !.xk = <<>>])
Clone(o) == objs' = Append(objs, objs[o]) /\ UNCHANGED base
Assign(o, p) == Upd(o, objs[p])
AddRows(o, rows) == Upd(o, [objs[o] EXCEPT !.add = @ \o rows, !.fresh = NotSolved, !.xk = <<>>])
DelRows(o, idx) == Upd(o, [objs[o] EXCEPT !.add = LET s == @ keep == SetToSortSeq((1..Len(s)) \ idx, <) IN [i \in 1..Len(keep) |-> s[keep[i]]], !.fresh = NotSolved, !.xk = <<>>])
SetType(o, v, t) == Upd(o, [objs[o] EXCEPT !.ty[v] = t, !.fresh = NotSolved])
SetX(o, x) == Upd(o, [objs[o] EXCEPT !.xk = x, !.fresh = NotSolved])
SetWs(o) == Upd(o, [objs[o] EXCEPT !.fresh = NotSolved, !.xk = <<>>])
Hot(o) == Upd(o, [objs[o] EXCEPT !.fresh = NotSolved, !.xk = <<>>])
Feas(o, f) == Upd(o, [objs[o] EXCEPT !.fresh = f, !.xk = <<>>])
Switch(o, f) == Upd(o, [objs[o] EXCEPT !.mode = f, !.fresh = NotSolved])
=============================================================================
