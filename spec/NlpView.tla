------------------------------ MODULE NlpView ------------------------------
(* What an NLP solver may see of a problem that Bonmin has modified.  A problem is a quadratic objective, rows (quadratic, with bounds)   *)
(* and a box, all with integer data; rows can be appended and removed, the objective replaced by a linear one, the box changed, and the   *)
(* problem copied; on top of it a feasibility problem can be formed: a mixture of the objective with the distance to a point, optionally   *)
(* with a cutoff row on the objective and a local-branching row.  The operators give the exact values and derivatives at integer points,   *)
(* doubled (so that a weight of one half stays integral).                                                                                 *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, Functions
VARIABLES base,     \* [n, obj, con, lo, up]: the user's problem
          objs      \* sequence of problem objects
nvars == <<base, objs>>
Inf2 == 1999999998
N == base.n
Sum(s) == FoldLeft(LAMBDA a, b: a + b, 0, s)
Val(r, x) == r.k + Sum([i \in 1..Len(r.l) |-> r.l[i][2]*x[r.l[i][1]+1]]) + Sum([i \in 1..Len(r.q) |-> r.q[i][3]*x[r.q[i][1]+1]*x[r.q[i][2]+1]])
D1(r, x, v) == Sum([i \in 1..Len(r.l) |-> IF r.l[i][1]+1 = v THEN r.l[i][2] ELSE 0])
             + Sum([i \in 1..Len(r.q) |-> r.q[i][3]*((IF r.q[i][1]+1 = v THEN x[r.q[i][2]+1] ELSE 0) + (IF r.q[i][2]+1 = v THEN x[r.q[i][1]+1] ELSE 0))])
D2(r, u, v) == Sum([i \in 1..Len(r.q) |-> r.q[i][3]*((IF r.q[i][1]+1 = u /\ r.q[i][2]+1 = v THEN 1 ELSE 0) + (IF r.q[i][2]+1 = u /\ r.q[i][1]+1 = v THEN 1 ELSE 0))])
IsLinear(r) == Len(r.q) = 0
NoFp == [obj |-> FALSE, lam2 |-> 2, sigma |-> 1, norm |-> 2, xbar |-> <<>>, inds |-> <<>>, cutoff |-> <<>>, local |-> <<>>]
Fresh == [add |-> <<>>, lin |-> <<>>, c0 |-> 0, lo |-> base.lo, up |-> base.up, fp |-> NoFp]
(* -- the plain view -- *)
ObjRow(o) == IF o.lin = <<>> THEN base.obj ELSE [q |-> <<>>, l |-> [i \in 1..N |-> <<i-1, o.lin[i]>>], k |-> o.c0, lb |-> 0, ub |-> 0]
Rows(o) == base.con \o o.add
B2(b) == IF b >= 100000000 THEN Inf2 ELSE IF b <= -100000000 THEN -Inf2 ELSE 2*b
(* -- the feasibility view; everything doubled -- *)
Fw(o) == IF o.fp.obj THEN (2 - o.fp.lam2)*o.fp.sigma ELSE 2                 \* twice the weight of the objective
Dw(o) == IF o.fp.obj THEN base.scale*o.fp.lam2 ELSE 0                       \* twice the weight of the distance
Low(v) == v <= 0
LinDist(o, x) == Sum([i \in 1..Len(o.fp.inds) |-> IF Low(o.fp.xbar[i]) THEN x[o.fp.inds[i]+1] ELSE 1 - x[o.fp.inds[i]+1]])
LinDistD(o, v) == Sum([i \in 1..Len(o.fp.inds) |-> IF o.fp.inds[i]+1 = v THEN (IF Low(o.fp.xbar[i]) THEN 1 ELSE -1) ELSE 0])
Dist(o, x) == IF o.fp.norm = 2 THEN Sum([i \in 1..Len(o.fp.inds) |-> (x[o.fp.inds[i]+1] - o.fp.xbar[i])*(x[o.fp.inds[i]+1] - o.fp.xbar[i])]) ELSE LinDist(o, x)
DistD(o, x, v) == IF o.fp.norm = 2 THEN Sum([i \in 1..Len(o.fp.inds) |-> IF o.fp.inds[i]+1 = v THEN 2*(x[v] - o.fp.xbar[i]) ELSE 0]) ELSE LinDistD(o, v)
DistH(o, u, v) == IF o.fp.norm = 2 /\ u = v THEN Sum([i \in 1..Len(o.fp.inds) |-> IF o.fp.inds[i]+1 = v THEN 2 ELSE 0]) ELSE 0
HasCut(o) == o.fp.cutoff # <<>>
HasLoc(o) == o.fp.local # <<>>
(* -- what an evaluation must return -- *)
F2(o, fp, x) == IF fp THEN Fw(o)*Val(ObjRow(o), x) + Dw(o)*Dist(o, x) ELSE 2*Val(ObjRow(o), x)
G2(o, fp, x) == [v \in 1..N |-> IF fp THEN Fw(o)*D1(ObjRow(o), x, v) + Dw(o)*DistD(o, x, v) ELSE 2*D1(ObjRow(o), x, v)]
Extra(o, fp) == IF ~fp THEN 0 ELSE (IF HasCut(o) THEN 1 ELSE 0) + (IF HasLoc(o) THEN 1 ELSE 0)
Con2(o, fp, x) == [i \in 1..Len(Rows(o)) |-> 2*Val(Rows(o)[i], x)] \o (IF fp /\ HasCut(o) THEN <<2*Val(ObjRow(o), x)>> ELSE <<>>) \o (IF fp /\ HasLoc(o) THEN <<2*LinDist(o, x)>> ELSE <<>>)
Jac2(o, fp, x) == [i \in 1..Len(Rows(o)) |-> [v \in 1..N |-> 2*D1(Rows(o)[i], x, v)]] \o (IF fp /\ HasCut(o) THEN <<[v \in 1..N |-> 2*D1(ObjRow(o), x, v)]>> ELSE <<>>)
                  \o (IF fp /\ HasLoc(o) THEN <<[v \in 1..N |-> 2*LinDistD(o, v)]>> ELSE <<>>)
Hes2(o, fp, of, lam) == [u \in 1..N |-> [v \in 1..N |->
    (IF fp THEN of*(Fw(o)*D2(ObjRow(o), u, v) + Dw(o)*DistH(o, u, v)) ELSE 2*of*D2(ObjRow(o), u, v))
    + 2*Sum([i \in 1..Len(Rows(o)) |-> lam[i]*D2(Rows(o)[i], u, v)]) + (IF fp /\ HasCut(o) THEN 2*lam[Len(Rows(o))+1]*D2(ObjRow(o), u, v) ELSE 0)]]
Lo2(o, fp) == [i \in 1..Len(Rows(o)) |-> B2(Rows(o)[i].lb)] \o [i \in 1..Extra(o, fp) |-> -Inf2]
Up2(o, fp) == [i \in 1..Len(Rows(o)) |-> B2(Rows(o)[i].ub)] \o (IF fp /\ HasCut(o) THEN <<2*o.fp.cutoff[1]>> ELSE <<>>) \o (IF fp /\ HasLoc(o) THEN <<2*o.fp.local[1]>> ELSE <<>>)
(* how much a point violates a row, as the cut itself reports it *)
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Viol2(r, x) == LET v == 2*Val(r, x) w == Max2(IF r.lb <= -100000000 THEN -2000000 ELSE 2*r.lb - v, IF r.ub >= 100000000 THEN -2000000 ELSE v - 2*r.ub) IN Max2(0, Min2(2000000, w))
(* -- transitions -- *)
ResetTo(b) == base' = b /\ objs' = <<[add |-> <<>>, lin |-> <<>>, c0 |-> 0, lo |-> b.lo, up |-> b.up, fp |-> NoFp]>>
Upd(o, r) == objs' = [objs EXCEPT ![o] = r] /\ UNCHANGED base
AddRows(o, rows) == Upd(o, [objs[o] EXCEPT !.add = @ \o rows])
DelRows(o, idx) == Upd(o, [objs[o] EXCEPT !.add = LET s == @ keep == SetToSortSeq((1..Len(s)) \ idx, <) IN [i \in 1..Len(keep) |-> s[keep[i]]]])
Clone(o) == objs' = Append(objs, objs[o]) /\ UNCHANGED base
Linear(o, c, c0) == Upd(o, [objs[o] EXCEPT !.lin = c, !.c0 = c0])
ResetObj(o) == Upd(o, [objs[o] EXCEPT !.lin = <<>>, !.c0 = 0])
Bounds(o, lo, up) == Upd(o, [objs[o] EXCEPT !.lo = lo, !.up = up])
SetFp(o, fp) == Upd(o, [objs[o] EXCEPT !.fp = fp])
=============================================================================
