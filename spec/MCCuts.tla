------------------------------ MODULE MCCuts ------------------------------
(* Model checking of Cuts: linearising convex rows and the objective at any lattice point, cleaning coefficients with the box and adding    *)
(* rows up with nonnegative multipliers keeps every feasible point and is tight; and generation of histories for the real code.            *)
EXTENDS Cuts, TLC, Json
CONSTANTS MaxLen, MaxRows, MaxObjs, Gen
VARIABLES op, hist
Q == {<<<<0, 0, 1>>>>, <<<<0, 0, 1>>, <<1, 1, 2>>>>, <<<<0, 0, 2>>, <<0, 1, 2>>, <<1, 1, 1>>>>, <<<<0, 0, 1>>, <<0, 1, -2>>, <<1, 1, 1>>>>}
Ls == {<<>>, <<<<0, 1>>>>, <<<<0, -1>>, <<1, 2>>>>}
Fs == {[q |-> q, l |-> l, k |-> 0, lb |-> -INF, ub |-> u] : q \in Q, l \in Ls, u \in {1, 4}}
Bs == {[n |-> 2, obj |-> [f EXCEPT !.k = 3], con |-> <<g, h>>, lo |-> <<-2, 0>>, up |-> <<2, 3>>, ty |-> <<"I", "C">>] :
        f \in {x \in Fs: x.ub = 1 /\ x.l # <<>> /\ x.q # <<<<0, 0, 1>>>>}, g \in Fs, h \in {[q |-> <<<<1, 1, 1>>>>, l |-> <<<<0, -2>>>>, k |-> 1, lb |-> -INF, ub |-> 3]}}
Init == /\ op = <<"start">> /\ hist = <<>> /\ base \in (IF Gen THEN {CHOOSE b \in Bs: TRUE} ELSE Bs) /\ objs = <<New(base)>>
Row == [q |-> <<>>, l |-> <<<<0, 1>>, <<1, 1>>>>, k |-> 0, lb |-> -1, ub |-> INF]
K(n) == IF Gen THEN 0..n ELSE {0}
Do == \E o \in 1..Len(objs):
  \/ \E v \in 1..3, a \in -1..1: SetBound(o, IF v > 2 THEN 2 ELSE v, a, 1) /\ op' = <<"bnd", o, v>>
  \/ \E k \in K(4): Solve(o) /\ op' = <<"solve", o, k>>
  \/ Len(objs) < MaxObjs /\ Clone(o) /\ op' = <<"clone", o>>
  \/ \E p \in 1..Len(objs): p # o /\ Assign(o, p) /\ op' = <<"assign", o, p>>
  \/ \E p \in 1..6: Len(objs[o].add) < MaxRows /\ AddRows(o, <<Row>>) /\ op' = <<"cut", o, <<p>>>>
  \/ \E s \in SUBSET (1..Len(objs[o].add)): s # {} /\ Cardinality(s) <= 2 /\ DelRows(o, s) /\ op' = <<"del", o, SetToSeq(s)>>
  \/ \E k \in K(19): UNCHANGED ovars /\ op' = <<"oa", o, k>>
  \/ \E k \in K(3): UNCHANGED ovars /\ op' = <<"coa", o, k>>
  \/ \E k \in K(5): UNCHANGED ovars /\ op' = <<"relax", o, k>>
  \/ \E k \in K(3): UNCHANGED ovars /\ op' = <<"bend", o, k>>
Mix == Len(hist) % 2 = 1 => op'[1] \in {"oa", "coa", "relax", "bend", "solve"}
Next == Gen /\ Len(hist) < MaxLen /\ Do /\ Mix /\ hist' = Append(hist, op')
Spec == Init /\ [][Next]_<<ovars, op, hist>>
Emit == Len(hist) = MaxLen => PrintT(<<"HIST", ToJson(hist)>>)
-----------------------------------------------------------------------------
Box == {y \in [1..N -> -2..3] : \A v \in 1..N: y[v] >= base.lo[v] /\ y[v] <= base.up[v]}
Sound == LET P == Pts(objs[1], base.lo, base.up) IN \A y \in Box:
  LET w == [j \in 1..2 |-> Lin(base.con[j], y)] z == LinObjCut(y) x == [v \in 1..N |-> 1000*y[v]] IN
  /\ \A j \in 1..2: Keeps(w[j], P) /\ Tight(w, base.con[j], x) /\ \A v \in 1..N: Keeps(Cleaned(w[j], v, base.lo, base.up), P)
  /\ Keeps(z, P) /\ TightObj(<<z>>, x)
  /\ \A a, b \in 0..2: Keeps(Aggr(w[1], a, w[2], b, z), P)
(* a linearisation separates exactly the points that violate the row it was made from *)
Separates == \A y \in Box, j \in 1..2: LET x == [v \in 1..N |-> 1000*y[v]] IN (ViolRow(base.con[j], x) > 0) = (ViolLin(Lin(base.con[j], y), x, 0) > 0)
=============================================================================
