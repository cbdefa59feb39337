------------------------------ MODULE MCOsiNlp ------------------------------
(* Model checking of OsiNlp on a small problem (a point with multipliers accepted as optimal beats every feasible lattice point; objects   *)
(* do not influence each other) and generation of histories for the real code.                                                           *)
EXTENDS OsiNlp, TLC, Json
CONSTANTS MaxObjs, MaxRows, MaxLen, Gen
VARIABLES op, hist
B == [n |-> 2, obj |-> [q |-> <<<<0, 0, 1>>, <<1, 1, 2>>>>, l |-> <<<<0, -2>>, <<1, 4>>>>, k |-> 1, lb |-> 0, ub |-> 0],
      con |-> <<[q |-> <<<<1, 1, 1>>>>, l |-> <<<<0, 1>>>>, k |-> 0, lb |-> -100000000, ub |-> 2]>>, lo |-> <<-2, -1>>, up |-> <<2, 1>>, ty |-> <<"I", "C">>]
Pool == <<[q |-> <<>>, l |-> <<<<0, 1>>, <<1, 1>>>>, k |-> 0, lb |-> 1, ub |-> 100000000], [q |-> <<>>, l |-> <<<<0, -1>>>>, k |-> 0, lb |-> 0, ub |-> 0]>>
Init == base = B /\ objs = <<New(B)>> /\ op = <<"start">> /\ hist = <<>>
NP == IF Gen THEN 6 ELSE 2
Row(p) == Pool[((p - 1) % 2) + 1]
Dst(v) == [kind |-> "dist", xbar |-> <<v>>, inds |-> <<0>>, norm |-> 2, cut |-> <<>>, rhs |-> 0]
Vs == IF Gen THEN 1..3 ELSE 1..2
Do == \E o \in 1..Len(objs):
  \/ \E v \in Vs, a \in -1..1, how \in (IF Gen THEN 0..3 ELSE {0}): (Gen \/ v <= 2) /\ SetBound(o, IF v > 2 THEN 2 ELSE v, a, 1) /\ op' = <<"bnd", o, v, a, how>>
  \/ \E k \in (IF Gen THEN 0..4 ELSE {0}): Solve(o) /\ op' = <<"solve", o, k>>
  \/ Len(objs) < MaxObjs /\ Clone(o) /\ op' = <<"clone", o>>
  \/ \E p \in 1..Len(objs): p # o /\ Assign(o, p) /\ op' = <<"assign", o, p>>
  \/ \E p \in 1..NP, how \in (IF Gen THEN 0..2 ELSE {0}): Len(objs[o].add) < MaxRows /\ AddRows(o, <<Row(p)>>) /\ op' = <<"cut", o, <<p>>, how>>
  \/ \E p, q \in 1..NP: p # q /\ Len(objs[o].add) + 1 < MaxRows /\ AddRows(o, <<Row(p), Row(q)>>) /\ op' = <<"cut", o, <<p, q>>, (p + q) % 3>>
  \/ \E s \in SUBSET (1..Len(objs[o].add)): s # {} /\ Cardinality(s) <= 2 /\ DelRows(o, s) /\ op' = <<"del", o, SetToSeq(s)>>
  \/ \E v \in Vs, t \in {0, 1}: SetType(o, IF v > 2 THEN 2 ELSE v, IF t = 1 THEN "I" ELSE "C") /\ op' = <<"type", o, v, t>>
  \/ \E k \in (IF Gen THEN 0..2 ELSE 0..1): SetX(o, IF k = 0 THEN <<>> ELSE <<1, 0>>) /\ op' = <<"setx", o, k>>
  \/ UNCHANGED ovars /\ op' = <<"getws", o>>
  \/ SetWs(o) /\ op' = <<"setws", o>>
  \/ Hot(o) /\ op' = <<"hot", o>>
  \/ \E k \in (IF Gen THEN 0..3 ELSE {0}): Feas(o, Dst(1)) /\ op' = <<"feas", o, k>>
  \/ \E k \in (IF Gen THEN 0..2 ELSE {0}): Switch(o, Dst(1)) /\ op' = <<"switch", o, k>>
  \/ objs[o].mode # Orig /\ Switch(o, Orig) /\ op' = <<"back", o>>
(* generated histories: solves, modifications, copies and the rest take turns *)
Mix == Gen => CASE Len(hist) % 4 = 1 -> op'[1] \in {"solve", "hot", "feas"} [] Len(hist) % 4 = 2 -> op'[1] \in {"clone", "assign", "setws", "getws", "setx", "back", "switch", "solve"}
                [] Len(hist) % 4 = 3 -> op'[1] \in {"cut", "del", "type", "bnd"} [] OTHER -> TRUE
Next == Len(hist) < MaxLen /\ Do /\ Mix /\ hist' = Append(hist, op')
Spec == Init /\ [][Next]_<<ovars, op, hist>>
View2 == <<objs, Len(hist)>>
-----------------------------------------------------------------------------
Z == {0, 2000}
L == {-2000, 0, 2000}
Points == {[v \in 1..2 |-> 1000*y[v]] : y \in [1..2 -> -2..2]} \cup {<<500, 500>>, <<500, -1000>>, <<1000, 500>>}
Mult(o) == IF Len(Rows(o)) > 1 THEN {} ELSE {<<a, b, c, d, e>> : a \in Z, b \in Z, c \in Z, d \in Z, e \in L}
KktSound == \A k \in 1..Len(objs): LET o == objs[k] IN \A x \in Points, u \in Mult(o): Within(o, Orig, x, 0) /\ Kkt(o, x, u) => ~Better(o, Orig, Val(base.obj, x) - 100000)
Isolated == [][op'[1] # "clone" => \A k \in 1..Len(objs): k # op'[2] => objs'[k] = objs[k]]_<<ovars, op, hist>>
Emit == Len(hist) = MaxLen => PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
