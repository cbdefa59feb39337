----------------------------- MODULE MCNlpView -----------------------------
(* Model checking of NlpView: for every problem reachable by a few modifications the operators are a consistent NLP: first derivatives are    *)
(* the exact central differences of the values, the Hessian of the Lagrangian the exact second differences, the cutoff row bounds the      *)
(* objective itself, and objects do not influence each other.  The same next-state relation generates histories for the real code.        *)
EXTENDS NlpView, TLC, Json
CONSTANTS MaxObjs, MaxRows, MaxLen, AllFps
VARIABLES op, hist
B == [n |-> 2, scale |-> 3, obj |-> [q |-> <<<<0, 0, 1>>, <<0, 1, -2>>>>, l |-> <<<<1, 3>>>>, k |-> 1, lb |-> 0, ub |-> 0],
      con |-> <<[q |-> <<<<1, 1, 2>>>>, l |-> <<<<0, 1>>>>, k |-> 0, lb |-> -100000000, ub |-> 4]>>, lo |-> <<-2, -2>>, up |-> <<2, 2>>]
Pool == <<[q |-> <<>>, l |-> <<<<0, 1>>, <<1, 1>>>>, k |-> 0, lb |-> 0, ub |-> 100000000],
          [q |-> <<<<0, 0, 1>>, <<1, 1, -1>>>>, l |-> <<>>, k |-> 2, lb |-> -3, ub |-> 3],
          [q |-> <<<<0, 1, 3>>>>, l |-> <<<<1, -2>>>>, k |-> 0, lb |-> -100000000, ub |-> 1]>>
NP == IF AllFps THEN 6 ELSE Len(Pool)
Hows == IF AllFps THEN 0..3 ELSE {0}
SmallFps == [obj : BOOLEAN, lam2 : 0..2, sigma : {2}, norm : {1, 2}, xbar : {<<0, 1>>}, inds : {<<0, 1>>}, cutoff : {<<>>, <<3>>}, local : {<<>>, <<1>>}]
BigFps == [obj : BOOLEAN, lam2 : 0..2, sigma : {1, 2}, norm : {1, 2}, xbar : {<<0, 1>>, <<1, 0>>}, inds : {<<0, 1>>}, cutoff : {<<>>, <<3>>, <<0>>, <<-2>>}, local : {<<>>, <<1>>}]
       \cup [obj : {TRUE}, lam2 : {1, 2}, sigma : {1}, norm : {1, 2}, xbar : {<<1>>}, inds : {<<0>>, <<1>>}, cutoff : {<<>>, <<3>>}, local : {<<>>, <<1>>}]
Fps == IF AllFps THEN BigFps ELSE SmallFps
Init == base = B /\ objs = <<[add |-> <<>>, lin |-> <<>>, c0 |-> 0, lo |-> B.lo, up |-> B.up, fp |-> NoFp]>> /\ op = <<"start">> /\ hist = <<>>
Row(p) == Pool[((p - 1) % Len(Pool)) + 1]
Do == \E o \in 1..Len(objs):
  \/ \E p \in 1..NP, how \in Hows: Len(objs[o].add) < MaxRows /\ AddRows(o, <<Row(p)>>) /\ op' = <<"add", o, how, <<p>>>>
  \/ \E p, q \in 1..NP, how \in Hows: p # q /\ Len(objs[o].add) + 1 < MaxRows /\ AddRows(o, <<Row(p), Row(q)>>) /\ op' = <<"add", o, how, <<p, q>>>>
  \/ \E s \in SUBSET (1..Len(objs[o].add)): s # {} /\ Cardinality(s) <= 2 /\ DelRows(o, s) /\ op' = <<"del", o, SetToSeq(s)>>
  \/ Len(objs) < MaxObjs /\ Clone(o) /\ op' = <<"clone", o>>
  \/ \E c \in {<<1, 0>>, <<-1, 2>>}, k \in {0, 5}: Linear(o, c, k) /\ op' = <<"lin", o, c[1], c[2], k>>
  \/ objs[o].lin # <<>> /\ ResetObj(o) /\ op' = <<"reset", o>>
  \/ \E i \in 1..2, v \in -2..0, w \in 1..2: Bounds(o, [objs[o].lo EXCEPT ![i] = v], [objs[o].up EXCEPT ![i] = w]) /\ op' = <<"bnd", o, i, v, w>>
  \/ \E w \in 0..2: Bounds(o, IF w = 2 THEN objs[o].lo ELSE <<-1, -1>>, IF w = 1 THEN objs[o].up ELSE <<1, 2>>) /\ op' = <<"bnds", o, w>>
  \/ \E f \in Fps: SetFp(o, f) /\ op' = <<"fp", o, f>>
(* generated histories: every kind of operation has its turn *)
Mix == AllFps => CASE Len(hist) % 5 = 0 -> op'[1] = "add" [] Len(hist) % 5 = 2 -> op'[1] = "fp" [] Len(hist) % 5 = 4 -> op'[1] \notin {"add", "fp"} [] OTHER -> op'[1] # "fp"
Next == Len(hist) < MaxLen /\ Do /\ Mix /\ hist' = Append(hist, op')
Spec == Init /\ [][Next]_<<nvars, op, hist>>
View2 == <<objs, Len(hist)>>
-----------------------------------------------------------------------------
Pts == {<<-1, 1>>, <<2, -1>>, <<0, 1>>}
Sh(x, v, d) == [x EXCEPT ![v] = @ + d]
Lam(o, fp) == [i \in 1..Len(Rows(o))+2 |-> (i % 3) - 1]
LagG(o, fp, x, v) == LET g == G2(o, fp, x) j == Jac2(o, fp, x) IN 3*g[v] + Sum([i \in 1..Len(j) |-> Lam(o, fp)[i]*j[i][v]])
Consistent == \A k \in {Len(objs)}, fp \in BOOLEAN, x \in Pts: LET o == objs[k] IN
  /\ \A v \in 1..2: F2(o, fp, Sh(x, v, 1)) - F2(o, fp, Sh(x, v, -1)) = 2*G2(o, fp, x)[v]
  /\ \A v \in 1..2: LET a == Con2(o, fp, Sh(x, v, 1)) b == Con2(o, fp, Sh(x, v, -1)) j == Jac2(o, fp, x) IN \A i \in 1..Len(j): a[i] - b[i] = 2*j[i][v]
  /\ \A u, v \in 1..2: LagG(o, fp, Sh(x, u, 1), v) - LagG(o, fp, Sh(x, u, -1), v) = 2*Hes2(o, fp, 3, Lam(o, fp))[u][v]
Shapes == \A k \in 1..Len(objs): LET o == objs[k] IN Len(Lo2(o, TRUE)) = Len(Up2(o, TRUE)) /\ Len(Lo2(o, TRUE)) = Len(Con2(o, TRUE, <<0, 0>>))
CutRow == \A k \in 1..Len(objs), x \in Pts: LET o == objs[k] IN HasCut(o) => Con2(o, TRUE, x)[Len(Rows(o))+1] = F2(o, FALSE, x)
Isolated == [][op'[1] # "clone" => \A k \in 1..Len(objs): k # op'[2] => objs'[k] = objs[k]]_<<nvars, op, hist>>
Emit == Len(hist) = MaxLen => PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
