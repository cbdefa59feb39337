---------------------------- MODULE TraceNlpView ----------------------------
(* Validation of what the real derived NLPs return, step by step, against NlpView.                                                      *)
EXTENDS NlpView, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
tv == <<nvars, l>>
View == l
Init == l = 1 /\ base = [n |-> 0] /\ objs = <<>>
E == Trace[l]
Ev(n) == l <= Len(Trace) /\ Trace[l].ev = n /\ l' = l + 1
TStart == Ev("start") /\ ResetTo(E.base)
(* how = 2, 3: a collection that keeps quadratic cuts apart puts them before the linear ones *)
Arranged(rows, how, isq) == IF how < 2 THEN rows ELSE LET qs == SelectSeq([i \in 1..Len(rows) |-> i], LAMBDA i: isq[i]) ls == SelectSeq([i \in 1..Len(rows) |-> i], LAMBDA i: ~isq[i])
                            IN [i \in 1..Len(qs) |-> rows[qs[i]]] \o [i \in 1..Len(ls) |-> rows[ls[i]]]
TAdd == Ev("add") /\ AddRows(E.o, Arranged(E.rows, E.how, E.isq)) /\ \A i \in 1..Len(E.rows): Max2(0, E.viol[i]) = Viol2(E.rows[i], E.x)
TDel == Ev("del") /\ DelRows(E.o, {E.idx[i]+1 : i \in 1..Len(E.idx)})
TClone == Ev("clone") /\ Clone(E.o)
TDrop == Ev("drop") /\ UNCHANGED nvars
TLin == Ev("lin") /\ Linear(E.o, E.c, E.c0)
TReset == Ev("reset") /\ ResetObj(E.o)
TBnd == Ev("bnd") /\ Bounds(E.o, [i \in 1..N |-> IF i = E.i + 1 /\ E.setlo THEN E.lo ELSE objs[E.o].lo[i]], [i \in 1..N |-> IF i = E.i + 1 /\ E.setup THEN E.up ELSE objs[E.o].up[i]])
TBnds == Ev("bnds") /\ Bounds(E.o, IF E.which = 2 THEN objs[E.o].lo ELSE E.lo, IF E.which = 1 THEN objs[E.o].up ELSE E.up)
TFp == Ev("fp") /\ SetFp(E.o, E.fp)
TEval == /\ Ev("eval") /\ UNCHANGED nvars
         /\ LET o == objs[E.o] fp == E.fp IN
            /\ E.ok /\ ~E.over /\ E.range /\ E.n = N /\ E.m = Len(Rows(o)) + Extra(o, fp)
            /\ E.lo = [i \in 1..N |-> B2(o.lo[i])] /\ E.up = [i \in 1..N |-> B2(o.up[i])]
            /\ E.rlo = Lo2(o, fp) /\ E.rup = Up2(o, fp)
            /\ (fp /\ HasCut(o) => LET c == o.fp.cutoff[1] d == E.rupx[Len(Rows(o))+1] IN d > 0 /\ d <= 1 + (IF c < 0 THEN -c ELSE c))     \* the cutoff row asks for a strict improvement
            /\ E.f = F2(o, fp, E.x) /\ E.grad = G2(o, fp, E.x) /\ E.g = Con2(o, fp, E.x) /\ E.jac = Jac2(o, fp, E.x) /\ E.hes = Hes2(o, fp, E.of, E.lam)
            /\ (~fp => E.giok /\ E.gi = Con2(o, FALSE, E.x) /\ E.ggi = Jac2(o, FALSE, E.x) /\ (\A i \in 1..Len(Rows(o)): E.linear[i] => IsLinear(Rows(o)[i])) /\ E.nrows = Len(Rows(o)))
TExit == Ev("exit") /\ E.sig = 0 /\ UNCHANGED nvars
Next == TStart \/ TAdd \/ TDel \/ TClone \/ TDrop \/ TLin \/ TReset \/ TBnd \/ TBnds \/ TFp \/ TEval \/ TExit
Spec == Init /\ [][Next]_tv
Accepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
