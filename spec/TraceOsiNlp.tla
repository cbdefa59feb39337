---------------------------- MODULE TraceOsiNlp ----------------------------
(* Validation of histories of the real solver-interface objects against OsiNlp.  *)
EXTENDS OsiNlp, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
tv == <<ovars, l>>
View == l
Init == l = 1 /\ base = [n |-> 0] /\ objs = <<>>
E == Trace[l]
Ev(n) == l <= Len(Trace) /\ Trace[l].ev = n /\ l' = l + 1
Op(n) == Ev(n) /\ E.exc = "none"
TStart == Ev("start") /\ ResetTo(E.base)
TLook == Ev("look") /\ UNCHANGED ovars /\ Len(E.objs) = Len(objs) /\ \A k \in 1..Len(objs): Looks(objs[k], E.objs[k])
TBnd == Op("bnd") /\ SetBound(E.o, E.v, E.lo, E.up)
TSolve == Op("solve") /\ Solve(E.o)
TClone == Op("clone") /\ Clone(E.o)
TAssign == Op("assign") /\ Assign(E.o, E.p)
TCut == Op("cut") /\ AddRows(E.o, E.rows)
TDel == Op("del") /\ DelRows(E.o, {E.idx[i]+1 : i \in 1..Len(E.idx)})
TType == Op("type") /\ SetType(E.o, E.v, E.t)
TSetX == Op("setx") /\ SetX(E.o, E.x)
TGetWs == Op("getws") /\ UNCHANGED ovars
TSetWs == Op("setws") /\ E.acc /\ SetWs(E.o)
(* every solve of the hot-start sequence answers for the box it was given *)
THot == /\ Op("hot") /\ Len(E.seq) = Len(E.steps)
        /\ \A i \in 1..Len(E.seq): LET s == E.steps[i] o == [objs[E.o] EXCEPT !.lo[s.v] = s.lo, !.up[s.v] = s.up, !.fresh = objs[E.o].mode, !.xk = <<>>] IN Looks(o, E.seq[i])
        /\ Hot(E.o)
TFeas == Op("feas") /\ Feas(E.o, E.f)
TSwitch == Op("switch") /\ Switch(E.o, E.f)
TBack == Op("back") /\ Switch(E.o, Orig)
TExit == Ev("exit") /\ E.sig = 0 /\ UNCHANGED ovars
Next == TStart \/ TLook \/ TBnd \/ TSolve \/ TClone \/ TAssign \/ TCut \/ TDel \/ TType \/ TSetX \/ TGetWs \/ TSetWs \/ THot \/ TFeas \/ TSwitch \/ TBack \/ TExit
Spec == Init /\ [][Next]_tv
Accepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
