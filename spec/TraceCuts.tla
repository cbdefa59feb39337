----------------------------- MODULE TraceCuts -----------------------------
(* Validation of linearisations made by the real code, after any history of the object, against Cuts.  *)
EXTENDS Cuts, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, exact
tv == <<ovars, l, exact>>
View == l
Init == l = 1 /\ base = [n |-> 0] /\ objs = <<>> /\ exact = TRUE
E == Trace[l]
Ev(n) == l <= Len(Trace) /\ Trace[l].ev = n /\ l' = l + 1
Op(n) == Ev(n) /\ E.exc = "none" /\ UNCHANGED exact
O == objs[E.o]
Glo == IF exact THEN base.lo ELSE O.lo
Gup == IF exact THEN base.up ELSE O.up
TStart == Ev("start") /\ ResetTo(E.base) /\ exact' = E.exact
TBnd == Op("bnd") /\ SetBound(E.o, E.v, E.lo, E.up)
TSolve == Op("solve") /\ Solve(E.o)
TClone == Op("clone") /\ Clone(E.o)
TAssign == Op("assign") /\ Assign(E.o, E.p)
TCut == Op("cut") /\ AddRows(E.o, E.rows)
TDel == Op("del") /\ DelRows(E.o, {E.idx[i]+1 : i \in 1..Len(E.idx)})
TOa == /\ Op("oa") /\ UNCHANGED ovars
       /\ LET P == Pts(O, Glo, Gup) IN \A i \in 1..Len(E.cuts): Keeps(E.cuts[i], P) /\ (HasCol(E.cuts[i]) => Wanted(E.g)) /\ E.cuts[i].glob = E.global
       /\ (exact => /\ \A j \in 1..Len(Rows(O)): LET r == Rows(O)[j] IN (IF Nonlin(r) /\ (IF E.x2 = <<>> THEN TRUE ELSE LinViol(r, E.y, E.x2) > E.theta) THEN Tight(E.cuts, r, E.x) ELSE TRUE)
                    /\ (IF Wanted(E.g) /\ E.x2 = <<>> THEN TightObj(E.cuts, E.x) ELSE TRUE))
TCoa == Op("coa") /\ UNCHANGED ovars /\ Len(E.cuts) = 1 /\ CutsOk(O, E.cuts, E.x, 0, {E.row + 1}, Glo, Gup, exact) /\ E.cuts[1].glob = E.global
TRelax == Op("relax") /\ UNCHANGED ovars /\ RelaxOk(O, E, E.x, E.g, exact)
TBend == Op("bend") /\ UNCHANGED ovars /\ BendersOk(O, E.cuts, E.x, E.opt, exact) /\ \A i \in 1..Len(E.cuts): E.cuts[i].glob = E.global
(* cuts made by the cut generators inside a run of the whole solver: an empty cut only says that there is nothing better here *)
TGen == /\ Ev("gcut") /\ UNCHANGED <<ovars, exact>>
        /\ \A i \in 1..Len(E.cuts): LET c == E.cuts[i] IN IF c.c = <<>> \/ Huge(c) THEN TRUE ELSE Keeps(c, Pts(objs[1], IF c.glob THEN base.lo ELSE E.nlo, IF c.glob THEN base.up ELSE E.nup))
TRun == Ev("run") /\ UNCHANGED <<ovars, exact>>
TExit == Ev("exit") /\ E.sig = 0 /\ UNCHANGED <<ovars, exact>>
Next == TStart \/ TBnd \/ TSolve \/ TClone \/ TAssign \/ TCut \/ TDel \/ TOa \/ TCoa \/ TRelax \/ TBend \/ TGen \/ TRun \/ TExit
Spec == Init /\ [][Next]_tv
Accepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
