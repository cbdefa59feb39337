---------------------------- MODULE TraceAnswers ----------------------------
(* Trace validation of complete solver runs (property P01).                                         *)
(* Events:  inst   a problem (resets the oracle)                                                    *)
(*          run    the outcome of one complete run on it, under any algorithm and options           *)
(* Real numbers are logged scaled by 10^4 and saturated to 32 bits.                                 *)
EXTENDS Minlp, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
SC == 10000
VARIABLES l, inst, opt
vars == <<l, inst, opt>>
Init == l = 1 /\ inst = [ni |-> 0] /\ opt = NoOpt

Near(a, b, tol) == Abs(a - b) <= tol
Rnd(v) == IF v >= 0 THEN (v + SC \div 2) \div SC ELSE -((-v + SC \div 2) \div SC)
IntPart(xi) == [k \in 1 .. Len(xi) |-> Rnd(xi[k])]

(* The point handed to the user: integral, feasible, and worth what the solver says it is worth.    *)
PointOk(I, e) ==
  LET x == IntPart(e.xi) IN
    /\ Len(e.xi) = I.ni /\ Len(e.xc) = Len(I.cont)
    /\ \A k \in 1 .. I.ni : Near(e.xi[k], SC * x[k], 10) /\ x[k] >= I.ilb[k] /\ x[k] <= I.iub[k]
    /\ Feasible(I, x)
    /\ \A k \in 1 .. Len(I.cont) : LET c == I.cont[k] IN
         IF c.kind = "epi" THEN e.xc[k] >= SC * EpiY(c, x) - 20 /\ e.xc[k] <= SC * c.hi + 20
         ELSE e.xc[k] >= SC * c.lo - 20 /\ e.xc[k] <= SC * c.hi + 20
    /\ e.obj >= SC * Value(I, x) - 10

TightPoint(I, e) ==
  LET x == IntPart(e.xi) IN
    /\ Near(e.obj, SC * Value(I, x), e.tol)
    /\ \A k \in 1 .. Len(I.cont) : LET c == I.cont[k] IN
         IF c.kind = "epi" THEN Near(e.xc[k], SC * EpiY(c, x), 20 + e.tol)
         ELSE Near(e.xc[k], SC * Clamp(TrackT(c, x), c.lo, c.hi), 500 + 4 * e.tol)

(* A complete run ends with the right answer: optimal value and a point attaining it, or a correct   *)
(* claim of infeasibility; and its dual bound never exceeds the optimum.                             *)
Exact(I, o, e) ==
  IF o.feas THEN /\ e.mip = 0 /\ e.has /\ PointOk(I, e) /\ TightPoint(I, e)
                 /\ Near(e.obj, SC * o.val, e.tol) /\ e.bound <= SC * o.val + 10
            ELSE e.mip = 1 /\ ~e.has

(* A run given a cutoff the optimum does not beat finds nothing; a run stopped early may have found nothing *)
(* or anything feasible, but may not claim more than what is true.                                         *)
Stopped(I, o, e) ==
  /\ (e.mip = 1 => ~o.feas \/ (e.cut < 2000000000 /\ SC * o.val >= e.cut - 20))
  /\ (e.mip = 0 => o.feas /\ Near(e.obj, SC * o.val, e.tol))
  /\ (e.has => PointOk(I, e) /\ e.mip \in {0, 2})
  /\ (e.mip \in {0, 2} => e.has)
  /\ (e.seen < 2000000000 => e.has /\ e.obj <= e.seen + 20)               \* the best point the run came across is not lost
  /\ (o.feas /\ SC * o.val < e.cut - 20 => e.bound <= SC * o.val + 10)

CutRun(I, o, e) ==
  IF o.feas /\ SC * o.val < e.cut - 20 THEN Exact(I, o, e)
  ELSE IF o.feas /\ SC * o.val <= e.cut + 20 THEN Stopped(I, o, e)
  ELSE e.mip = 1 /\ ~e.has

(* A run allowed to stop within a gap of the optimum: the point is feasible and no worse than that, the bound stays valid.       *)
GapRun(I, o, e) ==
  IF o.feas THEN /\ e.mip = 0 /\ e.has /\ PointOk(I, e) /\ e.obj <= SC * o.val + e.gap + 20 /\ e.obj >= SC * o.val - 20 /\ e.bound <= (IF e.slack THEN e.obj ELSE SC * o.val) + 20
            ELSE e.mip = 1 /\ ~e.has

(* The limit itself: never exceeded, and blamed only when it was reached.                                                        *)
LimitOk(e) == /\ (e.nlim >= 0 => e.nodes <= e.nlim /\ (e.mip \in {2, 4} => e.nodes >= e.nlim))
              /\ (e.slim >= 0 /\ e.mip \in {2, 4} => e.has /\ e.nsol >= e.slim) \* stopped by the number of solutions: they are there
              /\ (e.slim >= 0 /\ e.sstrict => e.nsol <= e.slim)            \* (the pumps of B-Hyb and B-iFP may pass several at once)

RunOk(I, o, e) == /\ e.sig = 0 /\ e.exc = "none"
                  /\ LimitOk(e)
                  /\ CASE e.mode = "exact" -> Exact(I, o, e)
                       [] e.mode = "cutoff" -> CutRun(I, o, e)
                       [] e.mode = "stopped" -> Stopped(I, o, e)
                       [] e.mode = "gap" -> GapRun(I, o, e)

Ev(n) == l <= Len(Trace) /\ Trace[l].ev = n /\ l' = l + 1
NewInst == Ev("inst") /\ inst' = Trace[l].oracle /\ opt' = Optimum(Trace[l].oracle)
Run == Ev("run") /\ RunOk(inst, opt, Trace[l]) /\ UNCHANGED <<inst, opt>>
Next == NewInst \/ Run
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
View == l
=============================================================================
