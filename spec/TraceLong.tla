----------------------------- MODULE TraceLong -----------------------------
(* Runs on problems too large to enumerate, each stopped by some limit (property P04).  The optimum is not known; what all runs      *)
(* on one problem say about it must fit together, and each must keep to its limit and report the best point it came across.          *)
(* State: the interval the optimum is known to lie in after the runs so far, and whether some run showed there is a solution.        *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
None == 2000000000                              \* no value (saturated infinity), values are scaled by 10^4
VARIABLES l, lo, hi, infeas
vars == <<l, lo, hi, infeas>>
Init == l = 1 /\ lo = -None /\ hi = None /\ infeas = FALSE
Ev(n) == l <= Len(Trace) /\ Trace[l].ev = n /\ l' = l + 1
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
(* the report is one of: best point known and proof, best point known, nothing known, proof that there is none *)
Shape(e) == e.sig = 0 /\ e.exc = "none" /\ CASE e.mip \in {0, 2} -> e.has [] e.mip \in {1, 4} -> ~e.has [] OTHER -> FALSE
(* the limits: CPU seconds (in 1/100, with the slack of one step of the search), nodes, simplex/NLP iterations, solutions *)
Kept(e) == /\ (e.tlim >= 0 => e.cpu <= e.tlim + e.slack)
           /\ (e.nlim >= 0 => e.nodes <= e.nlim)
           /\ (e.ilim >= 0 => e.its <= e.ilim + e.islack)
           /\ (e.slim >= 0 => e.nsol <= e.slim + e.sslack)
(* a stop is blamed on a limit that was reached, and what was found before is not lost *)
Blame(e) == e.mip \in {2, 4} => \/ (e.tlim >= 0 /\ e.cpu >= e.tlim - 5) \/ (e.nlim >= 0 /\ e.nodes >= e.nlim) \/ (e.ilim >= 0 /\ e.its >= e.ilim) \/ (e.slim >= 0 /\ e.nsol >= e.slim)
BestKept(e) == (e.nsol > 0 => e.has \/ e.mip = 1) /\ (e.seen < None => e.has /\ e.obj <= e.seen + 20)
PointOk(e) == e.has => e.viol <= 10 /\ e.frac <= 10 /\ e.fx <= e.obj + 20 /\ e.fx >= e.obj - 20
New == Ev("problem") /\ lo' = -None /\ hi' = None /\ infeas' = FALSE
Run == /\ Ev("run")
       /\ LET e == Trace[l]
              nlo == Max(lo, IF e.mip = 0 THEN e.obj ELSE IF e.mip = 1 THEN -None ELSE e.bound)
              nhi == Min(hi, IF e.has THEN e.obj ELSE None)
          IN /\ Shape(e) /\ Kept(e) /\ Blame(e) /\ BestKept(e) /\ PointOk(e)
             /\ infeas' = (infeas \/ e.mip = 1) /\ lo' = nlo /\ hi' = nhi
             /\ (infeas' => nhi = None)
             /\ (nhi < None => nlo <= nhi + 30 /\ e.bound <= nhi + 30)
Next == New \/ Run
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
View == l
=============================================================================
