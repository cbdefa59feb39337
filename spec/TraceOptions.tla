---------------------------- MODULE TraceOptions ----------------------------
(* Trace validation for P10.  Events: new, give(src, set, refused), start(file, set, refused), report(setup, copy, search, cuts, heur).   *)
EXTENDS Options, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
vars == <<ovars, l>>
Init == l = 1 /\ OInit
Ev(n) == l <= Len(Trace) /\ Trace[l].ev = n /\ l' = l + 1
New == Ev("new") /\ given' = [t \in {} |-> None] /\ read' = FALSE /\ ready' = FALSE
DoGive == Ev("give") /\ Give(Trace[l].src, Trace[l].set, Trace[l].refused)
DoStart == Ev("start") /\ Start(Trace[l].file, Trace[l].set, Trace[l].refused)
Same(r) == \A n \in DOMAIN r : r[n] = Want(n)
Report == /\ Ev("report") /\ ready /\ UNCHANGED ovars
          /\ LET e == Trace[l] IN
               /\ e.exc = "none" /\ Same(e.setup) /\ DOMAIN e.setup = DOMAIN Params /\ Same(e.copy) /\ DOMAIN e.copy = DOMAIN Params /\ Same(e.search)
               /\ {<<e.cuts[k][1], e.cuts[k][2]>> : k \in 1 .. Len(e.cuts)} = Generators /\ {<<e.ccuts[k][1], e.ccuts[k][2]>> : k \in 1 .. Len(e.ccuts)} = Generators
               /\ {e.heur[k] : k \in 1 .. Len(e.heur)} \cap (Askable \cup {"FPump"}) = Asked \cup Pump(e.general)
Next == New \/ DoGive \/ DoStart \/ Report
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
View == l
=============================================================================
