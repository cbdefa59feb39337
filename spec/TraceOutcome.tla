---------------------------- MODULE TraceOutcome ----------------------------
(* Validates recorded endings of real runs against the Outcome contract and the agreement of all reported numbers (P03).           *)
EXTENDS Outcome, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, cur
vars == <<ovars, l, cur>>
Big == 1000000000
Init == l = 1 /\ phase = "idle" /\ limited = FALSE /\ interrupted = FALSE /\ failed = FALSE /\ nfinal = 0 /\ fin = NoFin /\ cur = [x |-> <<>>, obj |-> 0]
Ev(n) == l <= Len(Trace) /\ Trace[l].ev = n /\ l' = l + 1
A(a) == IF a < 0 THEN -a ELSE a
Near(a, b, t) == A(a - b) <= t
Job == Ev("job") /\ phase \in {"idle", "back"} /\ phase' = "setup" /\ limited' = Trace[l].limited /\ interrupted' = FALSE /\ failed' = FALSE /\ nfinal' = 0 /\ fin' = NoFin /\ cur' = [x |-> <<>>, obj |-> 0]
Started == Ev("started") /\ Start /\ UNCHANGED cur
Nlp == Ev("nlp") /\ Relax(Trace[l].class) /\ UNCHANGED cur
Sig == Ev("sigint") /\ Signal /\ UNCHANGED cur
Finalize == Ev("finalize") /\ LET e == Trace[l] IN
  /\ Final(e.st, e.has) /\ cur' = [x |-> e.x, obj |-> e.obj]
  /\ (e.st # Error => e.n = e.ncols)                             \* the report is about the user's variables
  /\ (~e.has /\ e.st # Unbounded => e.obj >= Big)                \* no solution: no finite value
Ret == Ev("return") /\ LET e == Trace[l] IN
  /\ Return(e.exc, e.mip, e.has) /\ UNCHANGED cur
  /\ e.exc = "none" =>
       /\ e.obj = cur.obj
       /\ (e.has => /\ e.x = cur.x /\ Near(e.obj, e.fx, e.otol) /\ e.viol <= 50          \* value and feasibility (10^-6 units) of the point, evaluated independently
                    /\ \A k \in 1 .. Len(e.intdist) : e.intdist[k] <= 1000                 \* integer variables integral to 1e-3
                    /\ e.bound <= e.obj + 20)
       /\ (e.mip = FeasibleOptimal /\ ~e.gap => e.bound >= e.obj - 20)                    \* a proved optimum closes the gap
       /\ (e.mip = ProvenInfeasible => e.bound >= Big)
       /\ e.nodes >= 0
Exit == Ev("exit") /\ phase = "back" /\ Trace[l].sig = 0 /\ UNCHANGED <<ovars, cur>>
Next == Job \/ Started \/ Nlp \/ Sig \/ Finalize \/ Ret \/ Exit
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
View == l
=============================================================================
