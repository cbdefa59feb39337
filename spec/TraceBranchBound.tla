-------------------------- MODULE TraceBranchBound --------------------------
(* Checks that a recorded run of the real NLP branch-and-bound is a complete certificate (property P02).                           *)
(* Events: inst (problem), nlp (one relaxation solved: integer box, status, value*10^4), end (final claim).                        *)
EXTENDS BranchBound, Minlp, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
SC == 10000
TOL == 3                                   \* pruning tolerance, 3e-4 (cutoff decrement 1e-5, solver tolerance)
VARIABLES l, inst, vals
vars == <<bbvars, l, inst, vals>>
Init == l = 1 /\ inst = [ni |-> 0] /\ pts = <<>> /\ left = {} /\ target = 0 /\ done = TRUE /\ vals = <<>>
Ev(n) == l <= Len(Trace) /\ Trace[l].ev = n /\ l' = l + 1
Val(e) == IF e.has THEN e.obj ELSE Inf
NewInst == Ev("inst") /\ LET I == Trace[l].oracle P == SetToSeq(Lattice(I)) IN
  /\ inst' = I /\ Begin(P, Val(Trace[l])) /\ vals' = [i \in DOMAIN P |-> IF Feasible(I, P[i]) THEN SC * Value(I, P[i]) ELSE Inf]
(* A relaxation: integral ends inside the original bounds; its outcome must be true of the lattice points in its box.              *)
Sound(b) == CASE b.st = "infeasible" -> \A i \in Inside(b) : vals[i] = Inf
              [] b.st = "optimal"    -> \A i \in Inside(b) : b.v <= vals[i] + 20
              [] OTHER               -> TRUE
Nlp == Ev("nlp") /\ LET e == Trace[l] b == [lo |-> e.lo, hi |-> e.hi, st |-> e.st, v |-> e.v] IN
  /\ e.integral /\ \A k \in 1 .. inst.ni : inst.ilb[k] <= e.lo[k] /\ e.hi[k] <= inst.iub[k]
  /\ e.contsame
  /\ Sound(b) /\ Solve(b, TOL) /\ UNCHANGED <<inst, vals>>
End == Ev("end") /\ Trace[l].sig = 0 /\ Trace[l].exc = "none" /\ Finish(Val(Trace[l]))
  /\ (target # Inf => \E i \in DOMAIN pts : Abs(vals[i] - target) <= 20) /\ UNCHANGED <<inst, vals>>
Next == NewInst \/ Nlp \/ End
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
View == l
=============================================================================
