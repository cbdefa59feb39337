------------------------------ MODULE Failures ------------------------------
(* What the solver may do with a nonlinear relaxation that could not be solved.                                                     *)
(*   Attempt(b, c)   one call of the NLP solver over the integer box b, of class                                                    *)
(*                     fine    solved: optimal, infeasible or unbounded                                                             *)
(*                     failed  no answer, but another attempt may succeed                                                           *)
(*                     fatal   no answer and no hope (ill-defined problem, wrong options, ...)                                      *)
(* A failed attempt is followed by attempts over the same box: one without warm start, then N from random points, up to the first   *)
(* that is fine.  If none is, the policy decides: "fathom" may give up this box and nothing else; under "stop" nothing may be  *)
(* given up: the run ends with an error, or gets at the truth in another way (the box is attacked again, or is not needed).          *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES policy, N,   \* nlp_failure_behavior, num_retry_unsolved_random_point
          box, tries,  \* box under attack and failed attempts at it so far (0: none under way)
          lost,        \* boxes given up (policy "fathom" only: under "stop" nothing may be)
          spent,       \* a series of attempts was exhausted
          state        \* "idle", "run", "mustStop", "ended"
fvars == <<policy, N, box, tries, lost, spent, state>>
Begin(p, n) == policy' = p /\ N' = n /\ box' = <<>> /\ tries' = 0 /\ lost' = {} /\ spent' = FALSE /\ state' = "run"
Attempt(b, c) ==
  /\ state = "run" /\ (tries > 0 => b = box) /\ box' = b /\ UNCHANGED <<policy, N>>
  /\ IF c = "fatal" THEN state' = "mustStop" /\ UNCHANGED <<lost, tries, spent>>
     ELSE IF c = "fine" THEN tries' = 0 /\ UNCHANGED <<lost, state, spent>>
     ELSE IF tries + 1 < N + 2 THEN tries' = tries + 1 /\ UNCHANGED <<lost, state, spent>>
     ELSE tries' = 0 /\ spent' = TRUE /\ lost' = (IF policy = "fathom" THEN lost \cup {b} ELSE lost) /\ UNCHANGED state
(* the end: by an error only if some series of attempts was exhausted or a failure was fatal; never in the middle of a series *)
End(err) == /\ state \in {"run", "mustStop"} /\ (state = "run" => tries = 0) /\ (state = "mustStop" => err) /\ (err => state = "mustStop" \/ spent)
            /\ state' = "ended" /\ UNCHANGED <<policy, N, box, tries, lost, spent>>
InBox(x, b) == \A k \in DOMAIN x : b.lo[k] <= x[k] /\ x[k] <= b.hi[k]
Lost(x) == \E b \in lost : InBox(x, b)
=============================================================================
