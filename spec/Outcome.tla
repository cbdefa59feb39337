------------------------------ MODULE Outcome ------------------------------
(* The life of one run and its report to the user.                                                                                 *)
(*   Start        the search begins (limits in force, continuous problem or not)                                                    *)
(*   Relax(c)     a continuous relaxation ends; class c in {"fine", "recoverable", "fatal"}                                         *)
(*   Final(st, has)   the problem object receives its final report                                                                  *)
(*   Return(exc, mip, has) control comes back to the caller, whose accessors then show mip status and solution                      *)
(* The operators below are the contract: which reports are possible in which state, and how the two views must agree.               *)
EXTENDS Integers
Success == 0  Infeasible == 1  Unbounded == 2  Limit == 3  Interrupt == 4  Error == 5            \* TMINLP::SolverReturn
FeasibleOptimal == 0  ProvenInfeasible == 1  FeasibleOnly == 2  UnboundedOrInfeasible == 3  NoSolutionKnown == 4   \* Bab::MipStatuses
VARIABLES phase,     \* "idle", "setup", "run", "reported", "back"
          limited,   \* a node, time, iteration or solution limit is in force
          interrupted, \* the user interrupted the run (SIGINT)
          failed,    \* some relaxation was not solved (neither optimal nor infeasible)
          nfinal, fin  \* number of final reports, last one [st, has]
ovars == <<phase, limited, interrupted, failed, nfinal, fin>>
NoFin == [st |-> -1, has |-> FALSE]
Mips(st, has) == CASE st = Success -> {FeasibleOptimal} [] st = Infeasible -> {ProvenInfeasible} [] st = Unbounded -> {UnboundedOrInfeasible}
                   [] st \in {Limit, Interrupt} -> {IF has THEN FeasibleOnly ELSE NoSolutionKnown} [] OTHER -> {}
(* which final reports make sense at all *)
FinOk(st, has) == CASE st = Interrupt -> interrupted [] st = Error -> ~has /\ failed [] interrupted -> FALSE [] st = Success -> has [] st = Infeasible -> ~has [] st = Unbounded -> ~has [] st = Limit -> limited [] OTHER -> FALSE
Setup(lim) == phase = "idle" /\ phase' = "setup" /\ limited' = lim /\ interrupted' = FALSE /\ failed' = FALSE /\ nfinal' = 0 /\ fin' = NoFin
(* the user may interrupt at any moment: the run then ends with what it knows, and says so *)
Signal == phase = "run" /\ ~interrupted /\ interrupted' = TRUE /\ UNCHANGED <<phase, limited, failed, nfinal, fin>>
Start == phase = "setup" /\ phase' = "run" /\ UNCHANGED <<limited, interrupted, failed, nfinal, fin>>
Relax(c) == phase \in {"setup", "run"} /\ failed' = (failed \/ c # "fine") /\ UNCHANGED <<phase, limited, interrupted, nfinal, fin>>
Final(st, has) == phase = "run" /\ FinOk(st, has) /\ phase' = "reported" /\ nfinal' = nfinal + 1 /\ fin' = [st |-> st, has |-> has] /\ UNCHANGED <<limited, interrupted, failed>>
(* back in the caller: normally, or with the "unsolved relaxation" exception after an error report (or out of setup, before any run) *)
Return(exc, mip, has) ==
  /\ phase \in {"setup", "reported"} /\ phase' = "back"
  /\ IF phase = "setup" THEN exc = "unsolved" /\ failed
     ELSE IF fin.st = Error THEN exc = "unsolved" /\ ~has
     ELSE exc = "none" /\ has = fin.has /\ mip \in Mips(fin.st, fin.has)
  /\ UNCHANGED <<limited, interrupted, failed, nfinal, fin>>
=============================================================================
