----------------------------- MODULE MCOutcome -----------------------------
(* Design model of the driver's ending (Bab::branchAndBound): search, incumbents, limits, failures and the mapping of how the       *)
(* search stopped to the report; checked: every behaviour obeys the Outcome contract (it never gets stuck before reporting), and    *)
(* what is reported is true of the search.                                                                                          *)
EXTENDS Outcome
CONSTANT MaxSolve
VARIABLES inc, stop, n, cont, rep       \* incumbent known; why the search stopped; number of relaxations; continuous problem; report returned
vars == <<ovars, inc, stop, n, cont, rep>>
Init == phase = "idle" /\ limited = FALSE /\ interrupted = FALSE /\ failed = FALSE /\ nfinal = 0 /\ fin = NoFin /\ inc = FALSE /\ stop = "none" /\ n = 0 /\ cont \in BOOLEAN /\ rep = -1
Un == UNCHANGED <<cont, rep>>
DoSetup == \E lim \in BOOLEAN : Setup(lim) /\ UNCHANGED <<inc, stop, n>> /\ Un
DoStart == Start /\ stop = "none" /\ UNCHANGED <<inc, stop, n>> /\ Un
DoRelax == \E c \in {"fine", "recoverable", "fatal"} : stop = "none" /\ n < MaxSolve /\ stop = "none" /\ Relax(c) /\ n' = n + 1 /\ inc' \in {inc, inc \/ (c = "fine" /\ phase = "run")}
           /\ stop' = (IF c = "fatal" THEN "fatal" ELSE stop) /\ Un
Complete == phase = "run" /\ stop = "none" /\ stop' \in {"complete", "unbounded"} /\ (stop' = "unbounded" => ~inc) /\ UNCHANGED <<ovars, inc, n>> /\ Un
HitLimit == phase = "run" /\ stop = "none" /\ limited /\ stop' = "limit" /\ UNCHANGED <<ovars, inc, n>> /\ Un
DoSignal == stop = "none" /\ Signal /\ UNCHANGED <<inc, stop, n>> /\ Un
Report == phase = "run" /\ stop # "none" /\ UNCHANGED <<inc, stop, n>> /\ Un
  /\ CASE stop = "fatal" -> Final(Error, FALSE) [] interrupted -> Final(Interrupt, inc /\ stop # "unbounded") [] stop = "limit" -> Final(Limit, inc) [] stop = "unbounded" -> Final(Unbounded, FALSE)
       [] stop = "complete" -> Final(IF inc THEN Success ELSE Infeasible, inc)
Back == \E e \in {"none", "unsolved"}, m \in 0 .. 4 : Return(e, m, (phase = "reported") /\ fin.has) /\ rep' = m /\ UNCHANGED <<inc, stop, n, cont>>
Next == DoSetup \/ DoStart \/ DoRelax \/ Complete \/ HitLimit \/ DoSignal \/ Report \/ Back
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
OneReport == nfinal <= 1 /\ (phase = "back" /\ stop \notin {"none"} /\ ~(failed /\ nfinal = 0) => nfinal = 1)
Honest == phase = "back" /\ nfinal = 1 => /\ (rep = FeasibleOptimal => failed \/ (stop = "complete" /\ inc)) /\ (fin.has <=> inc /\ fin.st # Error)
                                         /\ (fin.st = Success => stop = "complete" /\ ~interrupted) /\ (fin.st = Infeasible => ~interrupted)
Ends == <>(phase = "back")
=============================================================================
