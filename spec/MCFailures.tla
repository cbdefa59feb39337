----------------------------- MODULE MCFailures -----------------------------
(* A small branch-and-bound over the points 1..4 driven by an unreliable relaxation solver: whatever the solver does, a run that     *)
(* ends normally is right about everything outside the boxes it gave up, and under "stop" it gives up nothing.                       *)
EXTENDS Failures, TLC
Pts == 1..3
Vals == {0, 1, 9}                      \* 9 = the point is infeasible
VARIABLES val, open, best, failed
mv == <<fvars, val, open, best, failed>>
B(a, b) == [lo |-> <<a>>, hi |-> <<b>>]
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Relax(b) == Min({val[p] : p \in b.lo[1]..b.hi[1]})
Init == /\ policy \in {"stop", "fathom"} /\ N \in 0..1 /\ box = <<>> /\ tries = 0 /\ lost = {} /\ spent = FALSE /\ state = "run"
        /\ val \in [Pts -> Vals] /\ open = {B(1, 3)} /\ best = 9 /\ failed = FALSE
Node == IF tries > 0 THEN {box} ELSE open
Step == \E b \in Node, c \in {"fine", "failed", "fatal"} :
  /\ Attempt(b, c) /\ UNCHANGED <<val, failed>>
  /\ IF c = "fine" THEN
       IF Relax(b) >= best THEN open' = open \ {b} /\ UNCHANGED best
       ELSE IF b.lo = b.hi THEN open' = open \ {b} /\ best' = Relax(b)
       ELSE \E m \in b.lo[1]..(b.hi[1] - 1) : open' = (open \ {b}) \cup {B(b.lo[1], m), B(m + 1, b.hi[1])} /\ UNCHANGED best
     ELSE IF lost' # lost THEN open' = open \ {b} /\ UNCHANGED best
     ELSE UNCHANGED <<open, best>>
Fin == (\E err \in BOOLEAN : (open = {} \/ err) /\ End(err) /\ failed' = err) /\ UNCHANGED <<val, best, open>>
Next == Step \/ Fin
Spec == Init /\ [][Next]_mv
All == {val[p] : p \in Pts}
Rest == {val[p] : p \in {q \in Pts : ~Lost(<<q>>)}} \cup {9}
Right == state = "ended" /\ ~failed => Min(All) <= best /\ best <= Min(Rest)
StopLosesNothing == policy = "stop" => lost = {}
=============================================================================
