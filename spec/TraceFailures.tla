---------------------------- MODULE TraceFailures ---------------------------
(* Runs of the real solver under injected failures of its NLP solver, against Failures and the enumerated optimum.                  *)
(* strict: every NLP call of the run belongs to the main search (no heuristics, no probing, no repeated solves for quality).        *)
EXTENDS Failures, Minlp, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
SC == 10000
VARIABLES l, inst, strict, sofar, cls
tv == <<fvars, l, inst, strict, sofar, cls>>
View == l
Init == l = 1 /\ inst = [ni |-> 0] /\ strict = FALSE /\ sofar = <<>> /\ cls = "" /\ policy = "stop" /\ N = 0 /\ box = <<>> /\ tries = 0 /\ lost = {} /\ spent = FALSE /\ state = "idle"
E == Trace[l]
Ev(n) == l <= Len(Trace) /\ Trace[l].ev = n /\ l' = l + 1
TStart == Ev("inst") /\ inst' = E.oracle /\ strict' = E.strict /\ sofar' = <<>> /\ cls' = "" /\ Begin(E.policy, E.retries)
(* without strictness only what is surely lost is remembered: a box at which the last attempts all failed *)
Loose(b, c) == /\ box' = b /\ cls' = c /\ UNCHANGED <<policy, N, tries, spent, state>>
               /\ lost' = IF c = "failed" /\ policy = "fathom" THEN lost \cup {b} ELSE lost
TNlp == /\ Ev("nlp") /\ UNCHANGED <<inst, strict, sofar>>
        /\ LET b == [lo |-> E.lo, hi |-> E.hi] IN IF strict THEN Attempt(b, E.class) /\ UNCHANGED cls ELSE Loose(b, E.class)
Rnd(v) == IF v >= 0 THEN (v + SC \div 2) \div SC ELSE -((-v + SC \div 2) \div SC)
Vals(S) == {Value(inst, x) : x \in S}
(* (the node given up along with an NLP whose integers are all fixed, or on the LP side, is larger than that NLP's box: nothing is    *)
(* known about the rest then)                                                                                                       *)
Point(b) == b.lo = b.hi
Answer == LET F == FeasSet(inst) K == IF (\E b \in lost : E.lp \/ Point(b)) THEN {} ELSE {x \in F : ~Lost(x)} IN
  /\ E.mip \in {0, 1} /\ (E.has <=> E.mip = 0)
  /\ IF E.has THEN LET x == [k \in 1..inst.ni |-> Rnd(E.xi[k])] IN
                      /\ x \in F /\ E.obj >= SC*Value(inst, x) - 20 /\ E.obj <= SC*Value(inst, x) + 20
                      /\ \A v \in Vals(K) : E.obj <= SC*v + 20
                 ELSE K = {}
TRet == /\ Ev("return") /\ UNCHANGED <<inst, strict, sofar, cls>> /\ E.sig = 0
        /\ (E.exc # "none" => E.exc = "unsolved")
        /\ IF strict THEN End(E.exc = "unsolved") ELSE state' = "ended" /\ UNCHANGED <<policy, N, box, tries, lost, spent>>
        /\ (IF E.exc = "none" THEN Answer ELSE ~E.has)

Next == TStart \/ TNlp \/ TRet
Spec == Init /\ [][Next]_tv
Accepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
