--------------------------- MODULE MCBranchBound ---------------------------
(* A concrete best-effort search over a small lattice with an arbitrary cost function: open nodes, relaxation bounds that may be    *)
(* weak by up to Slack, strong branching that fixes variables, pruning against the incumbent and nodes processed in any order.      *)
(* Checked: the search keeps the loop invariant "every lattice point better than the incumbent lies in an open node", so that at    *)
(* the end Finish is enabled (the certificate is complete) and the claim is the true optimum.                                       *)
EXTENDS BranchBound, TLC, SequencesExt
CONSTANTS D, U, Vals, Slack            \* dimension, upper bound of the variables, possible costs, weakness of the relaxations
VARIABLES f, open, inc
vars == <<bbvars, f, open, inc>>
ASSUME D \in Nat /\ U \in Nat
Pts == [1 .. D -> 0 .. U]
Root == [lo |-> [k \in 1 .. D |-> 0], hi |-> [k \in 1 .. D |-> U]]
Tup(p) == [k \in 1 .. D |-> p[k]]
MinF(b) == LET S == {f[p] : p \in {q \in Pts : InBox(Tup(q), b)}} IN CHOOSE v \in S : \A w \in S : v <= w
Init == /\ f \in [Pts -> Vals \union {Inf}] /\ pts = SetToSeq({Tup(p) : p \in Pts}) /\ left = DOMAIN pts /\ target \in Vals \union {Inf} /\ done = FALSE /\ open = {Root} /\ inc = Inf
Relaxed(b, s) == LET m == MinF(b) IN IF m = Inf THEN (IF s = 0 THEN [lo |-> b.lo, hi |-> b.hi, st |-> "infeasible", v |-> 0] ELSE [lo |-> b.lo, hi |-> b.hi, st |-> "optimal", v |-> 3 - s])
                 ELSE [lo |-> b.lo, hi |-> b.hi, st |-> "optimal", v |-> m - s]
Single(b) == b.lo = b.hi
Split(b) == {<<[b EXCEPT !.hi[k] = c], [b EXCEPT !.lo[k] = c + 1]>> : k \in {k \in 1 .. D : b.lo[k] < b.hi[k]}, c \in 0 .. U}
Process == \E b \in open, s \in 0 .. Slack :
  LET r == Relaxed(b, IF Single(b) THEN 0 ELSE s) IN
  /\ Solve(r, 0)
  /\ IF r.st = "infeasible" \/ r.v >= inc THEN open' = open \ {b} /\ UNCHANGED inc
     ELSE IF Single(b) \/ (r.v = MinF(b) /\ s = 0) THEN open' = open \ {b} /\ inc' = r.v       \* integral solution of the relaxation
     ELSE /\ inc' = inc
          /\ \E p \in {q \in Split(b) : \A h \in {1, 2} : Inside(q[h]) # {}} : open' = (open \ {b}) \union {p[1], p[2]}
  /\ UNCHANGED f
(* strong branching: a child is probed; if its relaxation can be discarded, only the other child stays                            *)
Strong == \E b \in open, s \in 0 .. Slack : \E p \in {q \in Split(b) : \A h \in {1, 2} : Inside(q[h]) # {}} : \E h \in {1, 2} :
  LET r == Relaxed(p[h], s) IN
  /\ Solve(r, 0) /\ (r.st = "infeasible" \/ r.v >= inc)
  /\ open' = (open \ {b}) \union {p[3 - h]} /\ UNCHANGED <<f, inc>>
(* a heuristic may find any feasible point at any time                                                                             *)
Heur == \E p \in Pts : ~done /\ f[p] < inc /\ inc' = f[p] /\ UNCHANGED <<bbvars, f, open>>
End == open = {} /\ Finish(inc) /\ UNCHANGED <<f, open, inc>>
Next == Process \/ Strong \/ Heur \/ End
Spec == Init /\ [][Next]_vars
LoopInv == \A p \in Pts : f[p] < inc => (\E b \in open : InBox(Tup(p), b))
CertInv == open = {} /\ inc = target => left = {}                  \* a finished search is a complete certificate of its answer
ClaimRight == done => target = MinF(Root)                           \* and a complete certificate proves the answer (with the point found)
NoFalseCert == left = {} => target <= MinF(Root)                    \* no set of sound relaxations certifies a value that is too high
=============================================================================
