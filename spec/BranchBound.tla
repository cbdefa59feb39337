---------------------------- MODULE BranchBound ----------------------------
(* NLP-based branch-and-bound as a proof search.  The search may do anything it likes (any branching, node order, strong branching, *)
(* bound fixing); what makes its final claim right is that each lattice point is covered by a relaxation that was really solved and *)
(* whose outcome justifies discarding its box.                                                                                     *)
(*   Solve(b, st, v)  a continuous relaxation over the box b (restricted to the integer variables) ended with status st, value v   *)
(*   Finish(val)      the run ends, claiming val as the optimum (Inf = no solution)                                                 *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES pts,      \* the integer points inside the original bounds (a sequence)
          left,     \* indices of the points not yet discarded with justification
          target,   \* the value the run will claim (a prophecy, confirmed by Finish); Inf = no solution
          done
bbvars == <<pts, left, target, done>>
Inf == 2000000000

InBox(x, b) == \A k \in DOMAIN x : b.lo[k] <= x[k] /\ x[k] <= b.hi[k]
(* A solved relaxation justifies discarding its box when the run ends with value val.                *)
Justifies(b, val, tol) == b.st = "infeasible" \/ (b.st = "optimal" /\ b.v >= val - tol)
Inside(b) == {i \in DOMAIN pts : InBox(pts[i], b)}

Begin(P, val) == pts' = P /\ left' = DOMAIN P /\ target' = val /\ done' = FALSE
Solve(b, tol) == ~done /\ left' = (IF Justifies(b, target, tol) THEN left \ Inside(b) ELSE left) /\ UNCHANGED <<pts, target, done>>
Finish(val) == ~done /\ left = {} /\ val = target /\ done' = TRUE /\ UNCHANGED <<pts, left, target>>
=============================================================================
