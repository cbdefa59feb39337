------------------------------- MODULE Minlp -------------------------------
(* Mathematical meaning of the mixed-integer programs the drivers feed to the solver.               *)
(* An instance is a record (read from JSON):                                                        *)
(*   ni, ilb, iub   number of integer variables and their bounds                                    *)
(*   base           quadratic [q : <<i,j,c>>*, l : <<i,c>>*, k] of the integer variables (0-based)  *)
(*   icon           constraints on the integer variables: quadratics with haslb/lb/hasub/ub         *)
(*   cont           continuous variables whose optimal value is a closed form of the integers:      *)
(*                    epi   : minimise w*y, lo <= y <= hi, y >= p(x) for p in ps                    *)
(*                    track : minimise (f.x + b - z)^2, lo <= z <= hi                               *)
(*   sos (optional) special ordered sets [type, idx (ordered), ...] over the integer variables      *)
(* All data are integers, so the optimum over the integer lattice is an integer, computed here by   *)
(* enumeration: this is the oracle against which the solver's answers are judged.                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

QVal(Q, x) == FoldLeft(LAMBDA a, t : a + t[3] * x[t[1] + 1] * x[t[2] + 1], 0, Q.q)
              + FoldLeft(LAMBDA a, t : a + t[2] * x[t[1] + 1], 0, Q.l) + Q.k

MaxOf(a, b) == IF a >= b THEN a ELSE b
MinOf(a, b) == IF a <= b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a

Box(lo, hi) == FoldLeft(LAMBDA S, i : {Append(s, v) : s \in S, v \in lo[i] .. hi[i]}, {<<>>}, [i \in 1 .. Len(lo) |-> i])

SosOf(I) == IF "sos" \in DOMAIN I THEN I.sos ELSE <<>>
SosOk(S, x) ==
  LET nz == {k \in 1 .. Len(S.idx) : x[S.idx[k] + 1] # 0}
  IN  IF S.type = 1 THEN Cardinality(nz) <= 1
      ELSE Cardinality(nz) <= 2 /\ \A a, b \in nz : Abs(a - b) <= 1

ConOk(c, x) == LET v == QVal(c, x) IN (c.haslb => v >= c.lb) /\ (c.hasub => v <= c.ub)

EpiY(c, x) == FoldLeft(LAMBDA a, P : MaxOf(a, QVal(P, x)), c.lo, c.ps)
TrackT(c, x) == FoldLeft(LAMBDA a, t : a + t[2] * x[t[1] + 1], c.b, c.f)
Clamp(v, lo, hi) == MaxOf(lo, MinOf(v, hi))

Feasible(I, x) == /\ \A k \in 1 .. Len(I.icon) : ConOk(I.icon[k], x)
                  /\ \A k \in 1 .. Len(I.cont) : I.cont[k].kind = "epi" => EpiY(I.cont[k], x) <= I.cont[k].hi
                  /\ \A k \in 1 .. Len(SosOf(I)) : SosOk(SosOf(I)[k], x)

Value(I, x) == QVal(I.base, x) +
  FoldLeft(LAMBDA a, c : a + IF c.kind = "epi" THEN c.w * EpiY(c, x)
                             ELSE LET t == TrackT(c, x) d == t - Clamp(t, c.lo, c.hi) IN d * d, 0, I.cont)

Lattice(I) == Box(I.ilb, I.iub)
FeasSet(I) == {x \in Lattice(I) : Feasible(I, x)}
NoOpt == [feas |-> FALSE, val |-> 0]
Optimum(I) == LET F == FeasSet(I) IN
  IF F = {} THEN NoOpt
  ELSE LET V == {Value(I, x) : x \in F} IN [feas |-> TRUE, val |-> CHOOSE v \in V : \A w \in V : v <= w]
=============================================================================
