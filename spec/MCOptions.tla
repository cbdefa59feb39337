------------------------------ MODULE MCOptions ------------------------------
(* Exploration of Options (invariants) and generation of option histories for the conformance replay.  *)
EXTENDS Options, Json
CONSTANTS MaxLen, Gen, Use
VARIABLE hist
vars == <<ovars, hist>>
Init == OInit /\ hist = <<>>
Sample == IF Gen THEN Names ELSE Use
Vals(n) == Table[n].ok \cup Table[n].no
Srcs == {"string", "file", "api"}
Some(S) == IF Gen THEN {RandomElement(S)} ELSE S
Do(src, s) == LET r == Take(given, s, src) IN Give(src, s, r.refused) /\ hist' = Append(hist, [op |-> "give", src |-> src, set |-> s])
GiveOne == \E src \in Some(Srcs), f \in Some(BOOLEAN), n \in Some(Sample) : \E v \in Some(Vals(n)) : Do(src, <<<<f, n, v>>>>)
GiveTwo == \E src \in Some(Srcs), f \in Some(BOOLEAN), g \in Some(BOOLEAN), n \in Some(Sample), m \in Some(Sample) : \E v \in Some(Vals(n)), w \in Some(Vals(m)) : Do(src, <<<<f, n, v>>, <<g, m, w>>>>)
(* generation only: several legal assignments at once, and the algorithm *)
GiveMany == Gen /\ \E src \in Some(Srcs) : LET A(k) == LET n == RandomElement(Names) IN <<RandomElement(BOOLEAN), n, RandomElement(Table[n].ok)>> IN Do(src, [k \in 1 .. 6 |-> A(k)])
GiveAlgo == Gen /\ \E src \in Some(Srcs), f \in Some(BOOLEAN), v \in Some(Table["algorithm"].ok) : Do(src, <<<<f, "algorithm", v>>>>)
GiveAgain == Gen /\ DOMAIN given # {} /\ \E src \in Some(Srcs), t \in Some(DOMAIN given), g \in Some(BOOLEAN) : \E v \in Some(Vals(t[2])) : Do(src, <<<<g, t[2], v>>>>)
GiveUnknown == \E src \in Some(Srcs) : Do(src, <<<<TRUE, "no_such_option", "1">>>>)
Go == \E file \in Some(BOOLEAN), f \in Some(BOOLEAN), n \in Some(Sample) : \E v \in Some(Table[n].ok) :
        LET s == IF file THEN <<<<f, n, v>>>> ELSE <<>> IN Start(file, s, FALSE) /\ hist' = Append(hist, [op |-> "start", file |-> file, set |-> s])
Next == (Len(hist) < MaxLen /\ (GiveOne \/ GiveTwo \/ GiveMany \/ GiveAlgo \/ GiveAgain \/ GiveUnknown)) \/ (Len(hist) > 0 /\ Go)
Spec == Init /\ [][Next]_vars
View == ovars
(* invariants: everything in use is a legal value; refused values leave no trace; the full name always wins; what is wanted is defined for every option *)
TypeOK == \A t \in DOMAIN given : Known(t[2]) /\ given[t].v \in Table[t[2]].ok
FullWins == \A n \in Sample : <<TRUE, n>> \in DOMAIN given => Text(n) = given[<<TRUE, n>>].v
Defined == ready => \A n \in DOMAIN Params : Want(n) # None
(* what was read is never replaced *)
ReadStays == [][\A t \in DOMAIN given : given[t].fixed => t \in DOMAIN given' /\ given'[t] = given[t]]_vars
DefaultKept == \A n \in Sample : ~Is(n) => Text(n) = Table[n].def
LimitsNeverZero == Want("solution_limit") # "0" /\ Want("iteration_limit") # "0"
Emit == (Gen /\ ready) => PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
