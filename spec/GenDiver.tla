------------------------------ MODULE GenDiver ------------------------------
(* Histories generated by simulation of MCDiver, printed as JSON for replay on the real objects. *)
EXTENDS MCDiver
CONSTANT HLen
VARIABLE hist
GInit == Init /\ hist = <<>>
(* keep the histories long and varied: rare operations only at some positions, no needless loss of children *)
Mix == /\ (op'[1] \in {"copy", "assign", "pop", "every"} => Len(hist) % 5 = 4 /\ Open # {})
       /\ (op'[1] = "newsol" => Len(hist) % 4 = 3 /\ Cardinality(Open) > 2 /\ cut' >= cut - 3)
       /\ (op'[1] = "skip" /\ pc = "child" => Len(hist) % 3 = 2 \/ Len(nd) >= MaxNodes \/ nd[cur].o >= cut)
       /\ (op'[1] = "child" => op'[2] <= 2 + (IF cur = 0 THEN 0 ELSE nd[cur].o))
GStep == Step /\ Mix /\ hist' = IF op'[1] = "skip" THEN hist ELSE Append(hist, op')
GSpec == GInit /\ [][GStep]_<<all, hist>>
Emit == (Len(hist) = HLen \/ (pc = "best" /\ Open = {} /\ op[1] = "best")) => PrintT(<<"HIST", ToJson([cfg |-> cfg, ops |-> hist])>>)
Stop == Len(hist) < HLen
=============================================================================
