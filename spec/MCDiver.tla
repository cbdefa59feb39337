------------------------------ MODULE MCDiver ------------------------------
(* Exhaustive exploration of the strategies under the protocol of the branch-and-bound loop: select a node, push at    *)
(* most one child of it, push the node back while it has a branch left; the cutoff only decreases and the tree is      *)
(* cleaned when it does; solutions are announced.  op is the last operation (hidden from the state by VIEW).           *)
EXTENDS Diver, TLC, Json
CONSTANTS MaxNodes, MaxO, Kinds, Stops, MaxDepths, MaxBacks, Cmps, NSols, Extra
VARIABLES cut, cur, pc, nsol, op
all == <<dvars, cut, cur, pc, nsol, op>>
state == <<dvars, cut, cur, pc, nsol>>
Cfgs == [kind : Kinds, cmp : Cmps, stop : Stops, maxDepth : MaxDepths, maxBack : MaxBacks, nsol : NSols, nlim : {6}]
Init == \E c \in Cfgs : InitCfg(c) /\ cut = MaxO + 1 /\ cur = 0 /\ pc = "child" /\ nsol = 0 /\ op = <<"init">>
Step ==
  \/ pc = "child" /\ Len(nd) < MaxNodes /\ (cur = 0 => Len(nd) = 0) /\ \E o \in (IF cur = 0 THEN 0 ELSE nd[cur].o) .. MaxO, g \in {0, MaxO} :
       o < cut /\ Child(Len(nd) + 1, o, o + g, IF cur = 0 THEN 0 ELSE nd[cur].d + 1) /\ pc' = "back" /\ op' = <<"child", o, o + g>> /\ UNCHANGED <<cut, cur, nsol>>
  \/ pc = "child" /\ cur # 0 /\ pc' = "back" /\ op' = <<"skip">> /\ UNCHANGED <<dvars, cut, cur, nsol>>
  \/ pc = "back" /\ cur # 0 /\ nd[cur].l > 0 /\ Back(cur) /\ pc' = "best" /\ op' = <<"back">> /\ UNCHANGED <<cut, cur, nsol>>
  \/ pc = "back" /\ (IF cur = 0 THEN TRUE ELSE nd[cur].l = 0) /\ pc' = "best" /\ op' = <<"skip">> /\ UNCHANGED <<dvars, cut, cur, nsol>>
  \/ pc = "best" /\ \E x \in Open : Best(cut, x) /\ cur' = x /\ pc' = "child" /\ op' = <<"best", cut>> /\ UNCHANGED <<cut, nsol>>
  \/ pc = "best" /\ \E c \in 1 .. cut - 1 : cut' = c /\ nsol' = nsol + 1 /\ (IF cfg.kind = "dfsdyn" THEN NewSolution(nsol + 1) ELSE UNCHANGED dvars) /\ pc' = "clean" /\ op' = <<"newsol", nsol + 1>> /\ UNCHANGED cur
  \/ pc = "clean" /\ Clean(cut) /\ pc' = "best" /\ op' = <<"clean", cut>> /\ UNCHANGED <<cut, cur, nsol>>
  \/ Extra /\ pc = "clean" /\ pc' = "best" /\ op' = <<"skip">> /\ UNCHANGED <<dvars, cut, cur, nsol>>           \* cleaning postponed
  \/ Extra /\ pc = "best" /\ \E o \in {"copy", "assign"} : Copy /\ op' = <<o>> /\ UNCHANGED <<cut, cur, pc, nsol>>
  \/ Extra /\ pc = "best" /\ Open # {} /\ ~(IsDfs /\ mode = Enlarge) /\ \E x \in Tops : Pop(x) /\ op' = <<"pop">> /\ UNCHANGED <<cut, cur, pc, nsol>>
  \/ Extra /\ pc = "best" /\ cfg.kind = "dfsdyn" /\ \E n \in {5, 7} : Every(n) /\ op' = <<"every", n>> /\ UNCHANGED <<cut, cur, pc, nsol>>
Spec == Init /\ [][Step]_all
(* once everything is done, every node ever added has been explored on both branches or pruned by its bound *)
Finished == pc = "best" /\ Open = {} => \A x \in Added : (x \in out /\ nd[x].l = 0) \/ (x \in gone /\ nd[x].o >= cut)
=============================================================================
