------------------------------- MODULE Diver -------------------------------
(* The tree-search strategies: which open node is explored next, and that no open node is ever lost. *)
(* Kinds: heap (plain), dive (follow the last child), probed (explore both children, follow the      *)
(* better one), dfs (bounded depth-first dives) and dfsdyn (dfs with a comparison that changes mode  *)
(* when solutions are found).  A node is a number; nd[n] = [o bound, g guessed value, d depth,       *)
(* l branches left (2 = fresh)].  The heap order is given by the configured comparison; ties are     *)
(* resolved nondeterministically.                                                                    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS BfsDepth                       \* depth up to which dfs starts breadth-first
VARIABLES cfg, nd, heap, nxt, cand, dive, mode, nback, board, out, gone
dvars == <<cfg, nd, heap, nxt, cand, dive, mode, nback, board, out, gone>>
Enlarge == 0  FindSol == 1  CloseBound == 2  LimitSize == 3
Big == 1000000000
IsDfs == cfg.kind \in {"dfs", "dfsdyn"}
Range(s) == {s[i] : i \in 1 .. Len(s)}
Open == heap \cup Range(dive) \cup ({nxt, cand} \ {0})

InitCfg(c) == /\ cfg = c /\ nd = <<>> /\ heap = {} /\ nxt = 0 /\ cand = 0 /\ dive = <<>> /\ mode = Enlarge
              /\ nback = 0 /\ board = -1 /\ out = {} /\ gone = {}
ResetTo(c) == /\ cfg' = c /\ nd' = <<>> /\ heap' = {} /\ nxt' = 0 /\ cand' = 0 /\ dive' = <<>> /\ mode' = Enlarge
              /\ nback' = 0 /\ board' = -1 /\ out' = {} /\ gone' = {}

(* comparison in force: bound (least bound first) or depth (deepest first) *)
CmpIn(m) == IF cfg.kind # "dfsdyn" THEN cfg.cmp ELSE IF m = CloseBound THEN "bound" ELSE IF m = LimitSize THEN "depth" ELSE cfg.cmp
Better(a, b, N, m) == IF CmpIn(m) = "bound" THEN N[a].o <= N[b].o ELSE N[a].d >= N[b].d   \* a at least as good as b
BestOf(H, m) == {a \in H : \A b \in H : Better(a, b, nd, m)}

(* ---------------------------------- adding a node ---------------------------------------------- *)
Fresh(N, x) == N[x].l = 2
PushWith(N, x) ==
  CASE cfg.kind = "heap" -> heap' = heap \cup {x} /\ UNCHANGED <<nxt, cand, dive>>
    [] cfg.kind = "dive" ->
         IF Fresh(N, x) THEN nxt = 0 /\ nxt' = x /\ UNCHANGED <<heap, cand, dive>>
                        ELSE heap' = heap \cup {x} /\ UNCHANGED <<nxt, cand, dive>>
    [] cfg.kind = "probed" ->
         IF Fresh(N, x) THEN
           IF nxt = 0 /\ cand = 0 THEN nxt' = x /\ UNCHANGED <<heap, cand, dive>>
           ELSE IF cand = 0 THEN cand' = x /\ UNCHANGED <<heap, nxt, dive>>
           ELSE \/ Better(cand, x, N, mode) /\ nxt' = cand /\ heap' = heap \cup {x} /\ cand' = 0 /\ UNCHANGED dive
                \/ Better(x, cand, N, mode) /\ nxt' = x /\ heap' = heap \cup {cand} /\ cand' = 0 /\ UNCHANGED dive
         ELSE /\ (nxt # 0 => cand = 0)
              /\ cand' = IF nxt # 0 THEN nxt ELSE cand
              /\ nxt' = x /\ UNCHANGED <<heap, dive>>
    [] OTHER -> IF mode > FindSol THEN heap' = heap \cup {x} /\ UNCHANGED <<nxt, cand, dive>>
                ELSE dive' = <<x>> \o dive /\ UNCHANGED <<heap, nxt, cand>>

Child(x, o, g, d) ==
  /\ x = Len(nd) + 1
  /\ nd' = Append(nd, [o |-> o, g |-> g, d |-> d, l |-> 2])
  /\ PushWith(nd', x)
  /\ UNCHANGED <<cfg, mode, nback, board, out, gone>>
Back(x) ==
  /\ x \in out /\ nd[x].l > 0
  /\ PushWith(nd, x) /\ out' = out \ {x}
  /\ UNCHANGED <<cfg, nd, mode, nback, board, gone>>

(* -------------------------------- selecting a node --------------------------------------------- *)
Take(x) == /\ out' = out \cup {x} /\ nd' = [nd EXCEPT ![x].l = @ - 1]
FromHeap(H, m, x) == x \in BestOf(H, m) /\ heap' = H \ {x}

SelDive(cut, x) ==
  IF nxt # 0 /\ nd[nxt].o < cut /\ ~(cfg.stop /\ nd[nxt].g >= cut)
  THEN x = nxt /\ nxt' = 0 /\ UNCHANGED <<heap, cand, dive>>
  ELSE FromHeap(heap \cup ({nxt} \ {0}), mode, x) /\ nxt' = 0 /\ UNCHANGED <<cand, dive>>

SelProbed(cut, x) ==
  IF nxt # 0 THEN
    IF nd[nxt].o < cut THEN
      IF cfg.stop /\ nd[nxt].g >= cut
      THEN FromHeap(heap \cup ({nxt, cand} \ {0}), mode, x) /\ nxt' = 0 /\ cand' = 0 /\ UNCHANGED dive
      ELSE x = nxt /\ nxt' = 0 /\ UNCHANGED <<heap, cand, dive>>
    ELSE FromHeap(heap \cup {nxt}, mode, x) /\ nxt' = 0 /\ UNCHANGED <<cand, dive>>
  ELSE IF cand # 0 THEN
    IF nd[cand].o < cut /\ ~(cfg.stop /\ nd[cand].g >= cut)
    THEN x = cand /\ cand' = 0 /\ UNCHANGED <<heap, nxt, dive>>
    ELSE FromHeap(heap \cup {cand}, mode, x) /\ cand' = 0 /\ UNCHANGED <<nxt, dive>>
  ELSE FromHeap(heap, mode, x) /\ UNCHANGED <<nxt, cand, dive>>

(* the depth-first dive: walk the list of dive nodes from its front; st = [h heap, v dive list, b backtracks, r node or 0] *)
RECURSIVE Walk(_, _)
Walk(st, cut) ==
  IF st.v = <<>> THEN st
  ELSE LET n == Head(st.v) rest == Tail(st.v)
           over == nd[n].o > cut
           deep == nd[n].d - board > cfg.maxDepth
           back == nd[n].l < 2
           b2 == st.b + (IF over \/ deep \/ back THEN 1 ELSE 0)
           keep == ~over /\ ~deep
       IN  IF b2 >= cfg.maxBack THEN [h |-> st.h \cup {n} \cup Range(rest), v |-> <<>>, b |-> b2, r |-> 0]
           ELSE IF keep THEN [h |-> st.h, v |-> rest, b |-> b2, r |-> n]
           ELSE Walk([h |-> st.h \cup {n}, v |-> rest, b |-> b2, r |-> 0], cut)

DfsDive(H, V, b, m, cut, x) ==           \* selection in dive mode
  LET st == Walk([h |-> H, v |-> V, b |-> b, r |-> 0], cut) IN
    IF st.r # 0 THEN x = st.r /\ heap' = st.h /\ dive' = st.v /\ nback' = st.b /\ board' = board
    ELSE FromHeap(st.h, m, x) /\ dive' = <<>> /\ nback' = 0 /\ board' = nd[x].d

SelDfs(cut, x) ==
  /\ UNCHANGED <<nxt, cand>>
  /\ IF mode = Enlarge THEN
       IF dive = <<>> THEN mode' = FindSol /\ DfsDive(heap, <<>>, nback, FindSol, cut, x)
       ELSE LET last == dive[Len(dive)] IN
            IF nd[last].d > BfsDepth
            THEN mode' = FindSol /\ DfsDive(heap \cup Range(dive), <<>>, cfg.maxBack - 1, FindSol, cut, x)
            ELSE x = last /\ dive' = SubSeq(dive, 1, Len(dive) - 1) /\ UNCHANGED <<heap, mode, nback, board>>
     ELSE IF mode = FindSol THEN mode' = mode /\ DfsDive(heap, dive, nback, mode, cut, x)
     ELSE FromHeap(heap, mode, x) /\ UNCHANGED <<dive, mode, nback, board>>

Best(cut, x) ==
  /\ Open # {}
  /\ CASE cfg.kind = "heap" -> FromHeap(heap, mode, x) /\ UNCHANGED <<nxt, cand, dive, mode, nback, board>>
       [] cfg.kind = "dive" -> SelDive(cut, x) /\ UNCHANGED <<mode, nback, board>>
       [] cfg.kind = "probed" -> SelProbed(cut, x) /\ UNCHANGED <<mode, nback, board>>
       [] OTHER -> SelDfs(cut, x)
  /\ Take(x) /\ UNCHANGED <<cfg, gone>>

(* ------------------------- pruning, change of mode, copying ------------------------------------ *)
Clean(cut) ==
  LET keep == {x \in Open : nd[x].o < cut} IN
  /\ heap' = keep /\ nxt' = 0 /\ cand' = 0 /\ dive' = <<>> /\ gone' = gone \cup (Open \ keep)
  /\ UNCHANGED <<cfg, nd, mode, nback, board, out>>
SetMode(m) == IF m = mode THEN UNCHANGED <<mode, heap, dive, nback>>
              ELSE mode' = m /\ heap' = heap \cup Range(dive) /\ dive' = <<>> /\ nback' = cfg.maxBack - 1
NewSolution(n) ==
  /\ cfg.kind = "dfsdyn"
  /\ SetMode(IF mode \in {Enlarge, FindSol} /\ n >= cfg.nsol THEN CloseBound ELSE IF mode = Enlarge THEN FindSol ELSE mode)
  /\ UNCHANGED <<cfg, nd, nxt, cand, board, out, gone>>
Every(n) ==
  /\ cfg.kind = "dfsdyn"
  /\ SetMode(IF n > cfg.nlim THEN LimitSize ELSE mode)
  /\ UNCHANGED <<cfg, nd, nxt, cand, board, out, gone>>
Tops == IF nxt # 0 THEN {nxt} ELSE IF cand # 0 THEN {cand}
        ELSE IF IsDfs /\ dive # <<>> THEN {dive[1]} ELSE BestOf(heap, mode)
Pop(x) == /\ x \in Tops /\ gone' = gone \cup {x} /\ UNCHANGED <<cfg, nd, mode, nback, board, out>>
          /\ IF nxt # 0 THEN nxt' = 0 /\ UNCHANGED <<heap, cand, dive>>
             ELSE IF cand # 0 THEN cand' = 0 /\ UNCHANGED <<heap, nxt, dive>>
             ELSE IF IsDfs /\ dive # <<>> THEN dive' = Tail(dive) /\ UNCHANGED <<heap, nxt, cand>>
             ELSE heap' = heap \ {x} /\ UNCHANGED <<nxt, cand, dive>>
Copy == UNCHANGED dvars

(* ------------------------------------ properties ----------------------------------------------- *)
Added == 1 .. Len(nd)
NoLoss == Added = Open \cup out \cup gone
Disjoint == /\ Open \cap (out \cup gone) = {} /\ out \cap gone = {}
            /\ Cardinality(Open) = Cardinality(heap) + Len(dive) + (IF nxt # 0 THEN 1 ELSE 0) + (IF cand # 0 THEN 1 ELSE 0)
DiveOnlyWhenDiving == (IsDfs /\ mode > FindSol) => dive = <<>>
BacktracksBounded == (IsDfs /\ mode = FindSol /\ cfg.maxBack > 0) => nback < cfg.maxBack
BestBound == LET O == Open IN IF O = {} THEN 0 ELSE CHOOSE v \in {nd[x].o : x \in O} : \A x \in O : v <= nd[x].o
=============================================================================
