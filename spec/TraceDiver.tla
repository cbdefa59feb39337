----------------------------- MODULE TraceDiver -----------------------------
(* Trace validation of the real tree-search objects against Diver.  Every event carries the observable state after it:  *)
(* size, empty, bp (best possible bound), top (next node), mode.                                                        *)
EXTENDS Diver, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
tv == <<dvars, l>>
NoCfg == [kind |-> "heap", cmp |-> "bound", stop |-> FALSE, maxDepth |-> 0, maxBack |-> 0, nsol |-> 0, nlim |-> 0]
Init == l = 1 /\ InitCfg(NoCfg)
E == Trace[l]
Ev(n) == l <= Len(Trace) /\ Trace[l].ev = n /\ l' = l + 1
Obs == /\ E.size = Cardinality(Open') /\ E.empty = (Open' = {}) /\ E.bp = BestBound'
       /\ (IsDfs' => E.mode = mode') /\ (E.top = 0 \/ E.top \in Tops')
       /\ (~E.empty /\ ~(IsDfs' /\ mode' = Enlarge) => E.top # 0)
TStart == Ev("start") /\ ResetTo([kind |-> E.kind, cmp |-> E.cmp, stop |-> E.stop, maxDepth |-> E.maxDepth, maxBack |-> E.maxBack, nsol |-> E.nsol, nlim |-> E.nlim]) /\ Obs
TChild == Ev("child") /\ Child(E.id, E.obj, E.guess, E.depth) /\ Obs
TBack == Ev("back") /\ Back(E.id) /\ Obs
TBest == Ev("best") /\ Best(E.cut, E.id) /\ E.left = nd'[E.id].l /\ Obs
TClean == Ev("clean") /\ Clean(E.cut) /\ (Open' # {} => E.best = BestBound') /\ Obs
TNew == Ev("newsol") /\ NewSolution(E.n) /\ E.resort = (mode' # mode) /\ Obs
TEvery == Ev("every") /\ Every(E.n) /\ E.resort = (mode' # mode) /\ Obs
TPop == Ev("pop") /\ Pop(E.id) /\ Obs
TCopy == Ev("copy") /\ Copy /\ Obs
(* at the end everything still open comes out, each node once *)
TDrain == Ev("drain") /\ Range(E.out) = Open /\ Len(E.out) = Cardinality(Open) /\ E.size = 0 /\ UNCHANGED dvars
TExit == Ev("exit") /\ E.sig = 0 /\ UNCHANGED dvars
Next == TStart \/ TChild \/ TBack \/ TBest \/ TClean \/ TNew \/ TEvery \/ TPop \/ TCopy \/ TDrain \/ TExit
Spec == Init /\ [][Next]_tv
Accepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
