------------------------------ MODULE Options ------------------------------
(* How the options a user gives reach the solver (property P10).                                                                     *)
(* An assignment <<tag, text>> is given by a string, a file or a call; tag is "bonmin.NAME" or the bare "NAME".                       *)
(*   - a value read from a string or a file is final for its tag; one set by a call is replaced by later assignments to that tag;      *)
(*   - a value under the full name "bonmin.NAME" is preferred to one under the bare name;                                             *)
(*   - an unknown name, or a value out of the option's range, is refused: what was given before stays, the rest of that string or     *)
(*     file is not read;                                                                                                               *)
(*   - the file bonmin.opt of the working directory is read, last, if and only if no string and no file was read before;              *)
(*   - an option never given has its default, which for some depends on the algorithm;                                                *)
(*   - variable_selection most-fractional / reliability-branching impose their strong branching parameters; 0 deactivates the         *)
(*     solution and iteration limits; the LP-based algorithms impose the frequencies of the cuts they are made of, unless the user's  *)
(*     were read under the full name (B-OA: given under the full name).                                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
INF == "2.14748e+09"
Algos == <<"B-BB", "B-OA", "B-QG", "B-Hyb", "B-Ecp", "B-iFP">>
VarSel == <<"most-fractional", "strong-branching", "reliability-branching", "qp-strong-branching", "lp-strong-branching", "nlp-strong-branching", "osi-simple", "osi-strong", "random">>
NodeCmp == <<"best-bound", "depth-first", "breadth-first", "dynamic", "best-guess">>
Trees == <<"top-node", "dive", "probed-dive", "dfs-dive", "dfs-dive-dynamic">>
Fail == <<"stop", "fathom">>
YesNo == <<"no", "yes">>
(* ranges are sampled: the legal texts used, some illegal ones, the default *)
I(def, ok, no) == [kind |-> "int", def |-> def, ok |-> ok, no |-> no, enum |-> <<>>]
N(def, ok, no) == [kind |-> "num", def |-> def, ok |-> ok, no |-> no, enum |-> <<>>]
E(def, en) == [kind |-> "str", def |-> def, ok |-> {en[k] : k \in 1 .. Len(en)}, no |-> {"sometimes"}, enum |-> en]
Cut(def) == I(def, {"3", "-99", "0", "-7"}, {"-101"})
Params == [ node_limit |-> I(INF, {"7", "123"}, {"-1"}), solution_limit |-> I(INF, {"4", "9", "0"}, {"-1"}), iteration_limit |-> I(INF, {"1000", "5000", "0"}, {"-1"}),
  number_strong_branch |-> I("20", {"5", "11"}, {"-1"}), number_before_trust |-> I("8", {"3", "4"}, {"-1"}), max_consecutive_failures |-> I("10", {"3", "12"}, {"-1"}),
  max_consecutive_infeasible |-> I("0", {"2", "6"}, {"-1"}), num_cut_passes |-> I("1", {"2", "0"}, {"-1"}), num_cut_passes_at_root |-> I("20", {"1", "33"}, {"-1"}),
  bb_log_interval |-> I("100", {"10", "200"}, {"-1"}),
  cutoff |-> N("1e+100", {"500", "1000.5"}, {"1e+101"}), cutoff_decr |-> N("1e-05", {"0.001", "0.5"}, {"1e+11"}), allowable_gap |-> N("0", {"0.25", "2"}, {"1e+21"}),
  allowable_fraction_gap |-> N("0", {"0.125", "0.01"}, {"1e+21"}), integer_tolerance |-> N("1e-06", {"0.0001", "1e-05"}, {"-1"}), time_limit |-> N("1e+10", {"100", "77.5"}, {"-1"}),
  nlp_failure_behavior |-> E("stop", Fail), node_comparison |-> E("best-bound", NodeCmp), tree_search_strategy |-> E("probed-dive", Trees), algorithm |-> E("B-BB", Algos) ]
Others == [ variable_selection |-> E("strong-branching", VarSel),
  Gomory_cuts |-> Cut("-5"), mir_cuts |-> Cut("-5"), clique_cuts |-> Cut("-5"), flow_cover_cuts |-> Cut("-5"), cover_cuts |-> Cut("0"), two_mir_cuts |-> Cut("0"), heuristic_dive_MIP_fractional |-> E("no", YesNo), heuristic_feasibility_pump |-> E("no", YesNo), nlp_solve_frequency |-> I("10", {"2", "0", "30"}, {"-1"}),
  filmint_ecp_cuts |-> I("0", {"2", "0", "5"}, {"-1"}), heuristic_RINS |-> E("no", YesNo), heuristic_dive_fractional |-> E("no", YesNo), heuristic_dive_vectorLength |-> E("no", YesNo), heuristic_dive_MIP_vectorLength |-> E("no", YesNo) ]
Table == Params @@ Others
Known(n) == n \in DOMAIN Table
Names == DOMAIN Table
VARIABLES given,   \* function from tags <<full, NAME>> to [v: text, fixed: it was read], full = TRUE for "bonmin.NAME"
          read,    \* some string or file was read to its end
          ready    \* the setup was initialised
ovars == <<given, read, ready>>
None == "-"
OInit == given = [t \in {} |-> None] /\ read = FALSE /\ ready = FALSE
Legal(a) == Known(a[2]) /\ a[3] \in Table[a[2]].ok           \* a = <<full, NAME, text>>
RECURSIVE Take(_, _, _)
Put(g, t, v, how) == IF t \in DOMAIN g /\ g[t].fixed THEN g ELSE (t :> [v |-> v, fixed |-> how # "api"]) @@ g
Take(g, s, how) == IF s = <<>> THEN [g |-> g, refused |-> FALSE]
              ELSE IF ~Legal(Head(s)) THEN [g |-> g, refused |-> TRUE]
              ELSE Take(Put(g, <<Head(s)[1], Head(s)[2]>>, Head(s)[3], how), Tail(s), how)
Give(src, s, refused) == /\ ~ready
                         /\ LET r == Take(given, s, src) IN given' = r.g /\ refused = r.refused /\ read' = (read \/ (src # "api" /\ ~r.refused))
                         /\ UNCHANGED ready
(* initialisation from a problem: bonmin.opt (its assignments; <<>> without one) is read now if nothing was read before *)
Start(file, s, refused) == /\ ~ready /\ ready' = TRUE
                           /\ IF file /\ ~read THEN LET r == Take(given, s, "file") IN given' = r.g /\ refused = r.refused /\ read' = TRUE
                              ELSE given' = given /\ refused = FALSE /\ read' = read
(* ---- what the setup uses ---- *)
Is(n) == <<TRUE, n>> \in DOMAIN given \/ <<FALSE, n>> \in DOMAIN given
Text(n) == IF <<TRUE, n>> \in DOMAIN given THEN given[<<TRUE, n>>].v ELSE IF <<FALSE, n>> \in DOMAIN given THEN given[<<FALSE, n>>].v ELSE Table[n].def
Algo == Text("algorithm")
Sel == IF Algo = "B-BB" /\ ~Is("variable_selection") THEN "nlp-strong-branching" ELSE Text("variable_selection")
Pos(s, x) == CHOOSE k \in 1 .. Len(s) : s[k] = x
Want(n) ==
  CASE n = "number_strong_branch" -> IF Is("variable_selection") /\ Sel = "most-fractional" THEN "0" ELSE IF Is(n) THEN Text(n) ELSE IF Algo = "B-BB" THEN "1000" ELSE Table[n].def
    [] n = "number_before_trust" -> IF Is("variable_selection") /\ Sel = "most-fractional" THEN "0" ELSE IF Is("variable_selection") /\ Sel = "reliability-branching" THEN "10"
                                    ELSE IF Is(n) THEN Text(n) ELSE IF Algo = "B-BB" THEN "1" ELSE Table[n].def
    [] n \in {"solution_limit", "iteration_limit"} -> IF Text(n) = "0" THEN INF ELSE Text(n)
    [] Table[n].kind = "str" -> ToString(Pos(Table[n].enum, Text(n)) - 1)
    [] OTHER -> Text(n)
(* the cut generators of the LP-based algorithms, with their frequencies; 0 switches one off *)
On(name, f) == IF f = "0" THEN {} ELSE {<<name, f>>}
Milp == On("Mixed Integer Gomory", Text("Gomory_cuts")) \cup On("Mixed Integer Rounding", Text("mir_cuts")) \cup On("Clique", Text("clique_cuts")) \cup On("Flow Covers", Text("flow_cover_cuts")) \cup On("Cover", Text("cover_cuts")) \cup On("2-MIR", Text("two_mir_cuts"))
Checks == {<<"Outer Approximation feasibility check.", "1">>, <<"Outer Approximation strong branching solution check.", "1">>}
(* the presets of the algorithms are set like by a call, B-OA's under the bare name *)
Preset(n, d) == LET t == <<Algo # "B-OA", n>> g == Put(given, t, d, "api") IN IF <<TRUE, n>> \in DOMAIN g THEN g[<<TRUE, n>>].v ELSE g[<<FALSE, n>>].v
Nlp == On("NLP solution based oa cuts", IF Algo = "B-Hyb" THEN Text("nlp_solve_frequency") ELSE Preset("nlp_solve_frequency", "0"))
Ecp == On("Ecp cuts", IF Algo = "B-Ecp" THEN Preset("filmint_ecp_cuts", "1") ELSE Text("filmint_ecp_cuts"))
Generators == IF Algo = "B-BB" THEN {} ELSE Checks \cup Nlp \cup Ecp \cup
  CASE Algo = "B-OA" -> {<<"Outer Approximation decomposition.", "-99">>}
    [] Algo = "B-QG" -> {}
    [] Algo = "B-Hyb" -> {<<"Feasibility Pump for MINLP.", "-99">>} \cup Milp
    [] Algo = "B-Ecp" -> Milp
    [] Algo = "B-iFP" -> {<<"Feasibility Pump for MINLP.", "-99">>}
Heur(n, id) == IF Text(n) = "yes" THEN {id} ELSE {}
(* B-BB runs the feasibility pump by itself if all integers are binary *)
Pump(general) == IF Algo = "B-BB" /\ ~Is("heuristic_feasibility_pump") /\ ~general THEN {"FPump"} ELSE Heur("heuristic_feasibility_pump", "FPump")
(* the heuristics that are asked for by one option each *)
Asked == Heur("heuristic_RINS", "RINS") \cup Heur("heuristic_dive_fractional", "DiveFractional") \cup Heur("heuristic_dive_vectorLength", "DiveVectorLength") \cup Heur("heuristic_dive_MIP_vectorLength", "DiveMIPVectorLength") \cup (IF Algo = "B-BB" /\ ~Is("heuristic_dive_MIP_fractional") THEN {"DiveMIPFractional"} ELSE Heur("heuristic_dive_MIP_fractional", "DiveMIPFractional"))
Askable == {"RINS", "DiveMIPFractional", "DiveFractional", "DiveVectorLength", "DiveMIPVectorLength"}
=============================================================================
