#!/usr/bin/env python3
"""Writes properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("P01", "Complete runs return the true optimum or a true claim of infeasibility",
  "For every convex mixed-integer nonlinear problem with bounded integer variables, every algorithm choice and every admissible setting of the branching, node-selection, cut, heuristic, warm-start and re-solve options, a run that is not cut short ends by reporting the problem's true optimal value with a feasible integral point attaining it, or reports infeasibility exactly when no feasible integer point exists. The reported lower bound never exceeds the true optimum. The run does not crash, throw or loop forever.",
  ["inputs", "configurations"], "all convex problems x algorithm x option settings", "A unit test solves one model with one setting; a wrong cut, a lost node or a wrong fathoming only shows on particular combinations of model and options.",
  ["src/CbcBonmin/BonCbc.cpp", "src/Algorithms/BonBonminSetup.cpp", "src/Algorithms/OaGenerators", "src/Algorithms/Branching", "src/Interfaces/BonOsiTMINLPInterface.cpp", "src/CbcBonmin/BonDiver.cpp"],
  [("branch-and-bound driver", "src/CbcBonmin/BonCbc.cpp Bab::branchAndBound"), ("outer approximation", "src/Algorithms/OaGenerators/BonOaDecBase.cpp"), ("cut construction", "src/Interfaces/BonOsiTMINLPInterface.cpp getOuterApproximation")], "Bab::mipStatus/bestObj/bestSolution/bestBound")
prop("P02", "NLP branch-and-bound discards only what its relaxations justify",
  "In a complete run of the NLP-based branch-and-bound (branching rules that probe by solving nonlinear relaxations, no primal heuristics), every integer point inside the variable bounds lies in the box of some continuous relaxation actually solved during the run that either was infeasible or whose optimal value is no better than the final answer (within the pruning tolerance). Boxes only ever shrink along integer variables, by splitting at integral values, and never leave the original bounds.",
  ["inputs", "histories", "configurations"], "all problems, all search histories and all branching/node-selection settings of B-BB", "The optimum can come out right although a subtree was dropped; only the whole history of relaxations shows that the proof of optimality is complete.",
  ["src/CbcBonmin/BonCbc.cpp", "src/CbcBonmin/BonCbcNode.cpp", "src/CbcBonmin/BonCbcNlpStrategy.cpp", "src/CbcBonmin/BonDiver.cpp", "src/Algorithms/Branching/BonChooseVariable.cpp", "src/Interfaces/BonOsiTMINLPInterface.cpp"],
  [("node processing", "src/CbcBonmin/BonCbcNode.cpp"), ("strong branching fixes variables", "src/Algorithms/Branching/BonChooseVariable.cpp"), ("cutoff handling", "src/CbcBonmin/BonCbc.cpp")], "every TNLP solve (box, status, objective)")
prop("P03", "Exactly one, consistent final report per run",
  "However a run ends (optimality, infeasibility, unboundedness, a limit, an unsolved relaxation), the user's problem object receives exactly one final report, and the status it carries, the presence and values of the solution it carries, and the status, solution, objective and bound then returned by the driver agree with each other and with how the run ended. A solution is handed over exactly when a feasible point is known, and success is reported only when the search was completed.",
  ["inputs", "configurations", "fault_sequences"], "all ways a run can end, for all algorithms", "Tests look at the objective of a successful run; the rare endings (limits before or after a solution, failing relaxations, continuous problems) are not exercised.",
  ["src/CbcBonmin/BonCbc.cpp", "src/Interfaces/BonTMINLP.hpp"], [("final status mapping", "src/CbcBonmin/BonCbc.cpp end of Bab::branchAndBound")], "TMINLP::finalize_solution and Bab accessors")
prop("P04", "Limits, gaps and cutoffs are honoured and never make the report dishonest",
  "When a node, iteration, solution or time limit, an optimality gap or a cutoff is set, the run stops within the limit, any point reported is feasible, integral and worth the reported value, optimality is claimed only for a point within the allowed gap of the true optimum, and infeasibility is claimed only when no feasible point better than the cutoff exists. The reported bound stays a valid lower bound on the best value the run was allowed to look for.",
  ["inputs", "configurations", "crash_points"], "all problems, all limit values, i.e. all points at which the search can be interrupted", "A limit can strike at any node; tests never interrupt the search.",
  ["src/CbcBonmin/BonCbc.cpp", "src/Algorithms/BonBabSetupBase.cpp"], [("parameters to Cbc", "src/CbcBonmin/BonCbc.cpp"), ("option table", "src/Algorithms/BonBabSetupBase.cpp gatherParametersValues")], "Bab accessors, node counts")
prop("P05", "Tree search strategies never lose, duplicate or misorder open nodes",
  "Under every tree-search strategy and any history of adding nodes, selecting the next node, tightening the cutoff and cleaning the tree, every node that was added is either still in the tree, was selected exactly once, or was discarded because its bound is at or above the cutoff. The tree's reported size, emptiness and best bound agree with the set of open nodes, and each strategy selects nodes in its documented order (deepest child first during a dive, best bound or comparison order otherwise, bounded number of backtracks and depth).",
  ["histories", "configurations"], "all operation histories of all strategies and parameters", "The order of pushes, pops and cutoff changes is produced by the search; a handful of solves visits few histories and a lost node usually changes nothing visible.",
  ["src/CbcBonmin/BonDiver.cpp", "src/CbcBonmin/BonDiver.hpp"], [("dive heaps", "src/CbcBonmin/BonDiver.cpp"), ("dynamic comparison", "src/CbcBonmin/BonDiver.cpp DiverCompare")], "CbcTree interface")
prop("P06", "A relaxation object solves exactly its own problem; copies are independent",
  "A solver-interface object (OsiTMINLPInterface) reports exactly the variable bounds, row bounds, row senses, integrality marks and appended rows it was given, in the order given, after any sequence of bound changes, row additions and removals, type changes, copies and assignments. A solve - from scratch, from a warm start taken at any earlier moment, in a hot-start sequence, with or without repeated tries - ends either at a point that satisfies box and rows, reports its own objective and activities, has valid multipliers and is optimal (convex problems), or with the claim of infeasibility when indeed nothing satisfies them; the same holds for the closest-point problem (with and without cutoff) and the local-branching problem it can be switched to, and switching back restores the original problem. Operations on one object never change what another one, its copy or its source, reports.",
  ["histories", "inputs"], "all sequences of modifications, copies, assignments, warm/hot starts, feasibility problems and solves on several objects", "branch-and-bound clones, tightens, cuts and re-solves these objects thousands of times; one stale bound, row or status and the answer is silently wrong. The test only ever makes one pass with default settings.",
  ["src/Interfaces/BonOsiTMINLPInterface.cpp", "src/Interfaces/BonOsiTMINLPInterface.hpp", "src/Interfaces/BonTMINLP2TNLP.cpp", "src/Interfaces/Ipopt/BonIpoptSolver.cpp", "src/Interfaces/Ipopt/BonIpoptInteriorWarmStarter.cpp", "src/Interfaces/BonTNLP2FPNLP.cpp"],
  [("bounds, rows, copies", "src/Interfaces/BonOsiTMINLPInterface.cpp setColLower/applyRowCuts/deleteRows/copy ctor/operator="), ("solves", "initialSolve, resolve, resolveForCost, markHotStart/solveFromHotStart"), ("feasibility problems", "solveFeasibilityProblem, switchToFeasibilityProblem")], "OsiSolverInterface queries of every object after every operation")
prop("P07", "The NLPs handed to the NLP solver are the problem they stand for",
  "Every nonlinear program Bonmin derives from the user's problem - with linear or quadratic cuts appended and removed, with changed variable bounds, with a linear or feasibility-pump objective in place of the user's, with a cutoff row or a local-branching row, or with the objective moved into the constraints - has exactly the dimensions, bounds, function values, gradients, Jacobian and Hessian of the problem it stands for at every point, in either index style, after any history of modifications, and modifying one copy never changes another. A cutoff row bounds the user's own objective strictly below the given value, and a cut's reported violation is its true violation.",
  ["histories", "inputs"], "all histories of row additions/removals, copies, bound and objective changes and pump settings, all points", "Ipopt silently converges to something else when a derivative is wrong; tests only see final values of one model without any cuts.",
  ["src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp", "src/Algorithms/QuadCuts/BonQuadRow.cpp", "src/Algorithms/QuadCuts/BonQuadCut.cpp", "src/Algorithms/QuadCuts/BonTMatrix.cpp", "src/Interfaces/BonTNLP2FPNLP.cpp", "src/Interfaces/BonTMINLP2TNLP.cpp", "src/Algorithms/QuadCuts/BonTMINLPLinObj.cpp"],
  [("appended rows", "src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp, BonQuadRow.cpp"), ("feasibility problem", "src/Interfaces/BonTNLP2FPNLP.cpp"), ("objective as a row", "src/Algorithms/QuadCuts/BonTMINLPLinObj.cpp")], "TNLP callbacks get_nlp_info/get_bounds_info/eval_*")
prop("P08", "Linearisations keep every feasible point and are tight where they are made",
  "Every linear cut Bonmin derives from a convex problem - outer approximation rows, single-constraint cuts, Benders cuts, the linear relaxation it builds, and everything its own cut generators (OA decomposition, feasibility checker, ECP, NLP-based, feasibility pump) hand to the MILP side during a run - is satisfied by every point feasible for the nonlinear problem (in the whole original box when the cut is declared global, in the current box otherwise), the objective variable being at least the objective there. Unless a tolerance option asks otherwise, the linearisation made at a point is exact at that point: it agrees with the constraint's (and objective's) value there, so it cuts the point off if it violates the constraint; after any history of bound changes, rows added or removed, copies and solves.",
  ["histories", "inputs"], "all histories of an interface object, all linearisation points, all runs of the LP-based algorithms, all feasible points of the problem", "An invalid cut silently removes solutions of a few unlucky problems; a slack cut silently makes the algorithms cycle or stop early; tests look at one final value.",
  ["src/Interfaces/BonOsiTMINLPInterface.cpp", "src/Algorithms/OaGenerators/BonOaDecBase.cpp", "src/Algorithms/OaGenerators/BonOAMessages.cpp", "src/Algorithms/OaGenerators/BonOaFeasChecker.cpp", "src/Algorithms/OaGenerators/BonOACutGenerator2.cpp", "src/Algorithms/OaGenerators/BonEcpCuts.cpp", "src/Algorithms/OaGenerators/BonOaNlpOptim.cpp", "src/Algorithms/OaGenerators/BonFpForMinlp.cpp"],
  [("gradient cuts", "src/Interfaces/BonOsiTMINLPInterface.cpp getOuterApproximation, getConstraintOuterApproximation, getBendersCut, extractLinearRelaxation, cleanNnz, cleanNnzAndCut"), ("generators", "src/Algorithms/OaGenerators")], "OsiCuts filled by the interface and by generateCuts of each generator")
prop("P09", "A relaxation that could not be solved is never taken for an infeasible one",
  "Whatever subset of the NLP solver's calls fails (iteration limit, no convergence, an exception inside the solver), and wherever in the run, a failed relaxation is attempted again over the same box, once without warm start and then from as many random points as the user asked for, until one attempt succeeds. If none does: under nlp_failure_behavior=stop nothing is given up - the run ends with an error and no solution, or else its answer (optimal value and point, or infeasibility) is true; under fathom only the node concerned is given up and the answer is right about everything else. Failures that cannot be cured (ill-defined problem, not enough degrees of freedom, evaluation errors) always end the run with an error, and an error is never reported unless some relaxation stayed unsolved.",
  ["fault_sequences", "inputs"], "all sets of failing NLP solves, both failure policies, all retry numbers, algorithms and options", "Taking 'unsolved' for 'infeasible' silently prunes solutions on the rare problems where the NLP solver stumbles; the tests never see a failing NLP.",
  ["src/Interfaces/BonOsiTMINLPInterface.cpp", "src/CbcBonmin/BonCbcNlpStrategy.cpp", "src/CbcBonmin/BonCbc.cpp", "src/Interfaces/BonTNLPSolver.cpp", "src/Algorithms/Branching/BonChooseVariable.cpp", "src/Algorithms/OaGenerators/BonOaDecBase.cpp"],
  [("retries and policy", "src/Interfaces/BonOsiTMINLPInterface.cpp solveAndCheckErrors, resolveForRobustness, initialSolve, resolve, isAbandoned, isProvenPrimalInfeasible"), ("nodes", "src/CbcBonmin/BonCbcNlpStrategy.cpp status"), ("classes of failures", "src/Interfaces/BonTNLPSolver.cpp isError, isRecoverable")], "every NLP solve (box and status, failures injected at the TNLPSolver interface) and the final result of a run")
prop("P10", "Every option the user gives is the option the run uses",
  "Options may be given as a string, in a file, by calls on the option list, or in bonmin.opt, as bonmin.NAME or as the bare NAME, in any order and number. A value read from a string or a file is final for that name; one set by a call is replaced by later assignments; a value under bonmin.NAME is preferred to one under NAME; an unknown name or a value outside the option's range is refused with an error (or a false return), changes nothing, and ends the reading of that string or file while what was read before stays; bonmin.opt is read, last, if and only if no string or file was read before. After initialisation the setup, every copy of it (which takes no heuristics), and the branch-and-bound run use exactly the resulting values for limits, tolerances, gaps, cutoff, strong branching, reliability, cut passes, node comparison, tree search, failure policy, algorithm, the cut generators with their frequencies and the heuristics asked for. An option never given has its documented default, the one of the chosen algorithm where it has one (B-BB: nlp-strong-branching, number_strong_branch 1000, number_before_trust 1; most-fractional and reliability-branching impose theirs; 0 deactivates solution and iteration limits; B-OA, B-QG, B-Ecp and B-iFP set the frequencies of the cuts they are made of).",
  ["inputs", "histories"], "all sequences of assignments by all routes, names and values, legal or not, all algorithms", "An option that is dropped, swapped with another or not copied leaves the user believing in a limit, tolerance or algorithm that the run does not use; nothing fails and no test looks.",
  ["src/Algorithms/BonBabSetupBase.cpp", "src/Algorithms/BonBonminSetup.cpp", "src/CbcBonmin/BonCbc.cpp"],
  [("reading", "src/Algorithms/BonBabSetupBase.cpp readOptionsFile, readOptionsString, use(nlp), gatherParametersValues"), ("presets and generators", "src/Algorithms/BonBonminSetup.cpp initializeBonmin, initializeBBB, addMilpCutGenerators"), ("use", "src/CbcBonmin/BonCbc.cpp Bab::branchAndBound")], "the parameters of the setup, of its copy and of the Cbc model, the generators with frequencies and the heuristics, and whether each assignment was refused")
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w").write("".join(json.dumps(p) + "\n" for p in P))
