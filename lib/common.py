"""Shared between the end-to-end checks: option matrix, job construction and projection of results to trace events."""
import random
import gen
from vp import scaled
LPB = ["B-OA", "B-QG", "B-Hyb", "B-Ecp", "B-iFP"]
MF = "bonmin.variable_selection most-fractional\n"

def opts(s): return "".join("bonmin." + t.strip() + "\n" for t in s.split(";") if t.strip())

BB_COMBOS = [opts(s) for s in [
  "", "variable_selection most-fractional", "variable_selection lp-strong-branching", "variable_selection qp-strong-branching",
  "variable_selection nlp-strong-branching", "variable_selection osi-simple", "variable_selection osi-strong", "variable_selection random",
  "tree_search_strategy dive", "tree_search_strategy probed-dive", "tree_search_strategy dfs-dive", "tree_search_strategy dfs-dive-dynamic",
  "tree_search_strategy top-node", "tree_search_strategy dfs-dive; max_dive_depth 1; max_backtracks_in_dive 1",
  "tree_search_strategy dfs-dive; max_dive_depth 0", "tree_search_strategy dfs-dive; max_backtracks_in_dive 0; stop_diving_on_cutoff yes",
  "tree_search_strategy probed-dive; stop_diving_on_cutoff yes", "tree_search_strategy dive; stop_diving_on_cutoff yes",
  "tree_search_strategy probed-dive; node_comparison depth-first", "tree_search_strategy dfs-dive-dynamic; node_comparison best-guess",
  "node_comparison depth-first", "node_comparison breadth-first", "node_comparison dynamic", "node_comparison best-guess", "node_comparison best-guess; variable_selection most-fractional",
  "number_strong_branch 0", "number_strong_branch 1", "number_look_ahead 2; number_strong_branch 5", "number_before_trust 0", "number_before_trust 5",
  "number_before_trust_list -1", "setup_pseudo_frac 0.", "min_number_strong_branch 2", "trust_strong_branching_for_pseudo_cost no",
  "candidate_sort_criterion worst-ps-cost", "maxmin_crit_no_sol 0.; maxmin_crit_have_sol 1.", "num_resolve_at_root 2", "num_resolve_at_node 1",
  "num_retry_unsolved_random_point 2", "heuristic_dive_fractional yes", "heuristic_dive_vectorLength yes", "heuristic_dive_MIP_fractional yes",
  "heuristic_dive_MIP_vectorLength yes", "heuristic_RINS yes", "heuristic_feasibility_pump yes", "warm_start optimum", "warm_start interior_point",
  "warm_start fake_basis", "pump_for_minlp yes", "random_point_type Andreas; num_resolve_at_root 1",
  "variable_selection osi-strong; number_strong_branch 2",
  "variable_selection qp-strong-branching; tree_search_strategy probed-dive", "sos_constraints disable", "nlp_failure_behavior fathom",
  "integer_tolerance 1e-5", "number_strong_branch_root 1", "max_consecutive_infeasible 1", "max_consecutive_failures 2",
  "read_solution_file no", "resolve_on_small_infeasibility 1e-3", "random_generator_seed 7; num_resolve_at_node 1"]]
DYN_COMBOS = [opts("enable_dynamic_nlp yes; " + s) for s in ["", "tree_search_strategy probed-dive", "node_comparison depth-first", "variable_selection most-fractional", "warm_start optimum", "num_resolve_at_root 2"]]   # only through the TMINLP interface
LP_COMBOS = [opts(s) for s in [
  "node_comparison best-guess", "node_comparison dynamic; tree_search_strategy dfs-dive-dynamic",
  "", "tree_search_strategy dive", "tree_search_strategy probed-dive", "tree_search_strategy dfs-dive", "tree_search_strategy dfs-dive-dynamic", "tree_search_strategy top-node",
  "node_comparison depth-first", "node_comparison dynamic", "oa_cuts_scope local", "add_only_violated_oa yes", "tiny_element 1e-6", "very_tiny_element 1e-12",
  "oa_decomposition yes", "pump_for_minlp yes", "generate_benders_after_so_many_oa 1", "generate_benders_after_so_many_oa 3",
  "Gomory_cuts 1; cover_cuts 1; mir_cuts 1", "clique_cuts 1; 2mir_cuts 1; flow_cover_cuts 1; lift_and_project_cuts 1; reduce_and_split_cuts 1",
  "Gomory_cuts 0; cover_cuts 0; mir_cuts 0; clique_cuts 0; 2mir_cuts 0; flow_cover_cuts 0", "milp_solver Cbc_Par", "milp_strategy find_good_sol", "milp_strategy solve_to_optimality",
  "nlp_solve_frequency 1", "nlp_solve_frequency 0", "filmint_ecp_cuts 1", "filmint_ecp_cuts 0", "ecp_max_rounds 20", "ecp_abs_tol 1e-4", "ecp_rel_tol 0.1", "ecp_probability_factor 1000",
  "feas_check_cut_types Benders", "feas_check_cut_types outer-approx", "feas_check_discard_policy keep-all", "feas_check_discard_policy treated-as-normal", "feas_check_discard_policy detect-cycles",
  "oa_rhs_relax 1e-6", "disjunctive_cut_type most-fractional", "cut_strengthening_type sglobal",
  "fp_pass_infeasible yes", "fp_pass_infeasible no", "heuristic_dive_fractional yes", "heuristic_RINS yes", "warm_start none", "oa_log_frequency 1", "max_random_point_radius 10", "num_cut_passes 1; num_cut_passes_at_root 3"]]

def job(jid, inst, o, timeout=20, **kw): return dict({"job": jid, "inst": inst, "opts": o, "timeout": timeout}, **kw)

def vary(inst, s):
    """Same mathematical problem, other spellings of it through the user's interface."""
    inst = dict(inst)
    if s % 3 == 1: inst["fortran"] = True
    if s % 4 == 2: inst["declareLinear"] = False
    rng = random.Random(7919*s + inst["seed"])
    if s % 5 == 3:     # a constant in the objective
        k = rng.choice([-1, 1])*rng.randint(3, 60); inst["obj"] = dict(inst["obj"], k=inst["obj"]["k"] + k)
        inst["oracle"] = dict(inst["oracle"], base=dict(inst["oracle"]["base"], k=inst["oracle"]["base"]["k"] + k))
    if s % 6 == 4:     # a row without bounds, somewhere among the others
        c = list(inst["con"]); c.insert(rng.randint(0, len(c)), {"q": [[0, 0, 1]] if rng.random() < .7 else [], "l": [[0, 1]], "k": 0, "lb": "-inf", "ub": "inf"}); inst["con"] = c
    if s % 9 == 5 and inst["oracle"]["ni"] > 2:     # a variable that is fixed from the start
        i = rng.randrange(inst["oracle"]["ni"]); v = rng.randint(inst["lb"][i], inst["ub"][i]); L = list(inst["lb"]); U = list(inst["ub"]); L[i] = U[i] = v
        ni = inst["oracle"]["ni"]; inst["lb"] = L; inst["ub"] = U; inst["oracle"] = dict(inst["oracle"], ilb=L[:ni], iub=U[:ni]); inst["x0"] = [v if k == i else x for k, x in enumerate(inst["x0"])]
    if s % 7 in (2, 5): inst = permute(inst, rng)
    return inst

def with_sos(inst, s, convex=True):
    """One or two special ordered sets of type 1 over binary variables (with their convexity rows, as the manual asks); the oracle knows both."""
    rng = random.Random(31*s + 7); o = inst["oracle"]; ni = o["ni"]; c = [i for i in range(ni) if inst["type"][i] == 1 and inst["lb"][i] == 0]
    if len(c) < 2: return None
    S = []; con = list(inst["con"]); icon = list(o["icon"])
    for _ in range(rng.choice([1, 1, 2])):
        t = rng.sample(c, rng.randint(2, min(4, len(c)))); S.append({"type": 1, "idx": t})
        if convex:
            eq = rng.random() < .3 and not o["cont"] and len(S) == 1; row = {"q": [], "l": [[i, 1] for i in sorted(t)], "k": 0}
            con.append(dict(row, lb=1 if eq else "-inf", ub=1)); icon.append(dict(row, haslb=eq, lb=1 if eq else 0, hasub=True, ub=1))
    inst = dict(inst, con=con, sos=[dict(t, w=[k + 1 for k in range(len(t["idx"]))]) for t in S], oracle=dict(o, sos=S, icon=icon))
    if rng.random() < .4: inst["sosPrio"] = [rng.randint(0, 3) for _ in S]
    return inst
def with_branching(inst, s):
    """User priorities and branching directions."""
    rng = random.Random(57*s + 3); inst = dict(inst); n = inst["n"]
    if s % 3 != 1: inst["priorities"] = [rng.choice([0, 1, 1, 5, 100]) if inst["type"][i] else 0 for i in range(n)]
    if s % 3 != 2: inst["directions"] = [rng.choice([-1, 0, 1]) if inst["type"][i] else 0 for i in range(n)]
    return inst
def orig(inst, k): return inst["o"][k] if "o" in inst else inst[k]
def permute(inst, rng):
    """The variables in another order; inst["perm"][i] is where variable i went (vp.run_jobs puts answers back in the original order)."""
    n = inst["n"]; p = list(range(n)); rng.shuffle(p); inst = dict(inst, perm=p, o={k: inst[k] for k in ("type", "lb", "ub", "obj", "con")})
    def mv(v): w = [0]*n; [w.__setitem__(p[i], v[i]) for i in range(n)]; return w
    for k in ("type", "lb", "ub", "x0"): inst[k] = mv(inst[k])
    def fn(f): return dict(f, q=sorted([min(p[i], p[j]), max(p[i], p[j]), c] for i, j, c in f["q"]), l=sorted([p[i], c] for i, c in f["l"]))
    for k in ("priorities", "directions"):
        if k in inst: inst[k] = mv(inst[k])
    if "sos" in inst: inst["sos"] = [dict(t, idx=[p[i] for i in t["idx"]]) for t in inst["sos"]]
    inst["obj"] = fn(inst["obj"]); inst["con"] = [fn(c) for c in inst["con"]]
    return inst

def seen_point(inst, evs):
    """Value of the best point the run came across: a continuous problem with every integer fixed, solved to optimality (before any interrupt)."""
    ii = [i for i in range(inst["n"]) if inst["type"][i]]; best = None
    for e in evs:
        if e.get("ev") == "sigint": break
        if e.get("ev") == "nlp" and e["orig"] and e["st"] in (1, 2) and all(abs(e["xl"][i] - e["xu"][i]) < 1e-6 for i in ii) and (best is None or e["obj"] < best): best = e["obj"]
    return best
def run_event(inst, evs, mode, cut=None, tol=10, gap=0, nlim=-1, slim=-1, slack=False, seen=False, sstrict=False):
    """One 'run' trace event out of a job's event list."""
    ex = evs[-1]; r = next((e for e in evs if e.get("ev") == "result"), None)
    ni = inst["oracle"]["ni"]; ci = [c["idx"] for c in inst["oracle"]["cont"]]
    e = {"ev": "run", "mode": mode, "sig": ex["sig"] if ex["sig"] else (0 if ex["rc"] == 0 else 1000 + abs(ex["rc"])), "exc": "died", "mip": -1, "has": False, "obj": 0, "bound": 0, "xi": [], "xc": [],
         "cut": 2000000000 if cut is None else scaled(cut), "tol": tol, "gap": scaled(gap), "nlim": nlim, "slim": slim, "slack": slack, "nodes": 0, "seen": 2000000000, "nsol": 0, "sstrict": sstrict}
    if seen:
        b = seen_point(inst, evs)
        if b is not None: e["seen"] = scaled(b)
    if r is not None:
        e.update(nodes=r["nodes"], nsol=r.get("nsol", 0), exc=r["exc"], mip=r["mip"], has=r["hasSol"], obj=scaled(r["bestObj"]), bound=scaled(r["bestBound"]))
        if r["hasSol"]: e["xi"] = [scaled(v) for v in r["x"][:ni]]; e["xc"] = [scaled(r["x"][i]) for i in ci]
    return e
