"""Writes DESIGN.md: the text below, with bounds and assumptions taken from the checks themselves and the table of planted bugs from seeded/."""
import ast, glob, json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")

HEAD = """# Solver-based checking of Verse-library

24 properties (`properties.jsonl`), each decided by symbolic execution of the repository's own Python functions with an SMT
solver (z3). None is listed as not applicable. `./run.py C07` runs the quick check of C07, `--tier thorough` the deeper one,
`--case NAME` one case, `--replay FILE` a counterexample.

(This file is written by `tools/mkdesign.py`; bounds and assumptions are those of the checks.)

## Machinery

`symx/` is a symbolic executor for the repository's Python code. The real functions are imported from /repo's current
working tree and run unmodified, so the encoding is regenerated at every run; nothing is modelled by hand except the
stand-ins named below. Their numeric inputs are solver variables wrapped in overloaded objects (`symx/engine.py`). A branch
on a symbolic condition asks z3 which outcomes are feasible, and the body is executed again (depth first, by decision prefix)
until every feasible path has been explored (`Engine.explore`). Discrete inputs (modes, which agent, which step, which stored
result is asked for) are solver choices too.

Stand-ins for things that are not Python code of the repository (`symx/shims.py`):
- numpy / math / builtins (`min`, `max`, `sorted`, `round`, `float`, `str`+`eval` of numbers, `np.array`, reductions, linear
  algebra on small arrays): versions that accept symbolic values, installed in the modules under test only;
- cos, sin, arctan2, sqrt: exact algebraic facts (unit circle, order of directions, square), chosen per check (`ctx.geometry`);
- z3 as used *by Verse* to decide guards: a `Solver.check()` made by the code under test becomes a query with symbolic
  bounds (exists over the guard's variables / forall by refutation), decided by our z3 under the path condition;
- the interval tree of the caches: the same interface over symbolic interval ends;
- scipy's integrators, optimiser and linear programs: see the assumptions of C18, C22, C24;
- the continuous behaviour (`TC_simulate`, `calc_bloated_tube`) where a property is about the discrete part: arbitrary traces /
  tubes, functions of what they are given.

A check body (`checks/Cxx.py`) builds inputs, calls the real code and states assertions (`ctx.check`). The oracle is always
written independently of the code (the controller source executed as plain Python, membership of an arbitrary point, the
mathematical definition). An assertion is *discharged* when z3 proves path condition => assertion on every feasible path.
If not, the model is a counterexample candidate: it is replayed in a fresh process, on the real code, without any stand-in
for numpy, math or z3 (`ConcCtx`, same body, concrete inputs), and only a violation that shows there, beyond a tolerance that
floating point cannot explain, is reported. An exception of the code under test on a legal input is a violation as well, and
so is a path that does not end (after 200 s symbolically, confirmed by a 60 s concrete run that does not end either).

The encoding is validated the other way round on every run: for a capped number of paths a model of the path is
replayed concretely, and the assertions reached and the values observed have to agree (`traces_validated_against_impl`).

Reported in the evidence of every run: functions of the repository that were executed, paths, queries, assertions discharged,
solver time, bounds, what lies outside, how often each assertion label was reached. Vacuity is an error: a case without a
feasible path, or one that never reaches the assertions it names (`must_reach`), makes the run fail with exit 2.

Exit codes: 1 with a VIOLATION line; 0 if the property held on everything explored; 2 if the machinery cannot answer. When the
code uses something the executor does not support, or z3 answers unknown, or time runs out, that path is *undecided*: its
model is still run concretely, the case is reported (INCOMPLETE line, `exhaustive: false`), and the run counts as an answer
only if at most half of the cases are affected. On the unchanged tree every case of the quick tier is decided.

Floats are exact reals in the encoding. Comparisons in assertions have a slack of 1e-4 (1e-5 in the replay), except where the
code only passes values on (`ctx.exact`).

Bounds are bounds on structure (number of agents, variables, time steps, boxes, stored results, shapes of controllers), not
on values: every real value in the stated ranges is covered.

Cost: the quick checks take 10-130 s each on 8 cores (budget 640 s), thorough ones up to an hour.

Why tests cannot settle these: each property quantifies over all states of a box, all tubes, all histories of a cache, all
trees; the defects found (below) all needed particular combinations (two conditions at one step, a later box whose first box
is not cached, a branch that ends early, a box across a branch cut).

## Properties
"""

HOW = {
"C01": "The verifier's whole guard pipeline (`get_transition_verify_opt`: sensing, disc/continuous/hybrid evaluation, unrolling of any/all, z3 query) runs on one tube segment with symbolic bounds and modes. Oracle: the guard, executed as Python on a symbolic state, with exists/forall over the box. Both directions: reported => some state satisfies it; some state satisfies it => reported; certain => all.",
"C02": "`apply_reset` through `get_transition_verify_opt` on symbolic boxes; an arbitrary symbolic state of the box is pushed through the controller as Python and must lie in the reset box; for affine resets each bound must be attained (tightness).",
"C03": "Tubes of several segments with independent symbolic bounds; an arbitrary joint state in an arbitrary segment; the controller run as Python says what transition it takes; the transition list, its step indices, reset sets and truncation must include it, and conversely each reported transition must be witnessed.",
"C04": "As C03 with assertions: `assert_hits`, the index reported and where exploration stops, against exists-a-joint-state-that-falsifies.",
"C05": "`calc_bloated_tube` (PW) and the discrete variant on arbitrary symbolic executions, sampling points that are any value of the range; the tube must contain box, samples, and any execution within the learned bound (a further symbolic execution constrained by the discrepancy definition).",
"C06": "`calculate_full_bloated_tube_simple` and `check_cache_bloated_tube` with an arbitrary tube per box; every step of the result is compared with the union over the boxes entered so far; `combine_all`/`combine_rect` against the bounding box; inputs and stored tubes compared with copies.",
"C07": "The real verification loop (`compute_full_reachtube`, queue, `proc_result`, children, truncation) runs on symbolic initial boxes, symbolic drifts per mode and tubes with a symbolic margin; then one symbolic execution (initial state in the box, any of the enabled transitions) is followed through the tree, asserting at every step that it is inside the current node, that a child with the right mode, time and initial set exists when it takes a transition, and that the tube is not cut while transitions are still possible.",
"C08": "`Simulator.simulate` and `simulate_simple` on symbolic traces (every state at every step is free); oracle: the controllers as Python at each step; the set of children (mode, state, time, trace) must equal the set of outcomes.",
"C09": "As C08 for assertions: reported iff false at the step reached, for the right agent and label; branch stops there.",
"C10": "Corpus of controller shapes (see CORPUS), each executed as Python on symbolic states and compared with (a) the simulation form evaluated by the simulator, (b) the verification form evaluated on a point box; textual rendering: every operator pair, value of re-parsed text equals value of the expression.",
"C11": "`BaseSensor.sense` on symbolic states/boxes for every position of the ego among 1-4 agents; every value under its name.",
"C12": "Histories of symbolic stores followed by symbolic requests on the real caches; a hit must be valid (coverage, equality, horizon, step, mode), values returned equal to those stored, nothing stored changes; plus whole simulations/verifications whose answers are compared with what was stored.",
"C13": "Two or three real runs (simulate / verify) with `incremental` on, symbolic initial sets, with a change in between, compared to a run without history: trees compared node by node (simulation, and verification when initial sets recur), coverage of an arbitrary point otherwise.",
"C14": "`contains`/`is_equal` on pairs of symbolic trees: accepted => an arbitrary symbolic state of the other tree is in some box; refused => not every box covered.",
"C15": "`dump`/`load` on symbolic trees (json modelled by its value mapping, real json in replays); queries against recursive definitions on every shape; trees produced by real runs.",
"C16": "`position`/`local_coordinates`/`heading_at` on symbolic segments and points as polynomial identities over the unit circle; lane lookup against distance definition.",
"C17": "A guard with a map function on a symbolic box through the verifier; if the point p of the box satisfies it, the transition must be possible.",
"C18": "StarSet operations on symbolic centers/generators/predicates: membership of an arbitrary point before and after, linear programs replaced by optimality (Farkas-type) facts.",
"C19": "`contain_all_fix`, `reach_at_fix`, `fixed_points_fix` on symbolic trees; the solver query they make is decided exactly and compared with membership of an arbitrary joint state.",
"C20": "The real set-up calls with symbolic bounds in every way of giving them; the roots handed to the (recorded) analyses must hold exactly what was given; samples inside the box.",
"C21": "`_partition_rect` on symbolic boxes: an arbitrary point of the box is in some part, every part inside; partitioned verification against an arbitrary execution.",
"C22": "`TC_simulate` of each agent with the integrator replaced by one explicit step of the function/parameters it is given: step = dynamics written down independently; action handlers against the documented control law per mode.",
"C23": "Helpers on symbolic geometry: equivalence with definitions (existence of a common point, projection etc.).",
"C24": "`compute_reachtube_mixmono_disc` with decompositions given in all three ways; an arbitrary symbolic execution with arbitrary disturbance per step is in the tube at each step.",
}

FALSE = """
## False alarms met while building, and what was corrected

- C01/C03: two conditions on one agent were first required to be combined into one successor; the code documents
  nondeterminism between independently assigned values, so the oracle accepts any of the assignments executed (C10 too).
- C05: a trimmed trace list of different lengths was required to cover the longest; the documentation says the shortest.
- C07: executions were first observed in continuous time; the simulator and the controllers of Verse are sampled, so executions are observed
  at the time steps. The executions that pass by a guard without taking it are KF2, a genuine loss that is recorded.
- C08: a controller that re-assigns the value its mode already has was counted as a change; it is not one (outside the bounds).
- C12/C13: requests differing by less than the documented tolerance (1e-6) are not required to miss.
- C14: matching of children that are equal up to the tolerance is not unique; the refusal is only required when they differ by a third of it.
- C16: heading where two segments claim a position was ambiguous; the nearest sideways decides.
- C19: numbering of modes is per call; comparison across trees with differently ordered modes is outside.
- C17: straight segments in arbitrary direction took the solver up to 280 s per case and sometimes more than its time; the quick check uses 8 directions
  (any place, any length), the thorough one any direction.
- Engine: a symbolic `round`/`int` was modelled as identity within an epsilon; it is now a choice over the feasible integers.

## Genuine defects

Repaired ones (49 "fix:" commits) and recorded ones (KF1 of C03, KF2 and KF3 of C07, KF4 of C02) are in KNOWN_FINDINGS.md. The recorded ones
are not small: KF1/KF2 are the policy of cutting a tube after the first run of hits, KF3 the grouping of initial sets
(`init_seg_length`), each of which changes the size of every analysis if repaired; KF4 (resets evaluated at the corners of the
set, where the code documents that it assumes linear ones) would need a range analysis of arbitrary expressions.

Seen, judged outside the properties, neither repaired nor listed: unconditional assignments of a controller are ignored by the
analyses (C10 states it as outside); non-list `other: State` arguments; maps whose transition table lacks a
triple raise KeyError; 3-dimensional maps; star-set incremental path (unreachable names); `unknown` answers of z3 on
nonlinear guards are treated as "impossible".

## What is not covered

Distributed runs (ray): the same step functions run in workers, only scheduling differs; it is switched off in the checks.
Continuous-time integrators, learned reachability (NeuReach), plotting, the OpenDRIVE importer, the 3-D maps, the web front end and
the demos have no check: numerical libraries, drawing or user code.

## Planted bugs

Each is in `seeded/<id>` with a demonstration. `planted` column: the property broken. All were written from the property's
text; mutation testing (about 90 further changes in scratch copies) led to these strengthenings: C07 (child sets,
cut of the tube, resets without mode change), C14 (tolerance 0), C15 (start times), C20 (order of names, agents added twice,
changed configuration), C11/engine (np.sort of matrices), driver (paths that do not end).

| id | property | needs | caught by |
|---|---|---|---|
"""


def doc(p):
    t = ast.parse(open(p).read())
    d = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("BOUNDS", "OUTSIDE", "ASSUMPTIONS"):
            d[n.targets[0].id] = ast.literal_eval(n.value)
    return d


out = HEAD
for l in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(l)
    d = doc(os.path.join(here, "checks", p["id"] + ".py"))
    out += f"\n### {p['id']} {p['title']}\n\n{p['statement']}\n\n*How.* {HOW[p['id']]}\n\n*Bounds.* {d['BOUNDS']}.\n\n*Outside.* {d['OUTSIDE']}.\n\n*Assumed.* {'; '.join(d['ASSUMPTIONS'])}.\n"
out += FALSE
try:
    res = json.load(open(os.path.join(here, "tools", "caught.json")))
except OSError:
    res = {}
for s in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    m = json.load(open(s))
    i = os.path.basename(os.path.dirname(s))
    out += f"| {i} | {m['property']} | {m['needs']} | {res.get(i, m['property'])} |\n"
open(os.path.join(here, "DESIGN.md"), "w").write(out)
