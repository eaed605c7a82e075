"""Writes properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
                  quantifier=dict(over=over, text=" ".join(text.split())), why_tests_cant=" ".join(why.split()),
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe or [], hook_needed=None)))


VER, SIMF, GE = "verse/analysis/verifier.py", "verse/analysis/simulator.py", "verse/parser/parser.py"
RUNS = "The stable tests run a handful of scenarios end to end and mostly assert nothing about the sets computed; "

p("C01", "A guard is evaluated exactly on a box of states",
  """When verification decides a controller condition on a box of states, it reports the condition as possible exactly
  when some state of the box satisfies it, and as certain only when every state of the box satisfies it. This holds for
  every combination of comparisons, connectives, mode tests and quantification over the other agents.""",
  ["inputs", "programs"], "every box of states (all real bounds), every mode assignment, every guard shape of the supported grammar",
  RUNS + "whether a guard is 'possible' on a box is a statement about all states of all boxes.",
  ["verse/analysis/analysis_tree.py", "verse/parser/parser.py", VER], [("guard expression on a hyper-rectangle", "GuardExpressionAst.evaluate_guard_cont / evaluate_guard_disc / evaluate_guard_hybrid / evaluate_guard"),
   ("transition search", "Verifier.get_transition_verify_opt")])
p("C02", "Reset sets contain the controller's result at every state of the set",
  """When a transition is taken from a box of states, the successor box contains the result the controller's assignments
  give at every state of that box; variables and modes the controller does not assign keep their values. For an affine
  assignment the successor interval is exactly the range of the assigned expression over the box.""",
  ["inputs", "programs"], "every box, every state in it, every assignment expression that is affine or a product of variables",
  RUNS + "containment is over all states of all boxes, and the tests never compare successor sets with controller results.",
  [VER], [("assignments on a box", "Verifier.apply_reset / Verifier.find_min / find_max")])
p("C03", "Verification finds every transition the controller can take from a tube",
  """If the controller, run on some joint state of the agents' tubes at one time step, changes an agent's state, then
  verification creates a transition to the resulting mode whose successor set contains the resulting state, and it
  records the time step at which it happens. Conversely a transition is created only when some joint state of the tubes
  triggers it, and a transition is urgent (no continuation past it) only when it is certain.""",
  ["inputs", "programs"], "all tubes of up to a few time segments with arbitrary real bounds, all joint states, all mode assignments",
  RUNS + "missing a transition is silent: the run just explores less.",
  [VER], [("search over tube segments, hits and truncation", "Verifier.get_transition_verify_opt"), ("tube truncation", "Verifier.verify_step and urgent flags")])
p("C04", "Verification reports every reachable assertion violation",
  """If some joint state of the computed tubes falsifies an assertion of a controller, verification reports that
  assertion for that agent at or before the time step at which it can fail, and it stops exploring from that point unless asked not to.
  If no joint state of the tubes falsifies any assertion, none is reported.""",
  ["inputs", "programs"], "all tubes of a few segments, all joint states, controllers with several assertions and conditions",
  RUNS + "only a symbolic state can show that no unsafe state slips through or that no safe one is flagged.",
  [VER], [("assertion evaluation", "Verifier.get_transition_verify_opt / check asserts first in each segment")])
p("C05", "A discrepancy-based reachtube contains the executions it was built from",
  """The tube computed for one initial box contains, at every time step, the initial box (first step) and every sampled
  execution used to build it, with lower bounds never above upper bounds and time stamps equal to the executions'. It
  also contains every other execution whose distance to the centre execution respects the learned discrepancy bound.""",
  ["inputs"], "all initial boxes, all sample executions of a few steps in up to 3 dimensions",
  RUNS + "the tests look at tubes only through plots.",
  ["verse/analysis/dryvr.py"], [("discrepancy", "get_reachtube_segment"), ("bloating", "calc_bloated_tube"), ("sampling", "randomPoint / calcCenterPoint / calcDelta / trimTraces")])
p("C06", "Tubes of several initial boxes are merged without losing states",
  """When a tube is computed from a list of initial boxes that are entered one time step after another, the result is at every
  step the bounding box of the tubes of the boxes entered so far; boxes grouped together are treated as their bounding box entered with
  the group's first. Merging boxes yields their exact bounding box, and the inputs and the stored per-box tubes are left unchanged.""",
  ["inputs"], "all lists of up to 3 boxes / tubes of unequal lengths, all bounds",
  RUNS + "no test computes a tube from more than one initial box and compares.",
  [VER, "verse/analysis/incremental.py"], [("per-box tubes and union", "Verifier.calculate_full_bloated_tube_simple / combine_rect / combine_all")])
p("C07", "The verification tree covers every execution of the scenario",
  """For sound tubes of the continuous dynamics, every execution that follows the agents' dynamics and takes the
  controllers' transitions lies, at every time up to the horizon, inside the tube of some node on one branch of the
  verification tree. Each child starts at the time and from a set containing the state at which its transition is taken,
  and exploration goes on until the horizon, the requested depth or a violated assertion.""",
  ["inputs", "schedules", "configurations"], "all initial boxes, all dynamics tubes (as stubs), all transition times and orders within 3-4 steps",
  RUNS + "coverage quantifies over executions inside sets, which a run cannot enumerate.",
  [VER, "verse/scenario/scenario.py"], [("verification loop", "Verifier.compute_full_reachtube / verify"), ("per-node step", "Verifier.verify_step")])
p("C08", "Simulation takes exactly the transitions the controller dictates",
  """A simulation node runs until the first time step at which the decision logic of some agent, executed on the sensed
  states of that step, assigns to its state; the children are exactly the combinations of the changes the controllers
  produce there, each starting at that time from the state and mode the controller returned. Agents that do not change
  keep their state and mode, and simulated traces are the agents' own traces.""",
  ["inputs", "programs", "schedules"], "all traces of a few steps (all real values), all modes, nondeterministic controllers, several agents switching at once",
  RUNS + "a scenario run samples one trajectory.",
  [SIMF], [("transition detection", "Simulator.get_transition_simulate / get_transition_simulate_simple"), ("tree construction", "Simulator.simulate / simulate_simple")])
p("C09", "Simulation reports an assertion violation exactly when one occurs",
  """When an assertion of an agent's controller is false at a simulated state the simulation reports that assertion for
  that agent and stops that branch at that time step. No assertion that holds at every simulated state is reported.""",
  ["inputs", "programs"], "all traces of a few steps, controllers with assertions alone or with transitions, several agents",
  RUNS + "no stable test violates an assertion.",
  [SIMF], [("assertion evaluation", "Simulator.get_transition_simulate / check_simulation_assert")])
p("C10", "The analysed form of a controller means the same as the Python controller",
  """The conditions, assignments and assertions that are analysed are equivalent to running the controller as ordinary
  Python: at every state the same assignments take effect and the same assertions fail. The form evaluated in simulation
  and the form evaluated in verification agree at every single state, and the textual rendering of a
  condition has the same meaning as the condition.""",
  ["inputs", "programs"], "all states and modes, for a corpus of controllers covering the supported language (branches, elif, early assignments, helper functions, lambdas, any/all, comprehension filters)",
  RUNS + "equivalence is over all states.",
  [GE], [("controller compilation", "ControllerIR.parse / proc / cond handling"), ("rendering", "unparse")])
p("C11", "Sensing reports exactly the states and modes of the agents",
  """The default sensor gives the decision logic exactly the current continuous state (or set bounds), modes and static
  values of the ego agent and, under the name of its argument for other agents, of every other agent, each value under its own name
  and in the same order of agents, and nothing about itself among the others.""",
  ["inputs", "configurations"], "all states and boxes, all agent subsets and argument signatures of up to 4 agents",
  RUNS + "name/value association is over all signatures.",
  ["verse/sensor/base_sensor.py"], [("sensing", "BaseSensor.sense / set_states_2d / set_states_3d / add_states_2d / add_states_3d")])
p("C12", "Caches only ever return results valid for the request",
  """A cached result is returned only for a request it covers: agent, mode and time step agree, the horizon is
  reached, and the cached initial set contains the requested one (tubes, transitions) or the initial states are equal (simulations), up to
  the tolerance of 1e-6; times are those of the request. Storing, returning and using a result never changes any other stored result.""",
  ["histories", "inputs"], "all sequences of a few adds and queries with arbitrary boxes and modes",
  RUNS + "wrong hits need a history of two runs.",
  ["verse/analysis/incremental.py", VER, SIMF], [("caches", "ReachTubeCache / SimTraceCache and check_hit / add_tube / add_segment")])
p("C13", "Incremental re-analysis gives the same answer as analysis from scratch",
  """With incremental analysis switched on, repeating an analysis after changing initial sets, modes, controllers, assertions or
  the horizon gives, in simulation, the same tree and the same assertion violations as an analysis without any history. In verification the
  tree covers every execution the tree without history covers, and it is the same tree with the same violations when the initial sets recur.""",
  ["histories", "inputs", "programs"], "all pairs of runs over symbolic initial sets/traces with a controller change in between",
  RUNS + "needs pairs of runs.",
  ["verse/analysis/incremental.py", VER, SIMF], [("reuse", "Verifier.verify / compute_full_reachtube with cache; Simulator.simulate with cache; convert_sim_trans / convert_reach_trans")])
p("C14", "Tree containment and equality are decided by the sets they contain",
  """One verification tree is reported to contain another only if every state of the other lies in it (up to the tolerance) at the same time for
  the same agent, and is refused only if some state does not; a tree always contains and equals itself. Simulations are reported equal exactly when they have
  the same branches with the same traces up to the tolerance.""",
  ["inputs"], "all trees of up to 3 nodes and a few steps with arbitrary bounds",
  RUNS + "one test only compares trees of identical runs.",
  ["verse/analysis/analysis_tree.py"], [("comparison", "AnalysisTree.contains / AnalysisTree.is_equal")])
p("C15", "Saving and loading a tree loses nothing, and queries return the right nodes",
  """A tree written out and read back has the same structure, traces, modes, initial states, times and assertion records.
  Queries over a tree (all nodes, height, leaves, modes and tracks of a node, time of the first transition of every agent) agree with its structure.""",
  ["inputs", "histories"], "all tree shapes of up to 5 nodes with arbitrary values",
  RUNS + "round trips are over all trees.",
  ["verse/analysis/analysis_tree.py"], [("persistence", "AnalysisTree.dump / load; AnalysisTreeNode._to_dict / _from_dict"), ("queries", "AnalysisTree._get_all_nodes / height / leaves / get_leaf_nodes; AnalysisTreeNode.get_mode / get_track; first_transitions")])
p("C16", "Lane coordinates and positions are consistent",
  """For every point beside a lane segment (straight or circular), converting it to longitudinal/lateral coordinates and
  back gives the point again, headings are tangent to the lane, and the longitudinal coordinate advances at unit speed
  along the lane in driving direction with positive lateral offset consistently on one side. A lane refers a position to the
  segment along which it lies and to which it is nearest sideways, and adds up the lengths of the segments before it.""",
  ["inputs"], "all segment end points / centres / radii, all points within the lane's extent",
  RUNS + "geometry tests look at fixed maps.",
  ["verse/map/lane_segment.py", "verse/map/lane.py", "verse/map/lane_map.py"], [("coordinates", "StraightLane / CircularLane .position / .local_coordinates / .heading_at"), ("lane lookup", "Lane.get_lane_segment / LaneMap")])
p("C17", "Map functions on sets of positions contain their value at every position",
  """When a guard uses a map function (longitudinal or lateral position) on a box of positions, the interval used in
  verification contains the value of the function at every position of the box.""",
  ["inputs"], "all boxes of positions in the extent of a lane, straight and circular lanes",
  RUNS + "set valuations are never checked against point valuations.",
  ["verse/automaton/guard.py", "verse/map/lane_map.py"], [("set-valued map functions", "GuardExpressionAst._handle_longitudinal_set / _handle_lateral_set")])
p("C18", "Star-set operations are exact",
  """For a star set, translating it, applying an affine map and intersecting with half-spaces contain exactly the images / intersections of its
  points; membership, emptiness, per-variable ranges and supporting half-spaces agree with the set of points; operations leave their operands unchanged.
  A guard is possible on star sets whenever some of their points satisfy it, and the successor set of a transition contains the image of each such point.""",
  ["inputs"], "all star sets of dimension 2 with up to 3 generators, box and polytope predicates, all query points",
  RUNS + "no stable test uses star sets.",
  ["verse/stars/starset.py"], [("star operations", "StarSet.*")])
p("C19", "Fixed-point detection only declares containment that holds",
  """The analysis declares that a set of reachable states is contained in earlier ones (or that a fixed point is reached) only if every state
  of the former lies in the latter for the same agents and modes; a set already present is always recognised.""",
  ["inputs", "histories"], "all pairs of node tubes with up to 2 boxes each, arbitrary bounds",
  RUNS + "none exercises the containment decision.",
  ["verse/utils/fixed_points.py"], [("containment", "contain_all_fix / reach_at_fix / fixed_points_fix")])
p("C20", "Initial sets and scenario set-up are used as given",
  """Scenario set-up accepts an initial set only when it has one value (or one interval) per state variable, samples initial states only inside
  the initial set, and the analyses start from exactly the initial states, modes and parameters the user gave, for every agent.""",
  ["inputs", "configurations"], "all initial boxes, all ways of giving them (box, point), several agents",
  RUNS + "sampling is random and unchecked.",
  ["verse/scenario/scenario.py", "verse/utils/utils.py", "verse/agents/base_agent.py"], [("set-up", "Scenario.add_agent / set_init / set_init_single / _check_init"), ("sampling", "sample_rect")])
p("C21", "Refinement by partitioning covers the whole initial set",
  """Splitting a set into parts yields parts that lie inside it and together cover it; analysing a scenario piecewise therefore covers the
  same executions as analysing it whole.""",
  ["inputs"], "all boxes, up to 3 parts per dimension, up to 3 dimensions",
  RUNS + "needs every point of every box.",
  [VER], [("partition", "Verifier._partition_rect / _union_traces / combine_rect / compute_full_reachtube_step_partitioned")])
p("C22", "Library vehicle models integrate the dynamics they describe",
  """For every built-in agent a simulated trace starts at the given initial state at time zero, has uniform time stamps reaching the horizon, and each
  step follows the agent's dynamics for the mode given; controls computed for a mode are the ones that mode prescribes.""",
  ["inputs"], "all initial states, modes and step counts up to 3",
  RUNS + "numerical drift or swapped state components go unnoticed.",
  ["verse/agents/example_agent/"], [("traces", "*.TC_simulate"), ("control", "action_handler / dynamics")])
p("C23", "Geometric and interval helpers agree with their mathematical meaning",
  """Membership of a point in straight or rotated rectangles and ellipses, corners of rectangles, intersection of rectangles and of convex polygons (also
  under a displacement), distances of intervals and along segments and rays, and the roots of quadratics are the mathematically defined ones for every argument.
  Wrapping an angle, limiting, mapping linearly and removing duplicates of numbers do what their documentation says.""",
  ["inputs"], "all real arguments",
  RUNS + "boundary cases need all values.",
  ["verse/utils/utils.py"], [("helpers", "interval / rect / polygon functions")])
p("C24", "Mixed-monotone reachtubes contain every execution",
  """The tube computed by the discrete-time mixed-monotone method contains, at the start and end of every time step, every state reachable from
  any of the initial sets under the agent's dynamics with any admissible disturbance, however the decomposition is given (as a function, by derivatives
  or derived from the text of the dynamics).""",
  ["inputs", "programs"], "all initial boxes and disturbance boxes, all disturbance sequences, 1-3 steps",
  RUNS + "containment is over all disturbance sequences.",
  ["verse/analysis/mixmonotone.py", VER], [("tube", "compute_reachtube_mixmono_disc / calculate_bloated_tube_mixmono_disc"), ("use", "Verifier.compute_full_reachtube_step")])

os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
with open("properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
