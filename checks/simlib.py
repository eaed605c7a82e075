"""Scenario stubs and reference semantics shared by the simulation checks."""
import itertools

from .common import *

XY = ("x", "y")
HD = "    output = copy.deepcopy(ego)\n"


class St:
    """a state as the reference sees it"""

    def __init__(self, mode, **kw):
        self.mode = mode
        self.__dict__.update(kw)


# name -> (body, others argument, groups(ego, others) -> [(condition thunk, {var: value thunk})])
# the conditions are thunks so that the symbolic reference only forks where the code has to
CTRL = {
    "simple": (HD + "    if ego.agent_mode == AgentMode.A and ego.x > 2:\n        output.agent_mode = AgentMode.B\n"
               "    if ego.agent_mode == AgentMode.B and ego.x < 1:\n        output.agent_mode = AgentMode.A\n    return output\n", None,
               lambda e, o: [(lambda: e.mode == "A" and bool(e.x > 2), {"agent_mode": lambda: "B"}),
                             (lambda: e.mode == "B" and bool(e.x < 1), {"agent_mode": lambda: "A"})]),
    "reset": (HD + "    if ego.agent_mode == AgentMode.A:\n        if ego.x + ego.y > 2:\n            output.agent_mode = AgentMode.B\n"
              "            output.x = ego.y - 1\n            output.y = -ego.x\n"
              "    elif ego.agent_mode == AgentMode.B:\n        if ego.y < -3:\n            output.agent_mode = AgentMode.C\n    return output\n", None,
              lambda e, o: [(lambda: e.mode == "A" and bool(e.x + e.y > 2),
                             {"agent_mode": lambda: "B", "x": lambda: e.y - 1, "y": lambda: -e.x}),
                            (lambda: e.mode == "B" and bool(e.y < -3), {"agent_mode": lambda: "C"})]),
    "nondet": (HD + "    if ego.agent_mode == AgentMode.A and ego.x > 2:\n        output.agent_mode = AgentMode.B\n"
               "    if ego.agent_mode == AgentMode.A and ego.y > 1:\n        output.agent_mode = AgentMode.C\n    return output\n", None,
               lambda e, o: [(lambda: e.mode == "A" and bool(e.x > 2), {"agent_mode": lambda: "B"}),
                             (lambda: e.mode == "A" and bool(e.y > 1), {"agent_mode": lambda: "C"})]),
    "samedest": (HD + "    if ego.agent_mode == AgentMode.A and ego.x > 2:\n        output.agent_mode = AgentMode.B\n        output.y = 5\n"
                 "    if ego.agent_mode == AgentMode.A and ego.x > 3:\n        output.agent_mode = AgentMode.B\n        output.y = 9\n    return output\n", None,
                 lambda e, o: [(lambda: e.mode == "A" and bool(e.x > 2), {"agent_mode": lambda: "B", "y": lambda: 5}),
                               (lambda: e.mode == "A" and bool(e.x > 3), {"agent_mode": lambda: "B", "y": lambda: 9})]),
    "indep": (HD + "    if ego.agent_mode == AgentMode.A and ego.x > 2:\n        output.agent_mode = AgentMode.B\n"
              "    if ego.agent_mode == AgentMode.A and ego.y > 1:\n        output.y = 0\n    return output\n", None,
              lambda e, o: [(lambda: e.mode == "A" and bool(e.x > 2), {"agent_mode": lambda: "B"}),
                            (lambda: e.mode == "A" and bool(e.y > 1), {"y": lambda: 0})]),
    "others": (HD + "    if ego.agent_mode == AgentMode.A and any(o.x - ego.x < 1 and o.x > ego.x for o in others):\n"
               "        output.agent_mode = AgentMode.B\n        output.y = ego.y/2\n    return output\n", "others",
               lambda e, o: [(lambda: e.mode == "A" and any(bool(p.x - e.x < 1) and bool(p.x > e.x) for p in o),
                              {"agent_mode": lambda: "B", "y": lambda: e.y / 2})]),
    "othermode": (HD + "    if ego.agent_mode == AgentMode.A and all(o.agent_mode == AgentMode.B or o.y < ego.y for o in others):\n"
                  "        output.agent_mode = AgentMode.B\n    return output\n", "others",
                  lambda e, o: [(lambda: e.mode == "A" and all(p.mode == "B" or bool(p.y < e.y) for p in o),
                                 {"agent_mode": lambda: "B"})]),
    "idle": (HD + "    if ego.agent_mode == AgentMode.C:\n        output.agent_mode = AgentMode.A\n    return output\n", None,
             lambda e, o: [(lambda: e.mode == "C", {"agent_mode": lambda: "A"})]),
}


def outcomes(name, e, others):
    """the (mode, x, y) results the controller allows at a state; [] if it leaves the state alone"""
    groups = CTRL[name][2](e, others)
    opts = {}
    for cond, upd in groups:
        if cond():
            for v, f in upd.items():
                opts.setdefault(v, []).append(f())
    if not opts:
        return []
    res = []
    for c in itertools.product(*opts.values()):
        d = dict(zip(opts.keys(), c))
        res.append((d.get("agent_mode", e.mode), d.get("x", e.x), d.get("y", e.y)))
    return res


class Stub:
    """Continuous behaviour: every call returns a trace of arbitrary values that starts where asked."""

    def __init__(self, ctx, maxrows=None, lo=-20, hi=20):
        self.ctx, self.calls, self.lo, self.hi = ctx, [], lo, hi

    def install(self, ag):
        def TC_simulate(mode, init, horizon, step, lane_map=None):
            n = int(np.ceil(round(horizon / step, 6))) if not hasattr(horizon, "z") else None
            rows = [[0.0] + list(init)]
            k = len([c for c in self.calls if c[0] == ag.id])
            for j in range(1, n + 1):
                rows.append([round(j * step, 10)] + [self.ctx.real(f"{ag.id}_c{k}_{v}{j}", self.lo, self.hi) for v in XY])
            self.calls.append((ag.id, tuple(mode), [list(r) for r in rows], horizon))
            return self.ctx.array(rows)
        ag.TC_simulate = TC_simulate
        return ag


def sim_root(ids, inits, modes, agents):
    return AnalysisTreeNode.root_from_inits(
        {a: list(inits[a]) for a in ids}, {a: tuple(modes[a]) for a in ids}, {a: [] for a in ids}, {a: [] for a in ids},
        {a: agents[a] for a in ids}, 10, AnalysisTreeNodeType.SIM_TRACE)


def all_nodes(root):
    out, q = [], [root]
    while q:
        n = q.pop(0)
        out.append(n)
        q += n.child
    return out
