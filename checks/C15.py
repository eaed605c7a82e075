"""C15: dump/load round trips keep the tree, and queries agree with its structure."""
import builtins
import itertools
import json as realjson
import os
import tempfile
from .common import *
from .simlib import Stub, sim_root, CTRL, all_nodes
from verse.analysis import analysis_tree as AT
from verse.analysis.analysis_tree import first_transitions

LEVEL = "model_checking"
BOUNDS = "all tree shapes of up to 4 nodes (5 in thorough) with arbitrary values, times, ids and assertion records, 1-2 agents; trees produced by the real " \
         "simulator and verifier from arbitrary traces (up to 2 transitions)"
OUTSIDE = "the agent objects themselves (only their type names are written, by design); the JSON library (its encoding of values is modelled, witnesses use the real one)"
ASSUMPTIONS = ["JSON keeps every finite float, maps tuples to lists and keys to strings, and refuses arrays and other objects"]

TREES = {  # parent of every node
    "root": [None], "pair": [None, 0], "chain3": [None, 0, 1], "fork3": [None, 0, 0], "chain4": [None, 0, 1, 2], "fork4": [None, 0, 0, 0],
    "y4": [None, 0, 1, 1], "left4": [None, 0, 0, 1], "right4": [None, 0, 0, 2], "deep5": [None, 0, 1, 2, 3], "bin5": [None, 0, 0, 1, 1], "mix5": [None, 0, 0, 2, 3],
}


class FakeJson:
    """what json does to the values it is given"""

    def __init__(self, ctx):
        self.ctx, self.files = ctx, {}

    def conv(self, v):
        if v is None or isinstance(v, (bool, str, int, float)) or hasattr(v, "z"):
            return v
        if isinstance(v, (list, tuple)):
            return [self.conv(i) for i in v]
        if isinstance(v, dict):
            return {k if isinstance(k, str) else str(k): self.conv(x) for k, x in v.items()}
        raise TypeError(f"not JSON serializable: {type(v)}")

    def dump(self, obj, f, **kw):
        f.content = self.conv(obj)

    def load(self, f):
        return self.conv(f.content)


class FakeFile:
    def __init__(self, files, fn, mode):
        if "w" in mode:
            files[fn] = self
            self.content = None
        else:
            self.__dict__ = files[fn].__dict__

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def roundtrip(ctx, tree):
    if ctx.sym:
        fj = FakeJson(ctx)
        ctx.patch(AT, "json", fj)
        ctx.patch(AT, "open", lambda fn, mode="r": FakeFile(fj.files, fn, mode))
        tree.dump("t.json")
        return AnalysisTree.load("t.json")
    fd, fn = tempfile.mkstemp(suffix=".json")
    os.close(fd)
    try:
        tree.dump(fn)
        return AnalysisTree.load(fn)
    finally:
        os.unlink(fn)


def eqv(ctx, a, b):
    """same value (lists and tuples alike)"""
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and ctx.And(True, *[eqv(ctx, a[k], b[k]) for k in a])
    if isinstance(a, (list, tuple, np.ndarray)) or hasattr(a, "tolist") and not hasattr(a, "z") and getattr(a, "ndim", 0):
        a, b = list(a), list(b)
        return len(a) == len(b) and ctx.And(True, *[eqv(ctx, x, y) for x, y in zip(a, b)])
    if isinstance(a, str) or a is None or isinstance(b, str) or b is None:
        return a == b
    return ctx.exact(a, b)


def same_tree(ctx, t, u):
    ctx.check("structure", len(t.nodes) == len(u.nodes) and t.type == u.type)
    q = [(t.root, u.root)]
    while q:
        n, m = q.pop()
        ctx.check("structure", n.id == m.id and n.height == m.height and n.type == m.type and len(n.child) == len(m.child) and n.ndigits == m.ndigits)
        ctx.check("agents", set(n.agent) == set(m.agent))
        ctx.check("trace", eqv(ctx, n.trace, m.trace))
        ctx.check("mode", eqv(ctx, n.mode, m.mode))
        ctx.check("init", eqv(ctx, {a: list(v) for a, v in n.init.items()}, m.init))
        ctx.check("start", ctx.exact(n.start_time, m.start_time))
        ctx.check("asserts", eqv(ctx, n.assert_hits or {}, m.assert_hits or {}))
        ctx.check("static", eqv(ctx, n.static, m.static) and eqv(ctx, n.uncertain_param, m.uncertain_param))
        q += list(zip(n.child, m.child))


def make(ctx, shape, sim, ids=("a", "b"), rename=False, starts=None):
    par = TREES[shape]
    agents = {a: PlainAgent(a) for a in ids}
    nodes = []
    for i, p in enumerate(par):
        trace = {}
        for j, a in enumerate(ids):
            rows = [[ctx.real(f"{i}{a}{r}{c}", -9, 9) for c in range(2 + j)] for r in range(2)]
            trace[a] = ctx.array(rows) if sim else rows
        init = {a: [ctx.real(f"{i}{a}i", -9, 9)] if sim else [[ctx.real(f"{i}{a}il", -9, 9)], [ctx.real(f"{i}{a}iu", -9, 9)]] for a in ids}
        nid = i if not rename else (0 if i == 0 else len(par) - i + 3)
        nd = AnalysisTreeNode(trace=trace, init=init, mode={a: ("ABC"[(i + j) % 3],) for j, a in enumerate(ids)}, static={a: ["S"] if a == "a" else [] for a in ids},
                              uncertain_param={a: [[ctx.real(f"{i}{a}u", -9, 9)]] if a == "b" else [] for a in ids}, agent=agents, height=0 if p is None else nodes[p].height + 1,
                              assert_hits={"a": ["lim", None]} if i % 2 else {}, child=[], start_time=0.1 * i + 0.00013 if starts is None else starts[i], ndigits=10,
                              type=AnalysisTreeNodeType.SIM_TRACE if sim else AnalysisTreeNodeType.REACH_TUBE, id=nid)
        nodes.append(nd)
        if p is not None:
            nodes[p].child.append(nd)
    return nodes


def trip(ctx, shape, sim, rename=False):
    t = AnalysisTree(make(ctx, shape, sim, rename=rename)[0])
    u = roundtrip(ctx, t)
    same_tree(ctx, t, u)
    if all(len(TREES[shape]) == k for k in (1,)):
        return
    ctx.check("usable", first_transitions(u) == first_transitions(t) and u.leaves() == t.leaves())


def queries(ctx, shape):
    par = TREES[shape]
    given = [0.00013 + 0.5 * i for i in range(len(par))]
    nodes = make(ctx, shape, False, starts=given)
    t = AnalysisTree(nodes[0])
    ctx.check("times", all(abs(n.start_time - g) < 1e-9 for n, g in zip(nodes, given)))
    ids = lambda ns: sorted(id(n) for n in ns)
    ctx.check("nodes", ids(t.nodes) == ids(nodes) and t.root is nodes[0])
    leafs = [n for i, n in enumerate(nodes) if i not in par]
    ctx.check("leaves", t.leaves() == len(leafs) and ids(t.get_leaf_nodes(t.root)) == ids(leafs))

    def depth(i):
        return 1 if par[i] is None else 1 + depth(par[i])
    ctx.check("height", t.height(t.root) == max(depth(i) for i in range(len(par))))

    def under(i, j):
        return i == j or (par[i] is not None and under(par[i], j))
    for j, n in enumerate(nodes):
        sub = [i for i in range(len(par)) if under(i, j)]
        ctx.check("leaves", ids(t.get_leaf_nodes(n)) == ids([nodes[i] for i in sub if i not in par]))
        ctx.check("height", t.height(n) == max(depth(i) for i in sub) - depth(j) + 1)


def first(ctx, shape):
    par = TREES[shape]
    # start times increase along every branch
    st = []
    for i, p in enumerate(par):
        s = 0 if p is None else ctx.real(f"st{i}", 0, 9)
        if p is not None:
            ctx.assume_le(st[p], s)
        st.append(s)
    nodes = make(ctx, shape, False)
    for n, s in zip(nodes, st):
        n.start_time = s
        n.mode = {a: ("ABC"[ctx.choice(f"m{nodes.index(n)}{a}", 2)],) for a in ("a", "b")}
    got = first_transitions(AnalysisTree(nodes[0]))
    for a in ("a", "b"):
        times = [st[i] for i, p in enumerate(par) if p is not None and nodes[i].mode[a] != nodes[p].mode[a]]
        ctx.check("first", (a in got) == bool(times))
        if times:
            ctx.check("first", ctx.exact(got[a], ctx.min(*times)))


MODES = {  # state fields -> (mode, track, rest)
    "agent_only": (["agent_mode: AgentMode"], ("A",)),
    "agent_track": (["agent_mode: AgentMode", "track_mode: TrackMode"], ("A", "T1")),
    "track_agent": (["track_mode: TrackMode", "agent_mode: AgentMode"], ("T1", "A")),
    "two": (["agent_mode: AgentMode", "side_mode: SideMode"], ("A", "L")),
    "three": (["side_mode: SideMode", "track_mode: TrackMode", "agent_mode: AgentMode"], ("L", "T0", "B")),
}


def modes(ctx, kind):
    fields, mode = MODES[kind]
    src = ("from enum import Enum, auto\nimport copy\nclass AgentMode(Enum):\n    A = auto()\n    B = auto()\nclass SideMode(Enum):\n    L = auto()\n    R = auto()\n"
           "class TrackMode(Enum):\n    T0 = auto()\n    T1 = auto()\nclass State:\n    x: float\n    " + "\n    ".join(fields) +
           "\n    def __init__(self, x, " + ", ".join(fields) + "):\n        pass\ndef decisionLogic(ego: State):\n    output = copy.deepcopy(ego)\n"
           "    if ego.x > 2:\n        output.x = 0\n    return output\n")
    ag = agent(src, "a")
    v = ctx.real("x", 0, 1)
    nd = node({"a": [[0, v], [1, v]]}, {"a": mode}, {"a": ag})
    names = [f.split(": ")[1] for f in fields]
    tr = mode[names.index("TrackMode")] if "TrackMode" in names else None
    ctx.check("track", nd.get_track("a", mode) == tr)
    rest = [m for m, n in zip(mode, names) if n != "TrackMode"]
    got = nd.get_mode("a", mode)
    ctx.check("mode_of", got == (rest[0] if tr is not None or len(mode) == 1 else mode))


def simrun(ctx, ctrls):
    ids = [f"a{i+1}" for i in range(len(ctrls))]
    stub = Stub(ctx, lo=-5, hi=5)
    agents = {a: stub.install(agent(controller(CTRL[c][0], others=CTRL[c][1]), a) if c else PlainAgent(a)) for a, c in zip(ids, ctrls)}
    root = sim_root(ids, {a: [ctx.real(f"{a}_{v}", -5, 5) for v in ("x", "y")] for a in ids}, {a: "A" for a in ids}, agents)
    t = SIM.Simulator(config()).simulate(root, BaseSensor(), 1.0, 0.5, 2, LaneMap(), 0, [])
    ctx.check("nodes", [n.id for n in all_nodes(t.root)] == [n.id for n in t.nodes] and len({n.id for n in t.nodes}) == len(t.nodes))
    same_tree(ctx, t, roundtrip(ctx, t))


ACTRL = {"asrt": ("    output = copy.deepcopy(ego)\n    assert ego.y < 3, 'lim'\n    if ego.agent_mode == AgentMode.A and ego.x > 2:\n"
                  "        output.agent_mode = AgentMode.B\n        output.y = ego.x - 1\n    return output\n", None)}


def verrun(ctx, ctrls):
    from verse.analysis import verifier as VM
    ids = [f"a{i+1}" for i in range(len(ctrls))]
    agents = {a: agent(controller(*[(ACTRL.get(c) or CTRL[c])[0]], others=(ACTRL.get(c) or CTRL[c])[1]), a) if c else PlainAgent(a) for a, c in zip(ids, ctrls)}
    for a in ids:
        agents[a].TC_simulate = a
    d = {(a, m): [ctx.real(f"d{a}{m}{v}", -2, 2) for v in "xy"] for a in ids for m in "ABC"}

    def tube(mode, init, horizon, step, sim, *rest, **kw):
        a = sim if isinstance(sim, str) else ids[0]
        m = mode[0]
        rows = []
        for k in range(int(round(horizon / step))):
            lo = [init[0][i] + ctx.min(k * d[a, m][i], (k + 1) * d[a, m][i]) for i in range(2)]
            hi = [init[1][i] + ctx.max(k * d[a, m][i], (k + 1) * d[a, m][i]) for i in range(2)]
            rows += [[k * step] + lo, [(k + 1) * step] + hi]
        return ctx.array(rows)
    ctx.patch(VM, "calc_bloated_tube", tube)
    inits = {}
    for a in ids:
        lo = [ctx.real(f"{a}{v}l", -3, 3) for v in "xy"]
        inits[a] = [lo, [lo[0] + ctx.real(f"{a}xw", 0, 1), lo[1]]]
    root = AnalysisTreeNode.root_from_inits({a: [inits[a]] for a in ids}, {a: ("A",) for a in ids}, {a: [] for a in ids}, {a: [] for a in ids}, agents, 10, AnalysisTreeNodeType.REACH_TUBE)
    v = Verifier(config())
    t = v.compute_full_reachtube(root, BaseSensor(), 1.0, 0.5, 1, LaneMap(), 1, ReachabilityMethod.DRYVR, 0, [], {})
    ctx.check("nodes", len({n.id for n in t.nodes}) == len(t.nodes))
    same_tree(ctx, t, roundtrip(ctx, t))


ALL = ("structure", "agents", "trace", "mode", "init", "start", "asserts", "static")


def cases(tier):
    out = []
    small = [s for s in TREES if tier == "thorough" or len(TREES[s]) < 5]
    for s in small:
        for sim in (True, False):
            out.append(Case(f"trip-{s}-{'sim' if sim else 'set'}", trip, shape=s, sim=sim, must_reach=ALL))
        out.append(Case(f"query-{s}", queries, shape=s, must_reach=("nodes", "leaves", "height", "times")))
    out.append(Case("trip-ids", trip, shape="left4", sim=False, rename=True, must_reach=ALL))
    for s in ("root", "pair", "chain3", "fork3", "left4", "right4") + (("y4", "chain4", "fork4", "bin5", "mix5") if tier == "thorough" else ()):
        out.append(Case(f"first-{s}", first, shape=s, must_reach=("first",)))
    for k in MODES:
        out.append(Case(f"modes-{k}", modes, kind=k, must_reach=("track", "mode_of")))
    for c in (["reset"], ["nondet", None]):
        out.append(Case(f"simrun-{'-'.join(map(str, c))}", simrun, ctrls=c, must_reach=ALL))
    for c in (["reset"], ["asrt"], ["simple", None]):
        out.append(Case(f"verrun-{'-'.join(map(str, c))}", verrun, ctrls=c, must_reach=ALL))
    return out
