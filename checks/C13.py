"""C13: analysis with history gives what analysis without history gives."""
from .common import *
from verse.analysis import verifier as VM
from verse.parser.parser import ControllerIR

LEVEL = "model_checking"
BOUNDS = "histories of 2-3 runs, 1-3 agents with 2 variables and up to 3 modes, horizons of 1-3 steps, arbitrary initial states or boxes, " \
         "affine motion per agent and mode; between the runs the initial sets, the modes, the controllers (replaced in place or with " \
         "new agents), the assertions, the static parameters or the horizon change, or nothing"
OUTSIDE = "changes of the map, the dynamics or the sensor between runs, star sets, distributed (ray) runs, longer histories"
ASSUMPTIONS = ["initial states met by the simulations are equal or differ by more than the documented tolerance (3e-6)",
               "the continuous behaviour is a function of agent, mode and initial set (stand-ins for TC_simulate / calc_bloated_tube); "
               "tubes are monotone in the initial box",
               "boxes met by the verifications do not stick out of earlier ones by less than the tolerance (3e-6)",
               "floating point modelled as exact reals (candidates are replayed in floating point)"]
T, XY = 0.5, ("x", "y")
HD = "    output = copy.deepcopy(ego)\n"
C = {
    "up": (HD + "    if ego.agent_mode == AgentMode.A and ego.x > 2:\n        output.agent_mode = AgentMode.B\n    return output\n", None),
    "up3": (HD + "    if ego.agent_mode == AgentMode.A and ego.x > 3:\n        output.agent_mode = AgentMode.B\n    return output\n", None),
    "upC": (HD + "    if ego.agent_mode == AgentMode.A and ego.x > 2:\n        output.agent_mode = AgentMode.C\n    return output\n", None),
    "idle": (HD + "    if ego.agent_mode == AgentMode.C and ego.x > 50:\n        output.agent_mode = AgentMode.A\n    return output\n", None),
    "reset": (HD + "    if ego.agent_mode == AgentMode.A and ego.x > 2:\n        output.agent_mode = AgentMode.B\n        output.y = 1 - ego.x\n"
              "    return output\n", None),
    "reset2": (HD + "    if ego.agent_mode == AgentMode.A and ego.x > 2:\n        output.agent_mode = AgentMode.B\n        output.y = 2 - ego.x\n"
               "    return output\n", None),
    "cycle": (HD + "    if ego.agent_mode == AgentMode.A and ego.x > 2:\n        output.agent_mode = AgentMode.B\n"
              "    if ego.agent_mode == AgentMode.B and ego.y < -1:\n        output.agent_mode = AgentMode.A\n        output.x = 0\n    return output\n", None),
    "more": (HD + "    if ego.agent_mode == AgentMode.A and ego.x > 2:\n        output.agent_mode = AgentMode.B\n"
             "    if ego.agent_mode == AgentMode.A and ego.y > 1:\n        output.agent_mode = AgentMode.C\n    return output\n", None),
    "near": (HD + "    if ego.agent_mode == AgentMode.A and any(o.x - ego.x < 1 for o in others):\n        output.agent_mode = AgentMode.B\n"
             "    return output\n", "others"),
    "othermode": (HD + "    if ego.agent_mode == AgentMode.A and any(o.agent_mode == AgentMode.B and o.y < ego.y for o in others):\n"
                  "        output.agent_mode = AgentMode.B\n    return output\n", "others"),
    "safe": (HD + "    assert ego.y < 5, 'high'\n    if ego.agent_mode == AgentMode.A and ego.x > 2:\n        output.agent_mode = AgentMode.B\n"
             "    return output\n", None),
    "safe4": (HD + "    assert ego.y < 4, 'high'\n    if ego.agent_mode == AgentMode.A and ego.x > 2:\n        output.agent_mode = AgentMode.B\n"
              "    return output\n", None),
    "safemode": (HD + "    assert not (ego.agent_mode == AgentMode.B and ego.x > 3), 'late'\n    if ego.agent_mode == AgentMode.A and ego.x > 2:\n"
                 "        output.agent_mode = AgentMode.B\n    return output\n", None),
}
DRIFT = {"A": (1, 1), "B": (-1, -1), "C": (2, 0)}


def mk(a, name):
    return agent(controller(C[name][0], others=C[name][1]), a) if name else PlainAgent(a)


def disp(a, m, k):
    d = DRIFT[m[0]]
    s = int(a[1:])
    return [k * d[0], k * d[1] * s]


def give(ag):
    def TC_simulate(mode, init, horizon, step, lane_map=None):
        n = int(round(horizon / step))
        return np.array([[round(j * step, 10)] + [x + v for x, v in zip(init, disp(ag.id, mode, j))] for j in range(n + 1)],
                        dtype=object if any(hasattr(x, "z") for x in init) else float)
    ag.TC_simulate = TC_simulate
    return ag


def nodes(n):
    return [n] + [m for c in n.child for m in nodes(c)]


def same_node(ctx, a, b, ids):
    if set(a.trace) != set(b.trace) or len(a.child) != len(b.child):
        return False
    if any(tuple(a.mode[i]) != tuple(b.mode[i]) for i in ids) or (a.assert_hits or {}) != (b.assert_hits or {}):
        return False
    if any(len(a.trace[i]) != len(b.trace[i]) for i in a.trace):
        return False
    c = [ctx.eq(a.start_time, b.start_time)]
    for i in a.trace:
        c += [ctx.eq(p, q) for r, s in zip(a.trace[i], b.trace[i]) for p, q in zip(r, s)]
    for i in ids:
        x, y = np.array(a.init[i], dtype=object).ravel(), np.array(b.init[i], dtype=object).ravel()
        if len(x) != len(y):
            return False
        c += [ctx.eq(p, q) for p, q in zip(x, y)]
    for p, q in ((a, b), (b, a)):
        for ch in p.child:
            c.append(ctx.Or(*[same_node(ctx, ch, d, ids) for d in q.child]))
    return ctx.And(*c)


def states(ctx, ids, which, known):
    """initial states of a run: per agent a number; equal numbers are equal states"""
    for a, k in zip(ids, which):
        if (a, k) not in known:
            known[a, k] = [ctx.real(f"{a}{v}_{k}", -10, 10) for v in XY]
    return {a: known[a, k] for a, k in zip(ids, which)}


def apart(ctx, requests):
    """assume that initial states asked for are equal or well apart"""
    def wrap(orig):
        def check_hit(self, aid, mode, init, *rest):
            seen = requests.setdefault((aid, tuple(mode)), [])
            for s in seen:
                same = ctx.And(*[ctx.exact(p, q) for p, q in zip(s, init)])
                far = ctx.Or(*[f for p, q in zip(s, init) for f in (p - q >= 3e-6, q - p >= 3e-6)])
                ctx.assume(ctx.Or(same, far))
            seen.append(list(init))
            return orig(self, aid, mode, init, *rest)
        return check_hit
    ctx.patch(incremental.SimTraceCache, "check_hit", wrap(incremental.SimTraceCache.check_hit))


def sim_case(ctx, runs, ids=("a1",), height=4, cont=False):
    """runs: [(controllers, modes, which initial states, steps, keep the agents of the previous run?)]"""
    sim = SIM.Simulator(config(incremental=True, unsafe_continue=cont))
    past, agents, known = [], {}, {}
    apart(ctx, {})
    for n, (ctrls, modes, which, steps, keep) in enumerate(runs):
        spec = dict(zip(ids, ctrls))
        if keep:
            for a in ids:
                if spec[a]:
                    # what Scenario users do: replace the decision logic of the agents
                    agents[a].decision_logic = mk(a, spec[a]).decision_logic
        else:
            agents = {a: give(mk(a, spec[a])) for a in ids}
        inits = states(ctx, ids, which, known)

        def root():
            return AnalysisTreeNode.root_from_inits(
                {a: list(inits[a]) for a in ids}, {a: (m,) for a, m in zip(ids, modes)}, {a: [] for a in ids}, {a: [] for a in ids},
                agents, 10, AnalysisTreeNodeType.SIM_TRACE)
        t = sim.simulate(root(), BaseSensor(), steps * T, T, height, LaneMap(), n, past)
        past.append(t)
        ref = SIM.Simulator(config(unsafe_continue=cont)).simulate(root(), BaseSensor(), steps * T, T, height, LaneMap(), 0, [])
        ctx.check(f"run{n}", same_node(ctx, t.root, ref.root, ids))


def tubes(ctx):
    def tube(mode, rect, horizon, step, sim, *rest, **k):
        rows = []
        for j in range(int(round(horizon / step))):
            p, q = disp(sim, mode, j), disp(sim, mode, j + 1)
            rows.append([j * step] + [x + min(v, w) for x, v, w in zip(rect[0], p, q)])
            rows.append([(j + 1) * step] + [x + max(v, w) for x, v, w in zip(rect[1], p, q)])
        return ctx.array(rows)
    ctx.patch(VM, "calc_bloated_tube", tube)


def apart_boxes(ctx, cls, seen):
    """assume that boxes asked for do not stick out of earlier ones by less than the tolerance"""
    def wrap(orig):
        def check_hit(self, aid, mode, init, *rest):
            old = seen.setdefault((aid, tuple(mode)), [])
            for b in old:
                for h, q in zip(b, init[1]):
                    ctx.assume(ctx.Or(q - h <= 0, q - h >= 3e-6))
            old.append(list(init[1]))
            return orig(self, aid, mode, init, *rest)
        return check_hit
    ctx.patch(cls, "check_hit", wrap(cls.check_hit))


def covers(ctx, inc, ref, ids):
    """every execution of ref (from scratch) lies in inc"""
    if any(tuple(inc.mode[i]) != tuple(ref.mode[i]) for i in ids):
        return False
    c = []
    for i in ref.trace:
        for lo, hi in zip(ref.trace[i][::2], ref.trace[i][1::2]):
            ok = [ctx.And(ctx.eq(l[0], lo[0]), *[ctx.And(p <= q + 1e-9, r <= s + 1e-9) for p, q, r, s in zip(l[1:], lo[1:], hi[1:], h[1:])])
                  for l, h in zip(inc.trace[i][::2], inc.trace[i][1::2]) if not bool(abs(l[0] - lo[0]) > 1e-6)]
            c.append(ctx.Or(*ok))
    for ch in ref.child:
        c.append(ctx.Or(*[covers(ctx, d, ch, ids) for d in inc.child]))
    return ctx.And(*c)


def ver_case(ctx, runs, ids=("a1",), height=None, sub=False, static=None):
    """which: number of the initial box; 10+n: a box inside box n"""
    v = VM.Verifier(config(incremental=True))
    tubes(ctx)
    apart_boxes(ctx, incremental.TubeCache, {})
    past, agents, boxes = [], {}, {}
    for n, (ctrls, modes, which, steps, keep) in enumerate(runs):
        spec = dict(zip(ids, ctrls))
        if keep:
            for a in ids:
                if spec[a]:
                    agents[a].decision_logic = mk(a, spec[a]).decision_logic
        else:
            agents = {a: mk(a, spec[a]) for a in ids}
        for a in ids:
            agents[a].TC_simulate = a
        inits = {}
        for a, k in zip(ids, which):
            if (a, k) not in boxes:
                lo = [ctx.real(f"{a}{x}{k}lo", -10, 10) for x in XY]
                hi = [ctx.real(f"{a}{x}{k}hi", -10, 10) for x in XY]
                for p, q in zip(lo, hi):
                    ctx.assume_le(p, q)
                if k >= 10:
                    for p, q in zip(boxes[a, k - 10][0], lo):
                        ctx.assume_le(p, q)
                    for p, q in zip(hi, boxes[a, k - 10][1]):
                        ctx.assume_le(p, q)
                boxes[a, k] = [lo, hi]
            inits[a] = boxes[a, k]
        st = {a: [(static or [""] * 9)[n]] if static else [] for a in ids}

        def root():
            return AnalysisTreeNode.root_from_inits(
                {a: [[list(inits[a][0]), list(inits[a][1])]] for a in ids}, {a: (m,) for a, m in zip(ids, modes)}, st,
                {a: [] for a in ids}, agents, 10, AnalysisTreeNodeType.REACH_TUBE)
        args = (BaseSensor(), steps * T, T, height, LaneMap(), 1, ReachabilityMethod.DRYVR)
        t = v.compute_full_reachtube(root(), *args, n, past, {})
        past.append(t)
        ref = VM.Verifier(config()).compute_full_reachtube(root(), *args, 0, [], {})
        if sub:
            ctx.check(f"run{n}-covers", covers(ctx, t.root, ref.root, ids))
        else:
            ctx.check(f"run{n}", same_node(ctx, t.root, ref.root, ids))


def cases(tier):
    cs = []

    def sim(name, runs, ids=("a1",), **kw):
        cs.append(Case("sim-" + name, sim_case, runs=runs, ids=ids, must_reach=tuple(f"run{i}" for i in range(len(runs))), **kw))

    def ver(name, runs, ids=("a1",), sub=False, **kw):
        cs.append(Case("ver-" + name, ver_case, runs=runs, ids=ids, sub=sub,
                       must_reach=tuple(f"run{i}" + ("-covers" if sub else "") for i in range(len(runs))), **kw))

    A, AA = ("A",), ("A", "A")
    for k in ("up", "reset", "cycle", "more", "safe", "safemode"):
        sim(f"again-{k}", [((k,), A, (0,), 2, False), ((k,), A, (0,), 2, True)])
        # a cached tube of a larger box may be used: with resets to one point the boxes of one run contain each other
        ver(f"again-{k}", [((k,), A, (0,), 2, False), ((k,), A, (0,), 2, True)], sub=k == "cycle")
    for p, q in (("up", "up3"), ("up", "upC"), ("up", "idle"), ("idle", "up"), ("reset", "reset2"), ("up", "more"), ("more", "up"),
                 ("up", "cycle"), ("safe", "safe4"), ("up", "safe"), ("safe", "up"), ("up", "safemode")):
        for keep in (True, False):
            sim(f"{p}-{q}{'' if keep else '-new'}", [((p,), A, (0,), 2, False), ((q,), A, (0,), 2, keep)])
            ver(f"{p}-{q}{'' if keep else '-new'}", [((p,), A, (0,), 2, False), ((q,), A, (0,), 2, keep)], sub="cycle" in (p, q))
    for a, b in ((1, 2), (2, 1), (1, 3), (3, 2)):
        for k in ("up", "cycle"):
            sim(f"steps{a}{b}-{k}", [((k,), A, (0,), a, False), ((k,), A, (0,), b, True)])
            ver(f"steps{a}{b}-{k}", [((k,), A, (0,), a, False), ((k,), A, (0,), b, True)], sub=k == "cycle")
    for k in ("up", "cycle", "reset"):
        sim(f"states-{k}", [((k,), A, (0,), 2, False), ((k,), A, (1,), 2, True)])
        if k != "cycle" or tier == "thorough":
            ver(f"sub-{k}", [((k,), A, (0,), 2, False), ((k,), A, (10,), 2, True)], sub=True)
            ver(f"other-{k}", [((k,), A, (0,), 1, False), ((k,), A, (1,), 2, True)], sub=True)
    sim("back", [(("up",), A, (0,), 2, False), (("up3",), A, (0,), 2, True), (("up",), A, (0,), 2, True)])
    ver("back", [(("up",), A, (0,), 2, False), (("up3",), A, (0,), 2, True), (("up",), A, (0,), 2, True)])
    two = ("a1", "a2")
    for f, tag in ((sim, "sim"), (ver, "ver")):
        f("near", [(("near", ""), AA, (0, 0), 1, False), (("near", ""), AA, (0, 1), 1, True)], two, **{"sub": True} if tag == "ver" else {})
        f("near-again", [(("near", ""), AA, (0, 0), 1, False), (("near", ""), AA, (0, 0), 1, True)], two)
        f("othermode", [(("othermode", ""), AA, (0, 0), 1, False), (("othermode", ""), ("A", "B"), (0, 0), 1, True)], two)
        f("othermode-rev", [(("othermode", ""), ("A", "B"), (0, 0), 1, False), (("othermode", ""), AA, (0, 0), 1, True)], two)
        f("othermode-back", [(("othermode", ""), ("A", "B"), (0, 0), 1, False), (("othermode", ""), AA, (0, 0), 1, True),
                             (("othermode", ""), ("A", "B"), (0, 0), 1, True)], two)
        f("both", [(("up", "up"), AA, (0, 0), 1, False), (("up", "upC"), AA, (0, 0), 1, True)], two)
        f("both-idle", [(("up", "up"), AA, (0, 0), 1, False), (("idle", "up"), AA, (0, 0), 1, True)], two)
        f("meet", [(("othermode", "up"), AA, (0, 0), 2, False), (("othermode", "up3"), AA, (0, 0), 2, True)], two)
    return cs
