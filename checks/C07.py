"""C07: every execution (dynamics inside the tubes, transitions as the controllers dictate) stays inside the verification tree."""
from .common import *
from verse.analysis import verifier as VM

LEVEL = "model_checking"
BOUNDS = "1-2 agents (one or both deciding), 2 variables, 3 modes, horizons of 2-4 steps, chains of up to 3 transitions per execution, " \
         "arbitrary initial boxes, arbitrary drift per mode and an arbitrary over-approximation margin of the tubes"
OUTSIDE = "initial sets grouped over several time steps (known finding KF3), executions that pass by a guard without taking it (KF2), guards " \
          "hit in separated steps (KF1), simultaneous transitions that depend on each other; continuous time between the steps"
ASSUMPTIONS = ["executions are observed and controlled at the time steps; a transition is taken as soon as its condition holds, one agent at a time",
               "the tubes of the continuous dynamics contain the dynamics (stand-in for calc_bloated_tube: exact drift plus a margin)",
               "floating point modelled as exact reals (candidates are replayed in floating point)"]
XY = ("x", "y")
HD = "    output = copy.deepcopy(ego)\n"
T = 0.5

# name -> (body, others, outcomes(e, others) -> [(cond thunk, mode, {var: value thunk})], violated(e, others))
RULES = {
    "one": (HD + "    if ego.agent_mode == AgentMode.A and ego.x > 2:\n        output.agent_mode = AgentMode.B\n    return output\n", None,
            lambda m, e, o: [(lambda: e[0] > 2, "B", e)] if m == "A" else []),
    "reset": (HD + "    if ego.agent_mode == AgentMode.A and ego.x > 2:\n        output.agent_mode = AgentMode.B\n        output.x = 1 - ego.x\n"
              "        output.y = ego.y + ego.x\n    return output\n", None,
              lambda m, e, o: [(lambda: e[0] > 2, "B", (1 - e[0], e[1] + e[0]))] if m == "A" else []),
    "chain": (HD + "    if ego.agent_mode == AgentMode.A and ego.x > 2:\n        output.agent_mode = AgentMode.B\n"
              "    if ego.agent_mode == AgentMode.B and ego.y < -1:\n        output.agent_mode = AgentMode.C\n        output.y = 0\n    return output\n", None,
              lambda m, e, o: [(lambda: e[0] > 2, "B", e)] if m == "A" else [(lambda: e[1] < -1, "C", (e[0], 0))] if m == "B" else []),
    "branch": (HD + "    if ego.agent_mode == AgentMode.A:\n        if ego.x > 2:\n            output.agent_mode = AgentMode.B\n"
               "        elif ego.y > 3:\n            output.agent_mode = AgentMode.C\n            output.x = 0\n    return output\n", None,
               lambda m, e, o: [(lambda: e[0] > 2, "B", e), (lambda: bool(e[0] <= 2) and bool(e[1] > 3), "C", (0, e[1]))] if m == "A" else []),
    "free": (HD + "    if ego.agent_mode == AgentMode.A and ego.x > 2:\n        output.agent_mode = AgentMode.B\n"
             "    if ego.agent_mode == AgentMode.A and ego.y > 3:\n        output.agent_mode = AgentMode.C\n    return output\n", None,
             lambda m, e, o: [(lambda: e[0] > 2, "B", e), (lambda: e[1] > 3, "C", e)] if m == "A" else []),
    "near": (HD + "    if ego.agent_mode == AgentMode.A and any(o.x - ego.x < 1 for o in others):\n        output.agent_mode = AgentMode.B\n"
             "    return output\n", "others",
             lambda m, e, o: [(lambda: any(bool(p[0] - e[0] < 1) for _, p in o), "B", e)] if m == "A" else []),
    "same": (HD + "    if ego.x > 2:\n        output.x = ego.y\n        output.y = 0\n    return output\n", None,
             lambda m, e, o: [(lambda: e[0] > 2, "A", (e[1], 0))]),
    "stop": (HD + "    assert ego.y < 5, 'high'\n    if ego.agent_mode == AgentMode.A and ego.x > 2:\n        output.agent_mode = AgentMode.B\n"
             "        output.y = 0\n    return output\n", None,
             lambda m, e, o: [(lambda: e[0] > 2, "B", (e[0], 0))] if m == "A" else []),
}


def body(ctx, rules, steps, margin=True, point=False, seg=1, drift=None, height=None, kf2=False, vars_=2, wiggle=False, width=None):
    ids = [f"a{i+1}" for i in range(len(rules))]
    agents = {a: agent(controller(RULES[r][0], others=RULES[r][1]), a) if r else PlainAgent(a) for a, r in zip(ids, rules)}
    d = {}
    for a, r in zip(ids, rules):
        agents[a].TC_simulate = a
        for m in "ABC" if r else "A":
            d[a, m] = [ctx.real(f"d_{a}{m}{v}", -4, 4) for v in XY]
            if drift and (a, m) in drift:
                d[a, m] = [p if q is None else q for p, q in zip(d[a, m], drift[a, m])]
    memo = {}

    def disp(a, m, k):
        """displacement of agent a after k steps in mode m"""
        if k == 0 or not wiggle or m != "A":
            return [k * q for q in d[a, m]]
        if (a, k) not in memo:
            memo[a, k] = [ctx.real(f"c_{a}{m}{v}{k}", -20, 20) for v in XY]
        return memo[a, k]

    w = {a: ctx.real(f"w_{a}", 0, 2) if margin else 0 for a in ids}
    box, p = {}, {}
    for a in ids:
        lo = [ctx.real(f"{a}_lo{v}", -10, 10) for v in XY]
        hi = [ctx.real(f"{a}_hi{v}", -10, 10) for v in XY]
        p[a] = [ctx.real(f"{a}_p{v}", -10, 10) for v in XY]
        for l, h, q in zip(lo, hi, p[a]):
            ctx.assume_le(l, q)
            ctx.assume_le(q, h)
        if width is not None:
            ctx.assume_le(hi[0], lo[0] + width)
        if point:
            hi = p[a] = list(lo)
        if vars_ == 1:
            hi[1] = p[a][1] = lo[1]
        box[a] = [lo, hi]

    def tube(mode, rect, horizon, step, sim, *rest, **k):
        rows = []
        n = int(round(horizon / step))
        for j in range(n):
            e = w[sim] * j
            rows.append([j * step] + [x + v - e for x, v in zip(rect[0], disp(sim, mode[0], j))])
            rows.append([(j + 1) * step] + [x + v + e for x, v in zip(rect[1], disp(sim, mode[0], j))])
        return ctx.array(rows)

    ctx.patch(VM, "calc_bloated_tube", tube)
    root = AnalysisTreeNode.root_from_inits({a: [[list(box[a][0]), list(box[a][1])]] for a in ids}, {a: ("A",) for a in ids}, {a: [] for a in ids},
                                            {a: [] for a in ids}, {a: agents[a] for a in ids}, 10, AnalysisTreeNodeType.REACH_TUBE)
    v = VM.Verifier(config())
    tree = v.compute_full_reachtube(root, BaseSensor(), steps * T, T, height, LaneMap(), seg, ReachabilityMethod.DRYVR, 0, [], {})
    ctx.check("root", tree.root is root)
    for a in ids:
        ctx.check("root-init", ctx.And(*[ctx.exact(root.init[a][0][s][i], box[a][s][i]) for s in (0, 1) for i in (0, 1)]))

    # follow one execution
    st = {a: (("A",), list(p[a]), list(p[a]), 0) for a in ids}  # mode, state, state and step at which the mode was entered
    nd, ntrans = root, 0

    def inside(n, off):
        return ctx.And(*[ctx.And(ctx.le(n.trace[a][2 * off][i + 1], st[a][1][i]), ctx.le(st[a][1][i], n.trace[a][2 * off + 1][i + 1]))
                         for a in ids for i in (0, 1)])

    def length(n):
        return min(len(t) for t in n.trace.values()) // 2 if n.trace else 0

    j = 0
    while j < steps:
        off = j - int(round(nd.start_time / T))
        if height is not None and nd.height >= height - 1:
            return
        if off >= length(nd):
            # the tube ends before the horizon: a violation, or the executions that take no transition are followed no further
            if nd.assert_hits:
                return
            if kf2 or not nd.child:
                ctx.check("continues", False)
            if not wiggle:
                # the tube goes on at least until the last step at which some transition can be taken
                on = [ctx.And(cond()) for a, r in zip(ids, rules) if r
                      for cond, m, res in RULES[r][2](st[a][0][0], st[a][1], [(b, st[b][1]) for b in ids if b != a])]
                ctx.check("cut", ctx.Not(ctx.Or(False, *on)))
            return
        for a in ids:
            ctx.check("time", ctx.And(ctx.eq(nd.trace[a][2 * off][0], j * T), ctx.eq(nd.trace[a][2 * off + 1][0], (j + 1) * T)))
            ctx.check("mode", tuple(nd.mode[a]) == st[a][0])
        ctx.check("inside", inside(nd, off))
        taken = None
        for a, r in zip(ids, rules):
            if not r:
                continue
            for cond, m, res in RULES[r][2](st[a][0][0], st[a][1], [(b, st[b][1]) for b in ids if b != a]):
                if bool(cond()):
                    taken = taken or []
                    taken.append((a, m, list(res)))
        if taken:
            if nd.assert_hits:
                ctx.check("assert-stops", not nd.child)
                return
            here = st
            # every transition enabled here is one way to go on: pick any
            a, m, res = taken[ctx.choice(f"pick{ntrans}", len(taken)) if len(taken) > 1 else 0]
            st = {**st, a: ((m,), res, res, j)}
            nxt = [c for c in nd.child if {b: tuple(x) for b, x in c.mode.items()} == {b: x[0] for b, x in st.items()}
                   and c.start_time <= j * T + 1e-9]
            if height is not None and nd.height + 1 >= height - 1:
                ctx.check("child", bool(nxt))
                return
            ok = []
            for c in nxt:
                o = j - int(round(c.start_time / T))
                if o < length(c):
                    ok.append((c, inside(c, o)))
                    if o == 0:
                        ctx.check("child-init", ctx.And(*[ctx.Or(*[ctx.And(*[ctx.And(ctx.le(r[0][i], st[b][1][i]), ctx.le(st[b][1][i], r[1][i])) for i in (0, 1)])
                                                                  for r in c.init[b]]) for b in ids]))
                elif c.assert_hits or (c.child and not kf2):
                    return  # stopped by a violation / KF2
            ctx.check("child-covers", ctx.Or(*[k for _, k in ok]))
            for c, k in ok:
                if bool(k):
                    nd = c
                    break
            ntrans += 1
            continue  # the controllers run again on the new state
        j += 1
        for a in ids:
            m, _, e, k = st[a]
            st[a] = (m, [x + v for x, v in zip(e, disp(a, m[0], j - k))], e, k)


def cases(tier):
    cs = []

    def add(name, rules, steps, must=("inside",), **k):
        cs.append(Case(name, body, rules=rules, steps=steps, must_reach=must, **k))
    add("one-2", ["one"], 2, must=("inside", "child-covers"))
    add("one-3", ["one"], 3, must=("inside", "child-covers"))
    add("reset-2", ["reset"], 2, must=("inside", "child-covers"))
    add("reset-3", ["reset"], 3, must=("inside", "child-covers"))
    add("chain-2", ["chain"], 2)
    add("chain-3", ["chain"], 3)
    add("branch-2", ["branch"], 2)
    add("branch-3", ["branch"], 3)
    add("stop-3", ["stop"], 3)
    add("same-2", ["same"], 2, must=("inside", "child-covers"), margin=False)
    add("passive-2", ["one", None], 2)
    add("near-2", ["near", None], 2)
    add("near-3", ["near", None], 3)
    add("two-2", ["one", "one"], 2, margin=False, vars_=1)
    add("two-2d", ["one", "one"], 2, margin=False, vars_=1, drift={("a2", "A"): (1, 0)})
    add("two-reset-2", ["reset", "one"], 2, margin=False, vars_=1, drift={("a2", "A"): (1, 0)})
    add("free-2", ["free"], 2, margin=False)
    add("two-h2", ["one", "chain"], 2, margin=False, vars_=1, height=3, drift={("a1", "A"): (1, 0), ("a2", "A"): (1, 0)})
    add("reset-h3", ["reset"], 3, height=2)
    add("point-3", ["branch"], 3, margin=False, point=True)
    add("one-w3", ["one"], 3, margin=False, wiggle=True)
    add("kf2-slip", ["one"], 3, kf="KF2", kf2=True, wiggle=True, margin=False, must=())
    add("kf3-grouped", ["one"], 2, kf="KF3", seg=1000, margin=False, must=())
    if tier == "thorough":
        add("two-m2", ["one", "one"], 2)
        add("two-free-2", ["free", "one"], 2, margin=False)
        add("one-4", ["one"], 4)
        add("chain-4", ["chain"], 4)
        add("branch-w3", ["branch"], 3, wiggle=True)
        add("stop-4", ["stop"], 4)
        add("near-two-2", ["near", "one"], 2, margin=False, vars_=1)
        add("three-2", ["one", None, None], 2)
    add("free-w3", ["free"], 3, margin=False, wiggle=True)
    return cs
