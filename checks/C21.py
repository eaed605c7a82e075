"""C21: parts of a partition lie in the set and cover it; partitioned verification follows every transition from all parts of the hitting sets."""
import itertools
from .common import *
from verse.analysis import verifier as VM

LEVEL = "model_checking"
BOUNDS = "boxes of 1-4 variables (and time), 1-3 (4 in thorough) parts per dimension, every subset of dimensions to split, flat dimensions; unions of 1-3 tubes of 1-3 steps; " \
         "partitioned verification of 1-2 agents over up to 3 steps with up to 2 parts per dimension, arbitrary boxes, drifts and tubes"
OUTSIDE = "floating-point rounding of the cut positions; the time at which sets entered in later steps are placed (grouped with the first, as in verify: C07 KF3)"
ASSUMPTIONS = ["the tube of one part contains the executions from it (C05)", "exact reals (candidates are replayed in floating point)"]
T = 0.5
HD = "    output = copy.deepcopy(ego)\n"


def part(ctx, d, n, dims, flat=()):
    lo = [0.0] + [ctx.real(f"l{i}", -50, 50) for i in range(1, d + 1)]
    hi = [0.5] + [ctx.real(f"u{i}", -50, 50) for i in range(1, d + 1)]
    for i in range(1, d + 1):
        if i in flat:
            hi[i] = lo[i]
        ctx.assume_le(lo[i], hi[i])
    rect = [list(lo), list(hi)]
    parts = Verifier._partition_rect(rect, n, dims)
    p = [0.25] + [ctx.real(f"p{i}", -50, 50) for i in range(1, d + 1)]
    for l, v, u in zip(lo, p, hi):
        ctx.assume_le(l, v)
        ctx.assume_le(v, u)
    ctx.check("covers", ctx.Or(False, *[ctx.And(*[ctx.And(ctx.le(a, v, 1e-6), ctx.le(v, b, 1e-6)) for a, v, b in zip(q[0], p, q[1])]) for q in parts]))
    split = [i for i in (dims if dims is not None else range(1, d + 1)) if i != 0]
    for q in parts:
        ctx.check("inside", ctx.And(*[ctx.And(ctx.le(l, a, 1e-6), ctx.le(a, b, 1e-6), ctx.le(b, u, 1e-6)) for l, a, b, u in zip(lo, q[0], q[1], hi)]))
        for i in range(d + 1):
            if i in split:
                ctx.check("even", ctx.eq((q[1][i] - q[0][i]) * n, hi[i] - lo[i]))
            else:
                ctx.check("even", ctx.And(ctx.exact(q[0][i], lo[i]), ctx.exact(q[1][i], hi[i])))
    ctx.check("input", ctx.And(*[ctx.And(ctx.exact(a, l), ctx.exact(b, u)) for a, l, b, u in zip(rect[0], lo, rect[1], hi)]))


def union(ctx, n, steps, d):
    tubes = []
    for k in range(n):
        rows = []
        for s in range(steps):
            lo = [ctx.real(f"{k}{s}l{i}", -50, 50) for i in range(d)]
            hi = [ctx.real(f"{k}{s}u{i}", -50, 50) for i in range(d)]
            rows += [[s * T] + lo, [(s + 1) * T] + hi]
        tubes.append(rows)
    keep = [[list(r) for r in t] for t in tubes]
    u = Verifier._union_traces(tubes, ReachabilityMethod.DRYVR)
    ctx.check("length", len(u) == 2 * steps)
    for s in range(steps):
        for i in range(1, d + 1):
            ctx.check("box", ctx.And(ctx.exact(u[2 * s][i], ctx.min(*[t[2 * s][i] for t in keep])), ctx.exact(u[2 * s + 1][i], ctx.max(*[t[2 * s + 1][i] for t in keep]))))
        ctx.check("time", ctx.And(ctx.exact(u[2 * s][0], s * T), ctx.exact(u[2 * s + 1][0], (s + 1) * T)))
    ctx.check("input", all(ctx.And(*[ctx.exact(a, b) for a, b in zip(r, q)]) for t, k in zip(tubes, keep) for r, q in zip(t, k)))


def combine(ctx, steps, d):
    rows = []
    for s in range(steps):
        rows += [[s * T] + [ctx.real(f"{s}l{i}", -50, 50) for i in range(d)], [(s + 1) * T] + [ctx.real(f"{s}u{i}", -50, 50) for i in range(d)]]
    c = VM.combine_rect([list(r) for r in rows])
    for i in range(d + 1):
        ctx.check("box", ctx.And(ctx.exact(c[0][i], ctx.min(*[r[i] for r in rows[::2]])), ctx.exact(c[1][i], ctx.max(*[r[i] for r in rows[1::2]]))))


RULES = {
    "one": (HD + "    if ego.agent_mode == AgentMode.A and ego.x > 2:\n        output.agent_mode = AgentMode.B\n    return output\n", None,
            lambda e, o: e[0] > 2, lambda e: list(e)),
    "reset": (HD + "    if ego.agent_mode == AgentMode.A and ego.x > 2:\n        output.agent_mode = AgentMode.B\n        output.x = 1 - ego.x\n"
              "        output.y = ego.y + ego.x\n    return output\n", None,
              lambda e, o: e[0] > 2, lambda e: [1 - e[0], e[1] + e[0]]),
    "near": (HD + "    if ego.agent_mode == AgentMode.A and any(o.x - ego.x < 1 for o in others):\n        output.agent_mode = AgentMode.B\n"
             "        output.y = ego.y/2\n    return output\n", "others",
             lambda e, o: o[0] - e[0] < 1, lambda e: [e[0], e[1] / 2]),
}


def verify(ctx, rule, n, steps, dims=None, initial=False, method="DRYVR"):
    src, oname, guard, reset = RULES[rule]
    ids = ["a"] + (["b"] if oname else [])
    ags = {a: agent(controller(src, others=oname), a) if a == "a" else PlainAgent(a) for a in ids}
    d = {(a, m): [ctx.real(f"d{a}{m}{v}", -4, 4) for v in "xy"] for a in ids for m in ("AB" if a == "a" else "A")}
    box, p = {}, {}
    for a in ids:
        ags[a].TC_simulate = a
        lo = [ctx.real(f"{a}l{v}", -10, 10) for v in "xy"]
        hi = [ctx.real(f"{a}u{v}", -10, 10) for v in "xy"]
        p[a] = [ctx.real(f"{a}p{v}", -10, 10) for v in "xy"]
        for l, v, h in zip(lo, p[a], hi):
            ctx.assume_le(l, v)
            ctx.assume_le(v, h)
        box[a] = [lo, hi]

    def tube(mode, rect, horizon, step, sim, *rest, **k):
        rows = []
        for j in range(int(round(horizon / step))):
            rows.append([j * step] + [x + j * v for x, v in zip(rect[0], d[sim, mode[0]])])
            rows.append([(j + 1) * step] + [x + j * v for x, v in zip(rect[1], d[sim, mode[0]])])
        return ctx.array(rows)
    ctx.patch(VM, "calc_bloated_tube", tube)
    from verse.analysis import dryvr_disc
    ctx.patch(dryvr_disc, "calc_bloated_tube_dryvr", tube)
    root = AnalysisTreeNode.root_from_inits({a: [[list(box[a][0]), list(box[a][1])]] for a in ids}, {a: ("A",) for a in ids}, {a: [] for a in ids},
                                            {a: [] for a in ids}, ags, 10, AnalysisTreeNodeType.REACH_TUBE)
    Verifier(config()).compute_full_reachtube_partitioned(root, BaseSensor(), steps * T, T, None, LaneMap(), 1000, ReachabilityMethod[method], 0, [], n, initial, dims, {})
    # one execution
    st = {a: list(p[a]) for a in ids}
    for j in range(steps):
        if 2 * j >= len(root.trace["a"]):
            ctx.check("cut", False) if not root.child else None
            return  # states that pass by a transition are not followed further (C07 KF2)
        for a in ids:
            ctx.check("tube", ctx.And(*[ctx.And(ctx.le(root.trace[a][2 * j][i + 1], st[a][i]), ctx.le(st[a][i], root.trace[a][2 * j + 1][i + 1])) for i in (0, 1)]))
        if bool(guard(st["a"], st.get("b"))):
            want = reset(st["a"])
            ok = []
            for c in root.child:
                k = int(round(c.start_time / T))
                if c.mode["a"] != ("B",) or k > j:
                    continue
                cover = []
                for r in c.init["a"]:
                    cover.append(ctx.And(*[ctx.And(ctx.le(r[0][i], want[i]), ctx.le(want[i], r[1][i])) for i in (0, 1)]))
                run = [ctx.Or(False, *cover)]
                rows = c.trace["a"]
                for s in range(len(rows) // 2):
                    run.append(ctx.And(*[ctx.And(ctx.le(rows[2 * s][i + 1], want[i] + s * d["a", "B"][i]), ctx.le(want[i] + s * d["a", "B"][i], rows[2 * s + 1][i + 1]))
                                         for i in (0, 1)]))
                run.append(len(rows) == 2 * (steps - k))
                if "b" in ids:
                    run.append(ctx.And(*[ctx.And(ctx.le(c.trace["b"][2 * (j - k)][i + 1], st["b"][i]), ctx.le(st["b"][i], c.trace["b"][2 * (j - k) + 1][i + 1])) for i in (0, 1)]))
                run.append(c.mode.get("b", ("A",)) == ("A",))
                ok.append(ctx.And(*run))
            ctx.check("child", ctx.Or(False, *ok))
            return
        for a in ids:
            st[a] = [x + v for x, v in zip(st[a], d[a, "A"])]
    ctx.check("end", True)


def cases(tier):
    out = []
    full = ("covers", "inside", "even", "input")
    top = 4 if tier == "thorough" else 3
    for d in (1, 2, 3) + ((4,) if tier == "thorough" else ()):
        for n in range(1, top + 1):
            subs = [None] + [list(s) for k in range(1, d + 1) for s in itertools.combinations(range(1, d + 1), k)] + [[0, 1], []]
            for s in subs:
                k = d if s is None else len([i for i in s if i])
                if n ** k > 16 and tier == "quick":
                    continue
                out.append(Case(f"part-{d}-{n}-{'all' if s is None else '.'.join(map(str, s))}", part, d=d, n=n, dims=s, must_reach=full))
    out.append(Case("part-flat", part, d=3, n=2, dims=None, flat=(2,), must_reach=full))
    out.append(Case("part-allflat", part, d=2, n=3, dims=None, flat=(1, 2), must_reach=full))
    for n, s, d in ((1, 2, 1), (2, 1, 2), (2, 3, 1), (3, 2, 2), (3, 1, 3)):
        out.append(Case(f"union-{n}-{s}-{d}", union, n=n, steps=s, d=d, must_reach=("length", "box", "time", "input")))
    for s, d in ((1, 2), (2, 2), (3, 1)):
        out.append(Case(f"combine-{s}-{d}", combine, steps=s, d=d, must_reach=("box",)))
    rc = ("tube", "child", "end")
    for r, n, s, kw in (("one", 1, 2, {}), ("one", 2, 2, {}), ("one", 2, 3, dict(dims=[1])), ("reset", 2, 2, {}), ("reset", 2, 2, dict(dims=[2])), ("reset", 2, 2, dict(method="DRYVR_DISC")),
                        ("near", 2, 2, dict(dims=[1])), ("one", 3, 2, dict(dims=[1, 2]))) + ((("reset", 3, 3, {}), ("near", 2, 3, {})) if tier == "thorough" else ()):
        out.append(Case(f"verify-{r}-{n}-{s}-{'.'.join(map(str, kw.values()))}", verify, rule=r, n=n, steps=s, must_reach=rc, **kw))
    return out
