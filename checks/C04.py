"""C04: verification reports an assertion of an agent exactly when some joint state of the tubes falsifies it."""
from .common import *
from .C01 import box, exists, SymLogic

LEVEL = "model_checking"
BOUNDS = "tubes of 1-3 segments with arbitrary real box bounds in [-20,20]; assertion shapes in ASSERTS (plain, under conditions, " \
         "over other agents, in branches, several per controller); 2 agents, up to both deciding"
OUTSIDE = "assertions after a certain transition in the same tube (no execution reaches them); map functions in assertions (C17)"
ASSUMPTIONS = ["floating point modelled as exact reals (candidates are replayed in floating point)"]
L = SymLogic
XY = ("x", "y")
HD = "    output = copy.deepcopy(ego)\n"
M = lambda e, m: e["mode"] == m
# name: (body, others arg, [(label, violated(ego, others))])
ASSERTS = {
    "plain": (HD + "    assert ego.x < 3, 'lim'\n    return output\n", None, [("lim", lambda e, o: L.Not(e["x"] < 3))]),
    "two": (HD + "    assert ego.x < 3, 'lim'\n    assert ego.y + ego.x >= -4, 'sum'\n    return output\n", None,
            [("lim", lambda e, o: L.Not(e["x"] < 3)), ("sum", lambda e, o: L.Not(e["y"] + e["x"] >= -4))]),
    "under": (HD + "    if ego.y > 1:\n        assert ego.x < 3, 'lim'\n    return output\n", None,
              [("lim", lambda e, o: L.And(e["y"] > 1, L.Not(e["x"] < 3)))]),
    "under2": (HD + "    if ego.y > 1 and ego.x > -5:\n        if ego.x < 10:\n            assert ego.x < ego.y or ego.y > 5, 'lim'\n"
               "    else:\n        assert ego.x > -9, 'low'\n    return output\n", None,
               [("lim", lambda e, o: L.And(e["y"] > 1, e["x"] > -5, e["x"] < 10, L.Not(L.Or(e["x"] < e["y"], e["y"] > 5)))),
                ("low", lambda e, o: L.And(L.Not(L.And(e["y"] > 1, e["x"] > -5)), L.Not(e["x"] > -9)))]),
    "mode": (HD + "    if ego.agent_mode == AgentMode.B:\n        assert ego.x < 3, 'inB'\n    if ego.agent_mode == AgentMode.A:\n"
             "        assert ego.y < 3, 'inA'\n    return output\n", None,
             [("inB", lambda e, o: L.And(M(e, "B"), L.Not(e["x"] < 3))), ("inA", lambda e, o: L.And(M(e, "A"), L.Not(e["y"] < 3)))]),
    "modecond": (HD + "    assert ego.agent_mode == AgentMode.B or ego.x < 3, 'lim'\n    assert ego.agent_mode != AgentMode.C, 'noC'\n    return output\n", None,
                 [("lim", lambda e, o: L.Not(L.Or(M(e, "B"), e["x"] < 3))), ("noC", lambda e, o: M(e, "C"))]),
    "others": (HD + "    assert not any(abs_(ego.x, p.x) for p in others), 'close'\n    return output\n".replace(
        "abs_(ego.x, p.x)", "ego.x - p.x < 1 and p.x - ego.x < 1 and ego.y == p.y"), "others",
        [("close", lambda e, o: L.Or(*[L.And(e["x"] - p["x"] < 1, p["x"] - e["x"] < 1, e["y"] == p["y"]) for p in o]))]),
    "allothers": (HD + "    assert all(p.x > ego.x or p.agent_mode == AgentMode.B for p in others), 'order'\n    return output\n", "others",
                  [("order", lambda e, o: L.Not(L.And(*[L.Or(p["x"] > e["x"], M(p, "B")) for p in o])))]),
    "underany": (HD + "    if any(p.y > ego.y for p in others):\n        assert ego.x < 3, 'lim'\n    return output\n", "others",
                 [("lim", lambda e, o: L.And(L.Or(*[p["y"] > e["y"] for p in o]), L.Not(e["x"] < 3)))]),
    "trans": (HD + "    if ego.y > 1:\n        output.agent_mode = AgentMode.B\n    assert ego.x < 3, 'lim'\n    return output\n", None,
              [("lim", lambda e, o: L.Not(e["x"] < 3))]),
    "nolabel": (HD + "    assert ego.x < 3\n    return output\n", None, [("<assert 0>", lambda e, o: L.Not(e["x"] < 3))]),
    "nolabel2": (HD + "    assert ego.y < 3, 'a'\n    assert ego.x < 3\n    return output\n", None,
                 [("a", lambda e, o: L.Not(e["y"] < 3)), ("<assert 1>", lambda e, o: L.Not(e["x"] < 3))]),
}
TRIG = {"trans": lambda e: e["y"] > 1}


def body(ctx, a, segs, modes=("A", "A"), deciding=1, last=False):
    src, others, asserts_ref = ASSERTS[a]
    code = controller(src, others=others)
    ids = ["a1", "b2"]
    rng, trace = {}, {}
    for g in ids:
        rows = []
        for j in range(segs):
            b = {v: box(ctx, f"{g}_{v}{j}", -20, 20) for v in XY}
            for v in XY:
                rng[(g, v, j)] = b[v]
            rows += [[j * 0.5] + [b[v][0] for v in XY], [j * 0.5 + 0.5] + [b[v][1] for v in XY]]
        trace[g] = ctx.array(rows)
    A = {"a1": agent(code, "a1"), "b2": agent(code, "b2") if deciding == 2 else PlainAgent("b2")}
    md = dict(zip(ids, modes))
    order = ids[::-1] if last else ids
    hits, trans = transitions(node(trace, {g: (md[g],) for g in ids}, {g: A[g] for g in order}))
    dec = ids[:deciding]

    def ex(j, f):
        return exists(ctx, [f"{g}.{v}" for g in ids for v in XY], {f"{g}.{v}": rng[(g, v, j)] for g in ids for v in XY}, f)

    def pt(w, g):
        return dict({v: w[f"{g}.{v}"] for v in XY}, mode=md[g])

    viol = {(g, l, j): ex(j, lambda w: p(pt(w, g), [pt(w, h) for h in ids if h != g]))
            for g in dec for l, p in asserts_ref for j in range(segs)}
    reach = [True]
    if a in TRIG:
        for j in range(segs):
            n = ex(j, lambda w: L.Not(TRIG[a](pt(w, "a1"))))
            reach.append(ctx.And(reach[-1], n))
        H = [ex(j, lambda w: TRIG[a](pt(w, "a1"))) for j in range(segs)]
        for j in range(segs - 1):
            ctx.assume(ctx.Implies(H[j], ctx.Or(H[j + 1], ctx.Not(reach[j + 1]))))
    else:
        reach = [True] * (segs + 1)
    if hits is None:
        for (g, l, j), v in viol.items():
            ctx.check(f"not reported => impossible {l}", ctx.Implies(reach[j], ctx.Not(v)))
        return
    d, idx = hits
    ctx.check("no transitions past it", trans is None or trans == [])
    ctx.check("index", 0 <= idx < segs)
    for g in dec:
        for l, p in asserts_ref:
            # the earliest step at which anything can fail is reported, with all that can fail there
            ctx.check(f"reported iff possible {l}", ctx.Iff(l in d.get(g, []), viol[(g, l, idx)]))
            for j in range(idx):
                ctx.check("earliest", ctx.Not(viol[(g, l, j)]))
    ctx.check("only deciding agents", all(g in dec for g in d))
    ctx.check("nonempty", any(d.values()))


def loop(ctx, unsafe_continue=False):
    """through the verification loop: node record and truncation"""
    src = HD + "    assert ego.x < 8, 'lim'\n    return output\n"
    ag = agent(controller(src), "a1")
    x = [box(ctx, f"x{j}", -20, 20) for j in range(3)]
    rows = []
    for j in range(3):
        rows += [[j * 0.5, x[j][0], 0.0], [j * 0.5 + 0.5, x[j][1], 0.0]]
    ctx.patch(V, "calc_bloated_tube", lambda *a, **k: ctx.array(rows))
    cfg = config(unsafe_continue=unsafe_continue, init_seg_length=1)
    ver = Verifier(cfg)
    init = [[[x[0][0], 0.0], [x[0][1], 0.0]]]
    root = AnalysisTreeNode.root_from_inits({"a1": init}, {"a1": ("A",)}, {"a1": []}, {"a1": []}, {"a1": ag}, 10,
                                            AnalysisTreeNodeType.REACH_TUBE)
    ver.compute_full_reachtube(root, BaseSensor(), 1.5, 0.5, None, LaneMap(), 1, ReachabilityMethod.DRYVR, 0, [], {})
    v = [ctx.Not(x[j][1] < 8) for j in range(3)]
    hit = root.assert_hits
    reported = bool(hit) and bool(hit.get("a1")) if not isinstance(hit, tuple) else bool(hit[0].get("a1"))
    ctx.check("recorded iff possible", ctx.Iff(reported, ctx.Or(*v)))
    if reported:
        d = hit[0] if isinstance(hit, tuple) else hit
        ctx.check("label", list(d["a1"]) == ["lim"])
    ctx.check("no child", root.child == [])
    if not unsafe_continue:
        n = len(root.trace["a1"]) // 2
        ctx.check("kept up to the violation", ctx.And(*[ctx.Implies(ctx.And(v[j], *[ctx.Not(u) for u in v[:j]]), n == j + 1) for j in range(3)]))
    else:
        ctx.check("kept whole", len(root.trace["a1"]) == 6)


def cases(tier):
    out = []
    for a in ASSERTS:
        for segs in (1, 2) if tier == "quick" else (1, 2, 3):
            for modes in (("A", "A"), ("B", "A"), ("C", "B")) if "mode" in a or "all" in a else (("A", "A"),):
                out.append(Case(f"{a}-{segs}-{''.join(modes)}", body, a=a, segs=segs, modes=modes))
        if a in ("plain", "under", "others", "nolabel"):
            out.append(Case(f"{a}-both", body, a=a, segs=1, deciding=2))
            out.append(Case(f"{a}-both-rev", body, a=a, segs=1, deciding=2, last=True))
    out.append(Case("loop", loop))
    out.append(Case("loop-unsafe-continue", loop, unsafe_continue=True))
    return out
