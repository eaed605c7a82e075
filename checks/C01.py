"""C01: the verifier's transition test on a set is exact: a transition is reported for a box of states
iff some state of the box satisfies the guard."""
from .common import *
import z3

LEVEL = "model_checking"
BOUNDS = "guard shapes listed in GUARDS (2 continuous variables per agent, 1 ego plus up to 2 others, 3 modes), " \
         "one tube segment with arbitrary real box bounds in [-50,50] per variable"
OUTSIDE = "guards with map calls (C17), nonlinear guards beyond products of two variables, more than 2 other agents"
ASSUMPTIONS = ["floating point modelled as exact reals (candidates are replayed in floating point)"]

A, B, C = "A", "B", "C"

# name -> (guard source, reference predicate over (ctx, ego, others, q) , number of others)
# ego / others: dict x,y,mode


def M(s):
    return "AgentMode." + s


GUARDS = {
    "lt": ("ego.x < 3", lambda c, e, o: e["x"] < 3, 0),
    "ge": ("ego.x >= 3", lambda c, e, o: e["x"] >= 3, 0),
    "gtfloat": ("ego.y > -0.5", lambda c, e, o: e["y"] > -0.5, 0),
    "eq": ("ego.x == 5", lambda c, e, o: e["x"] == 5, 0),
    "ne": ("ego.x != 5", lambda c, e, o: c.Not(e["x"] == 5), 0),
    "lin": ("2*ego.x + 3*ego.y <= 7", lambda c, e, o: 2 * e["x"] + 3 * e["y"] <= 7, 0),
    "linneg": ("-ego.x - (ego.y - 4) > ego.x/2", lambda c, e, o: -e["x"] - (e["y"] - 4) > e["x"] / 2, 0),
    "chain": ("1 < ego.x < 4", lambda c, e, o: c.And(1 < e["x"], e["x"] < 4), 0),
    "chain3": ("0 <= ego.x <= ego.y < 10", lambda c, e, o: c.And(0 <= e["x"], e["x"] <= e["y"], e["y"] < 10), 0),
    "and": ("ego.x > 1 and ego.y < 2", lambda c, e, o: c.And(e["x"] > 1, e["y"] < 2), 0),
    "or": ("ego.x > 1 or ego.y < 2", lambda c, e, o: c.Or(e["x"] > 1, e["y"] < 2), 0),
    "not": ("not (ego.x > 1 and ego.y < 2)", lambda c, e, o: c.Not(c.And(e["x"] > 1, e["y"] < 2)), 0),
    "notor": ("not (ego.x > 1 or ego.y < 2)", lambda c, e, o: c.Not(c.Or(e["x"] > 1, e["y"] < 2)), 0),
    "mode_and": (f"ego.agent_mode == {M('A')} and ego.x > 1",
                 lambda c, e, o: c.And(e["mode"] == A, e["x"] > 1), 0),
    "mode_or": (f"ego.agent_mode == {M('A')} or ego.x > 1",
                lambda c, e, o: c.Or(e["mode"] == A, e["x"] > 1), 0),
    "mode_or2": (f"(ego.agent_mode == {M('A')} and ego.x > 1) or (ego.agent_mode != {M('B')} and ego.y < -1)",
                 lambda c, e, o: c.Or(c.And(e["mode"] == A, e["x"] > 1), c.And(e["mode"] != B, e["y"] < -1)), 0),
    "mode_not": (f"not (ego.agent_mode == {M('A')} and ego.x > 1)",
                 lambda c, e, o: c.Not(c.And(e["mode"] == A, e["x"] > 1)), 0),
    "mode_not2": (f"not (ego.agent_mode == {M('A')}) and ego.x > 1",
                  lambda c, e, o: c.And(e["mode"] != A, e["x"] > 1), 0),
    "mode_not3": (f"not (not (ego.agent_mode == {M('A')}) or ego.x > 1)",
                  lambda c, e, o: c.Not(c.Or(e["mode"] != A, e["x"] > 1)), 0),
    "mode_ne_or": (f"ego.x > 1 and (ego.agent_mode == {M('B')} or ego.agent_mode == {M('C')} or ego.y > 3)",
                   lambda c, e, o: c.And(e["x"] > 1, c.Or(e["mode"] == B, e["mode"] == C, e["y"] > 3)), 0),
    "any": ("any(o.x - ego.x > 2 for o in others)",
            lambda c, e, o: c.Or(*[p["x"] - e["x"] > 2 for p in o]), 2),
    "all": ("all(o.x - ego.x > 2 for o in others)",
            lambda c, e, o: c.And(*[p["x"] - e["x"] > 2 for p in o]), 2),
    "any1": ("any(o.x - ego.x > 2 and o.y < ego.y for o in others)",
             lambda c, e, o: c.Or(*[c.And(p["x"] - e["x"] > 2, p["y"] < e["y"]) for p in o]), 1),
    "anymode": (f"any(o.x - ego.x < 2 and o.agent_mode == {M('B')} for o in others)",
                lambda c, e, o: c.Or(*[c.And(p["x"] - e["x"] < 2, p["mode"] == B) for p in o]), 2),
    "allmode": (f"all(o.x - ego.x < 2 or o.agent_mode == {M('B')} for o in others)",
                lambda c, e, o: c.And(*[c.Or(p["x"] - e["x"] < 2, p["mode"] == B) for p in o]), 2),
    "anysame": ("any(o.x > ego.x and o.agent_mode == ego.agent_mode for o in others)",
                lambda c, e, o: c.Or(*[c.And(p["x"] > e["x"], p["mode"] == e["mode"]) for p in o]), 2),
    "notany": ("not any(o.x - ego.x > 2 for o in others)",
               lambda c, e, o: c.Not(c.Or(*[p["x"] - e["x"] > 2 for p in o])), 2),
    "anyall": ("any(o.x > ego.x for o in others) and all(o.y < ego.y for o in others)",
               lambda c, e, o: c.And(c.Or(*[p["x"] > e["x"] for p in o]), c.And(*[p["y"] < e["y"] for p in o])), 2),
    "modeany": (f"ego.agent_mode == {M('A')} and (ego.x > 4 or any(o.y <= 1 for o in others))",
                lambda c, e, o: c.And(e["mode"] == A, c.Or(e["x"] > 4, c.Or(*[p["y"] <= 1 for p in o]))), 2),
    "anyif": ("any(o.x > ego.x for o in others if o.y < ego.y)",
              lambda c, e, o: c.Or(*[c.And(p["x"] > e["x"], p["y"] < e["y"]) for p in o]), 2),
    "allif": ("all(o.x > ego.x for o in others if o.y < ego.y)",
              lambda c, e, o: c.And(*[c.Or(p["x"] > e["x"], c.Not(p["y"] < e["y"])) for p in o]), 2),
    "anyifmode": (f"any(o.x > ego.x for o in others if o.agent_mode == {M('B')} if o.y > 0)",
                  lambda c, e, o: c.Or(*[c.And(p["x"] > e["x"], p["mode"] == B, p["y"] > 0) for p in o]), 2),
    "any0": ("any(o.x > ego.x for o in others) or ego.x > 1", lambda c, e, o: e["x"] > 1, 0),
}


def box(ctx, n, lo=-50, hi=50):
    a = ctx.real(n + "_lo", lo, hi)
    b = ctx.real(n + "_hi", lo, hi)
    ctx.assume(a <= b)
    return a, b


def exists(ctx, names, rng, pred):
    """Is there a point of the box that satisfies pred?  (decided by the solver in both modes)"""
    vs = {n: z3.Real("q_" + n) for n in names}
    if ctx.sym:
        from symx import engine as E, shims as S
        w = {n: E.wrap(v) for n, v in vs.items()}
        f = E.all_of([pred(w)] + [E.all_of([rng[n][0] <= w[n], w[n] <= rng[n][1]]) for n in names])
        if isinstance(f, bool):
            return f
        acc = {}
        S._consts(f, acc, set())
        own = [v for n, v in vs.items() if "q_" + n in acc]
        return E.wrapb(S.eliminate(own, f))
    from symx import engine as E, shims as S
    w = {n: E.wrap(v) for n, v in vs.items()}
    s = z3.Solver()
    f = E.all_of([pred(w)] + [E.all_of([rng[n][0] <= w[n], w[n] <= rng[n][1]]) for n in names])
    if isinstance(f, bool):
        return f
    s.add(f)
    return s.check() == z3.sat


class SymLogic:
    """logic helpers usable in both modes on z3 terms"""
    from symx import engine as _E
    And = staticmethod(lambda *x: SymLogic._E.all_of(x))
    Or = staticmethod(lambda *x: SymLogic._E.any_of(x))
    Not = staticmethod(lambda x: SymLogic._E.not_(x))


def body(ctx, g, modes):
    src, pred, n_others = GUARDS[g]
    code = controller(simple_rule(src), others="others")
    ego = agent(code, "ego_car")
    ids = ["ego_car"] + [f"other{i}" for i in range(n_others)]
    order = ids if not modes.get("last") else ids[1:] + ids[:1]
    agents, trace, rng, md = {}, {}, {}, {}
    for i, a in enumerate(ids):
        b = {v: box(ctx, f"{a}_{v}") for v in ("x", "y")}
        for v in b:
            rng[f"{a}.{v}"] = b[v]
        trace[a] = ctx.array([[0.0, b["x"][0], b["y"][0]], [0.1, b["x"][1], b["y"][1]]])
        md[a] = (modes["m"][i],)
        agents[a] = ego if i == 0 else PlainAgent(a)
    agents = {a: agents[a] for a in order}
    asserts, trans = transitions(node(trace, md, agents))
    hit = bool(trans)
    if hit:
        ctx.check("dest", all(t[0] == "ego_car" and t[2] == (B,) for t in trans) and len(trans) == 1)

    def at(w):
        e = {"x": w["ego_car.x"], "y": w["ego_car.y"], "mode": modes["m"][0]}
        o = [{"x": w[f"{a}.x"], "y": w[f"{a}.y"], "mode": modes["m"][i]} for i, a in enumerate(ids) if i]
        return pred(SymLogic, e, o)

    ex = exists(ctx, list(rng), rng, at)
    if hit:
        ctx.check("reported=>possible", ex)
    else:
        ctx.check("possible=>reported", ctx.Not(ex))


def giveup(ctx, g):
    """the solver asked about the guard may give up (answer unknown): then the guard must count as possible"""
    import verse.automaton.guard as G
    base, n = G.Solver, [0]

    class MaySolver(base):
        def check(self, *a):
            n[0] += 1
            if ctx.boolean(f"giveup{n[0]}"):
                return z3.unknown
            return base.check(self, *a)
    ctx.patch(G, "Solver", MaySolver)
    src, pred, _ = GUARDS[g]
    ego = agent(controller(simple_rule(src), others="others"), "ego_car")
    b = {v: box(ctx, v) for v in ("x", "y")}
    trace = {"ego_car": ctx.array([[0.0, b["x"][0], b["y"][0]], [0.1, b["x"][1], b["y"][1]]])}
    asserts, trans = transitions(node(trace, {"ego_car": ("A",)}, {"ego_car": ego}))
    if trans:
        ctx.check("dest", all(t[0] == "ego_car" and t[2] == (B,) for t in trans))
    else:
        rng = {"ego_car." + v: b[v] for v in b}
        at = lambda w: pred(SymLogic, {"x": w["ego_car.x"], "y": w["ego_car.y"], "mode": A}, [])
        ctx.check("possible=>reported", ctx.Not(exists(ctx, list(rng), rng, at)))


def cases(tier):
    out = [Case("giveup-" + g, giveup, g=g, must_reach=("dest", "possible=>reported")) for g in ("lin", "and", "mode_and")]
    for g, (src, _, n) in GUARDS.items():
        combos = [("A", "B", "A"), ("B", "A", "B"), ("C", "B", "C")]
        if "mode" not in g and "same" not in g:
            combos = combos[:1]
        if tier == "thorough":
            combos = [(a, b, c) for a in "ABC" for b in "ABC"[: 3 if n else 1] for c in "ABC"[: 3 if n > 1 else 1]]
        for m in combos:
            for last in ([False, True] if n and (tier == "thorough" or m == combos[0]) else [False]):
                out.append(Case(f"{g}-{''.join(m)}{'-egolast' if last else ''}", body, g=g, modes={"m": m, "last": last}))
    return out
