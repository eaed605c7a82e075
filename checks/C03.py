"""C03: every transition the controller can take from a state of the tubes is found, with the right time step and
successor set; transitions are found only if some state triggers them; the search stops early only when a transition is certain."""
from .common import *
from .C01 import box, exists, SymLogic

LEVEL = "model_checking"
BOUNDS = "tubes of 2-4 time segments with arbitrary real box bounds in [-20,20] per segment and variable; up to 2 deciding " \
         "agents and one passive one, 3 modes; an arbitrary joint state in an arbitrary segment"
OUTSIDE = "guards hit in non-adjacent segments (known finding KF1); longer tubes; star-set tubes"
ASSUMPTIONS = ["floating point modelled as exact reals (candidates are replayed in floating point)"]

XY = ("x", "y")
L = SymLogic

# rules: (guard predicate(ego, others) , dest mode, updates {var: f(ego, others)})
RULES = {
    "one": ("    output = copy.deepcopy(ego)\n    if ego.x > 2:\n        output.agent_mode = AgentMode.B\n    return output\n", None,
            [(lambda e, o: e["x"] > 2, "B", {})]),
    "reset": ("    output = copy.deepcopy(ego)\n    if ego.x + ego.y > 2:\n        output.agent_mode = AgentMode.B\n"
              "        output.x = ego.y\n        output.y = 1 - ego.x\n    return output\n", None,
              [(lambda e, o: e["x"] + e["y"] > 2, "B", {"x": lambda e: e["y"], "y": lambda e: 1 - e["x"]})]),
    "two": ("    output = copy.deepcopy(ego)\n    if ego.x > 2:\n        output.agent_mode = AgentMode.B\n"
            "    if ego.y > 3:\n        output.agent_mode = AgentMode.C\n    return output\n", None,
            [(lambda e, o: e["x"] > 2, "B", {}), (lambda e, o: e["y"] > 3, "C", {})]),
    "elif": ("    output = copy.deepcopy(ego)\n    if ego.agent_mode == AgentMode.A:\n        if ego.x > 2:\n            output.agent_mode = AgentMode.B\n"
             "            output.x = 0\n        elif ego.y > 3:\n            output.agent_mode = AgentMode.C\n"
             "    if ego.agent_mode == AgentMode.C and ego.x > -100:\n        output.agent_mode = AgentMode.A\n    return output\n", None,
             [(lambda e, o: e["x"] > 2, "B", {"x": lambda e: 0}),
              (lambda e, o: L.And(L.Not(e["x"] > 2), e["y"] > 3), "C", {})]),
    "other": ("    output = copy.deepcopy(ego)\n    if any(p.x - ego.x < 1 and p.y >= ego.y for p in others):\n        output.agent_mode = AgentMode.B\n"
              "        output.y = ego.y/2\n    return output\n", "others",
              [(lambda e, o: L.Or(*[L.And(p["x"] - e["x"] < 1, p["y"] >= e["y"]) for p in o]), "B", {"y": lambda e: e["y"] / 2})]),
    "hyst": ("    output = copy.deepcopy(ego)\n    if ego.x > 2 and ego.agent_mode == AgentMode.A:\n        output.agent_mode = AgentMode.B\n"
             "    if ego.x < 1 and ego.agent_mode == AgentMode.B:\n        output.agent_mode = AgentMode.A\n    return output\n", None,
             [(lambda e, o: e["x"] > 2, "B", {})]),
    "indep": ("    output = copy.deepcopy(ego)\n    if ego.x > 2:\n        output.agent_mode = AgentMode.B\n"
              "    if ego.y > 3:\n        output.x = 0\n    return output\n", None,
              [(lambda e, o: L.And(e["x"] > 2, L.Not(e["y"] > 3)), "B", {}),
               (lambda e, o: L.And(e["x"] > 2, e["y"] > 3), "B", {"x": lambda e: 0}),
               (lambda e, o: L.And(L.Not(e["x"] > 2), e["y"] > 3), "A", {"x": lambda e: 0})]),
    "nested": ("    output = copy.deepcopy(ego)\n    if ego.x > 2:\n        output.agent_mode = AgentMode.B\n"
               "        if ego.y > 3:\n            output.x = ego.y\n    return output\n", None,
               [(lambda e, o: L.And(e["x"] > 2, L.Not(e["y"] > 3)), "B", {}),
                (lambda e, o: L.And(e["x"] > 2, e["y"] > 3), "B", {"x": lambda e: e["y"]})]),
    "samedest": ("    output = copy.deepcopy(ego)\n    if ego.x > 2:\n        output.agent_mode = AgentMode.B\n        output.y = 0\n"
                 "    if ego.x < -2:\n        output.agent_mode = AgentMode.B\n        output.y = 9\n    return output\n", None,
                 [(lambda e, o: e["x"] > 2, "B", {"y": lambda e: 0}), (lambda e, o: e["x"] < -2, "B", {"y": lambda e: 9})]),
    "selfreset": ("    output = copy.deepcopy(ego)\n    if ego.x > 2:\n        output.x = -ego.x\n    return output\n", None,
                  [(lambda e, o: e["x"] > 2, "A", {"x": lambda e: -e["x"]})]),
}


def body(ctx, rule, segs, k, other_segs=None, deciding=1, last=False, in_map=False):
    """a state of segment k triggers rule => reported"""
    code_body, others, rules = RULES[rule]
    code = controller(code_body, others=others)
    ids = ["a1", "b2"]
    n = {"a1": segs, "b2": other_segs or segs}
    rng = {}
    trace = {}
    for a in ids:
        rows = []
        for j in range(n[a]):
            b = {v: box(ctx, f"{a}_{v}{j}", -20, 20) for v in XY}
            for v in XY:
                rng[(a, v, j)] = b[v]
            rows += [[j * 0.5] + [b[v][0] for v in XY], [j * 0.5 + 0.5] + [b[v][1] for v in XY]]
        trace[a] = ctx.array(rows)
    N = min(n.values())
    A = {"a1": agent(code, "a1"), "b2": agent(code, "b2") if deciding == 2 else PlainAgent("b2")}
    order = ids if not last else ids[::-1]
    asserts, trans = transitions(node(trace, {a: ("A",) for a in ids}, {a: A[a] for a in order}), other_map() if in_map else None)
    ctx.check("no assert", not asserts)
    dec = ids[:deciding]

    def pt(w, a, j):
        return {v: w[f"{a}.{v}"] for v in XY}

    def trig(w, a, j, r):
        o = [pt(w, b, j) for b in ids if b != a]
        return r[0](pt(w, a, j), o)

    def ex(j, f):
        return exists(ctx, [f"{a}.{v}" for a in ids for v in XY], {f"{a}.{v}": rng[(a, v, j)] for a in ids for v in XY}, f)

    # soundness of what is reported
    for t in trans:
        a, src, dest, rects, idx, paths = t
        ctx.check("source", a in dec and tuple(src) == ("A",))
        ctx.check("idx range", all(0 <= i < N for i in idx) and len(rects) == len(idx) and sorted(set(idx)) == list(idx))
        for i in idx:
            ctx.check("reported=>possible", L.Or(*[ex(i, lambda w: trig(w, a, i, r)) for r in rules if (r[1],) == tuple(dest)]))
    # completeness: an arbitrary state of segment k
    p = {a: {v: ctx.real(f"p_{a}_{v}") for v in XY} for a in ids}
    for a in ids:
        for v in XY:
            ctx.assume(ctx.And(rng[(a, v, k)][0] <= p[a][v], p[a][v] <= rng[(a, v, k)][1]))
    for j in range(k):
        # not certain before k, and hits adjacent up to k
        H = ex(j, lambda w: L.Or(*[trig(w, a, j, r) for a in dec for r in rules]))
        ctx.assume(ex(j, lambda w: L.Not(L.Or(*[trig(w, a, j, r) for a in dec for r in rules]))))
        if j + 1 < k:
            H2 = ex(j + 1, lambda w: L.Or(*[trig(w, a, j + 1, r) for a in dec for r in rules]))
            ctx.assume(ctx.Implies(H, H2))
    for a in dec:
        o = [p[b] for b in ids if b != a]
        for r in rules:
            good = []
            for t in trans:
                if t[0] == a and tuple(t[2]) == (r[1],) and k in t[4]:
                    rect = t[3][list(t[4]).index(k)]
                    good.append(ctx.And(*[ctx.And(ctx.le(rect[0][i], r[2].get(v, lambda e: e[v])(p[a])),
                                                  ctx.le(r[2].get(v, lambda e: e[v])(p[a]), rect[1][i])) for i, v in enumerate(XY)]))
            cond = r[0](p[a], o) if ctx.sym else bool_(r[0](p[a], o))
            ctx.check(f"possible=>reported {r[1]}", ctx.Implies(cond, ctx.Or(*good)))


def bool_(x):
    return bool(x)


def stop(ctx, rule):
    """segments after a certain transition are not used; the search goes on when the transition is only possible"""
    code_body, others, rules = RULES[rule]
    code = controller(code_body, others=others)
    rng = {}
    rows = []
    for j in range(2):
        for v in XY:
            rng[(v, j)] = box(ctx, f"{v}{j}", -20, 20)
        rows += [[j * 0.5] + [rng[(v, j)][0] for v in XY], [j * 0.5 + 0.5] + [rng[(v, j)][1] for v in XY]]
    tr = {"a1": ctx.array(rows)}
    asserts, trans = transitions(node(tr, {"a1": ("A",)}, {"a1": agent(code, "a1")}))
    last = max([i for t in trans for i in t[4]], default=None)

    def ex(j, f):
        return exists(ctx, XY, {v: rng[(v, j)] for v in XY}, f)

    def trig(w):
        return L.Or(*[r[0](w, []) for r in rules])
    if last is None:
        ctx.check("none possible", ctx.And(*[ctx.Not(ex(j, trig)) for j in range(2)]))
    elif last == 0:
        # stopped after segment 0: certain there, or nothing possible later
        ctx.check("stop only if certain or over", ctx.Or(ctx.Not(ex(0, lambda w: L.Not(trig(w)))), ctx.Not(ex(1, trig))))
    else:
        certain = ctx.Or(*[ctx.Not(ex(0, lambda w: L.Not(r[0](w, [])))) for r in rules])
        ctx.check("no hit after a certain one", ctx.Not(certain))


def gap(ctx):
    """KF1: hits in segments 0 and 2 but not in 1"""
    code = controller(RULES["one"][0])
    xs = [box(ctx, f"x{j}", -20, 20) for j in range(3)]
    rows = []
    for j in range(3):
        rows += [[j * 0.5, xs[j][0], 0.0], [j * 0.5 + 0.5, xs[j][1], 0.0]]
    asserts, trans = transitions(node({"a1": ctx.array(rows)}, {"a1": ("A",)}, {"a1": agent(code, "a1")}))
    ctx.assume(ctx.And(xs[0][0] < 1, xs[0][1] > 3, xs[1][1] < 2, xs[2][1] > 3))
    ctx.check("later hit reported", any(2 in t[4] for t in trans))


TRACK = '''
from enum import Enum, auto
from typing import List
import copy

class AgentMode(Enum):
    N = auto()
    S = auto()
    K = auto()

class TrackMode(Enum):
    T0 = auto()
    T1 = auto()
    M01 = auto()

class State:
    x: float
    y: float
    agent_mode: AgentMode
    track_mode: TrackMode
    def __init__(self, x, y, agent_mode: AgentMode, track_mode: TrackMode):
        pass

def decisionLogic(ego: State, track_map):
    output = copy.deepcopy(ego)
    if ego.agent_mode == AgentMode.N and ego.x > 2:
        if track_map.h_exist(ego.track_mode, ego.agent_mode, AgentMode.S):
            output.agent_mode = AgentMode.S
            output.track_mode = track_map.h(ego.track_mode, ego.agent_mode, AgentMode.S)
    if ego.agent_mode == AgentMode.N and ego.x < -2:
        output.agent_mode = AgentMode.K
        output.track_mode = TrackMode.T1
    return output
'''


class TMap(LaneMap):
    def __init__(self, h):
        super().__init__()
        self.h_dict = h


def track(ctx, src):
    """map-dependent transitions: the map's successor track is used, and transitions the map forbids are not taken"""
    h = {("T0", "N", "S"): "M01", ("T0", "N", "K"): "T1", ("T1", "N", "K"): "T0", ("M01", "N", "S"): "T0", ("M01", "N", "K"): "T1"}
    x = box(ctx, "x", -20, 20)
    ag = agent(TRACK, "a1")
    tr = {"a1": ctx.array([[0.0, x[0], 0.0], [0.1, x[1], 1.0]])}
    asserts, trans = transitions(node(tr, {"a1": ("N", src)}, {"a1": ag}), TMap(h))
    got = {tuple(t[2]) for t in trans}
    dS = ("S", h[(src, "N", "S")]) if (src, "N", "S") in h else None
    dK = ("K", "T1") if h[(src, "N", "K")] == "T1" else None
    if dS:
        ctx.check("S", ctx.Iff(x[1] > 2, dS in got))
    if dK:
        ctx.check("K", ctx.Iff(x[0] < -2, dK in got))
    ctx.check("only", got <= {d for d in (dS, dK) if d})


def cases(tier):
    out = []
    for r in RULES:
        for segs in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
            for k in range(segs):
                if tier == "quick" and segs == 3 and (k < 2 or r not in ("one", "selfreset")):
                    continue
                if segs >= 3 and r in ("two", "elif") and tier == "quick":
                    continue
                out.append(Case(f"{r}-{segs}-{k}", body, rule=r, segs=segs, k=k))
    for r in ("one", "other"):
        out.append(Case(f"{r}-uneven", body, rule=r, segs=2, other_segs=3, k=1))
        out.append(Case(f"{r}-uneven2", body, rule=r, segs=3, other_segs=2, k=1))
        if r == "one" or tier != "quick":
            out.append(Case(f"{r}-both", body, rule=r, segs=2, k=1, deciding=2))
        out.append(Case(f"{r}-both-last", body, rule=r, segs=1, k=0, deciding=2, last=True))
    for r in ("one", "reset", "two", "elif", "hyst", "selfreset"):
        out.append(Case(f"stop-{r}", stop, rule=r))
    out.append(Case("one-in-map", body, rule="one", segs=2, k=1, in_map=True))
    for s in ("T0", "T1", "M01"):
        out.append(Case(f"track-{s}", track, src=s))
    out.append(Case("gap", gap, kf="KF1"))
    return out
