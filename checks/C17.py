"""C17: the set a map function has on a box of positions contains its value at every position of the box."""
import math
from .common import *
from verse.map.lane import Lane
from verse.map.lane_segment import CircularLane, StraightLane

LEVEL = "model_checking"
BOUNDS = "straight segments of any length in any place, in 8 directions (thorough: any direction), circular segments with arbitrary radius, centre and start phase, lanes of 1-3 segments with bends and turns; all boxes of positions, all positions in them"
OUTSIDE = "boxes with positions at the centre of a circular segment; 3-dimensional maps; get_lane_heading (refused in guards); how tight the sets are (see C01 for the sets of ordinary expressions)"
ASSUMPTIONS = ["exact reals; pi is its double value", "the value at a position is what the real map function returns for it (C16)"]
PI = math.pi
SRC = '''
from enum import Enum, auto
from typing import List
import copy

class AgentMode(Enum):
    A = auto()
    B = auto()

class TrackMode(Enum):
    T0 = auto()
    T1 = auto()
    M01 = auto()

class State:
    x: float
    y: float
    agent_mode: AgentMode
    track_mode: TrackMode
    def __init__(self, x, y, agent_mode: AgentMode, track_mode: TrackMode):
        pass

def decisionLogic(ego: State, track_map):
    output = copy.deepcopy(ego)
    if {guard}:
        output.agent_mode = AgentMode.B
    return output
'''
F = {"lat": "track_map.get_lateral_distance", "lon": "track_map.get_longitudinal_position"}


def guard_holds(ctx, lane_map, fn, op, c, lo, hi, p, track="T0"):
    code = SRC.format(guard=f"ego.agent_mode == AgentMode.A and {F[fn]}(ego.track_mode, [ego.x, ego.y]) {op} {c}")
    ag = agent(code, "a1")
    nd = node({"a1": ctx.array([[0.0] + list(lo), [0.1] + list(hi)])}, {"a1": ("A", track)}, {"a1": ag})
    lane_map.h_dict = {(t, "A", "B"): t for t in ("T0", "T1", "M01")}
    asserts, trans = transitions(nd, lane_map)
    hit = bool(trans)
    m = pymodule(code)
    v = (lane_map.get_lateral_distance if fn == "lat" else lane_map.get_longitudinal_position)(track, np.array(p))
    holds = {">=": v >= c, "<=": v <= c}[op]
    if not hit:
        ctx.check("possible", ctx.Not({">=": v >= c + 1e-6, "<=": v <= c - 1e-6}[op]))
    else:
        ctx.check("hit", True)
    return hit


def a_box(ctx, lo=-100, hi=100):
    l = [ctx.real("lx", lo, hi), ctx.real("ly", lo, hi)]
    u = [ctx.real("ux", lo, hi), ctx.real("uy", lo, hi)]
    p = [ctx.real("px", lo, hi), ctx.real("py", lo, hi)]
    for a, b, c in zip(l, p, u):
        ctx.assume_le(a, b)
        ctx.assume_le(b, c)
    return l, u, p


DIRS = {"E": (1, 0), "N": (0, 1), "W": (-1, 0), "S": (0, -1), "34": (0.6, 0.8), "-43": (-0.8, 0.6), "-12-5": (-12 / 13, -5 / 13), "5-12": (5 / 13, -12 / 13)}


def straight(ctx, what, op, d=None):
    s = [ctx.real("sx", -100, 100), ctx.real("sy", -100, 100)]
    if d:
        k = ctx.real("len", 1, 200)
        e = [v + k * w for v, w in zip(s, DIRS[d])]
    else:
        e = [ctx.real("ex", -100, 100), ctx.real("ey", -100, 100)]
    ctx.assume((e[0] - s[0]) * (e[0] - s[0]) + (e[1] - s[1]) * (e[1] - s[1]) >= 1)
    l, u, p = a_box(ctx)
    seg = StraightLane("s", s, e, 4)
    # on the lane (elsewhere there is no segment to refer to)
    a = seg.local_coordinates(np.array(p))[0]
    ctx.assume(ctx.And(a >= -2.999, a < seg.length - 0.001))
    guard_holds(ctx, LaneMap([Lane("T0", [seg])]), what, op, 1.5 if what == "lat" else 20, l, u, p)


def circular(ctx, what, op, cw, sp, arc):
    ctx.geometry(mode="order" if what == "lon" else "free")
    R = ctx.real("R", 2, 60)
    d = -1 if cw else 1
    seg = CircularLane("c", [0.0, 0.0], R, sp, sp + d * arc, clockwise=cw, width=3)
    l, u, p = a_box(ctx, -80, 80)
    ctx.assume(p[0] * p[0] + p[1] * p[1] >= 0.01)

    a = seg.local_coordinates(np.array(p))[0]
    ctx.assume(ctx.And(a >= -3, a < seg.length))
    c = 0.5 if what == "lat" else arc
    guard_holds(ctx, LaneMap([Lane("T0", [seg])]), what, op, c, l, u, p)


def many(ctx, shape, what, op, c, box):
    """A lane of several segments: box over the places where they meet."""
    if shape == "bend":
        segs = [StraightLane("a", [0, 0], [20, 0], 4), StraightLane("b", [20, 0], [36, 12], 4)]
    elif shape == "sharp":
        segs = [StraightLane("a", [0, 0], [20, 0], 4), StraightLane("b", [20, 0], [20, -30], 4), StraightLane("c", [20, -30], [0, -30], 4)]
    elif shape == "detour":
        # both ends of a box in the first segment, a part of it in the others
        segs = [StraightLane("a", [0, 0], [20, 0], 4), StraightLane("b", [20, 0], [20, 10], 4), StraightLane("c", [20, 10], [0, 10], 4)]
    elif shape == "between":
        segs = [StraightLane("a", [0, 0], [20, 0], 4)]
    lo, hi = box
    l, u, p = a_box(ctx, lo, hi)
    # on the lane (elsewhere there is no segment to refer to)
    ctx.assume(ctx.Or(*[ctx.And(a >= -2.999, a < s.length - 0.001) for s in segs for a in (s.local_coordinates(np.array(p))[0],)]))
    guard_holds(ctx, LaneMap([Lane("T0", segs), Lane("T1", [StraightLane("d", [0, 8], [20, 8], 4)])]), what, op, c, l, u, p, "M01" if shape == "between" else "T0")


BOXES = [((-3, -12), (3, -8)), ((-3, -12), (9, -3)), ((-20, -12), (12, 5)), ((8, -5), (12, 5))]


def arcs(ctx, box, what, op, rev):
    """Straight, quarter circle, straight (as in the built-in maps): every position of a given box."""
    ctx.geometry(mode="order" if what == "lon" else "free")
    segs = [StraightLane("a", [-22.5, -10], [0, -10], 3), CircularLane("b", [0.0, 0.0], 10, 3 * PI / 2, 2 * PI, False, 3), StraightLane("c", [10, 0], [10, 87], 3)]
    if rev:
        segs = [StraightLane("a", [10, 87], [10, 0], 3), CircularLane("b", [0.0, 0.0], 10, 2 * PI, 3 * PI / 2, True, 3), StraightLane("c", [0, -10], [-22.5, -10], 3)]
    l, u = BOXES[box]
    if what == "lon":
        # (variables, so that the directions of the corners are compared with that of p)
        l, u = ([ctx.real(n + c, v, v) for c, v in zip("xy", b)] for n, b in zip("lu", BOXES[box]))
    p = [ctx.real("p" + c, a, b) for c, a, b in zip("xy", *BOXES[box])]
    ctx.assume(p[0] * p[0] + p[1] * p[1] >= 0.01)
    ctx.assume(ctx.Or(*[ctx.And(a >= -2.999, a < s.length - 0.001) for s in segs for a in (s.local_coordinates(np.array(p))[0],)]))
    if what == "lon":
        cs = [5, 10, 15, 20, 25, 30, 35, 40, 42] if not rev else [70, 82, 84, 86, 90, 95, 100, 105, 115, 121]
    else:
        cs = [-6, -3, -1.5, 1.5, 3, 6]
    c = cs[ctx.choice("c", len(cs))]
    guard_holds(ctx, LaneMap([Lane("T0", segs)]), what, op, c, l, u, p)


def cases(tier):
    out = []
    for shape, what, op, c in (("bend", "lon", ">=", 30), ("bend", "lat", ">=", 1), ("bend", "lat", "<=", -1), ("bend", "lon", "<=", 10),
                               ("sharp", "lon", ">=", 40), ("sharp", "lat", "<=", -2), ("sharp", "lat", ">=", 2), ("sharp", "lon", "<=", 15),
                               ("detour", "lon", ">=", 25), ("detour", "lon", "<=", 25), ("detour", "lat", "<=", 1), ("detour", "lat", ">=", 3), ("between", "lon", "<=", 7), ("between", "lat", ">=", 5),):
        out.append(Case(f"many-{shape}-{what}{op}{c}", many, shape=shape, what=what, op=op, c=c, box={"bend": (1, 30), "sharp": (-25, 19.5), "detour": (1, 19.5), "between": (1, 30)}[shape], must_reach=("possible", "hit")))
    for box in range(len(BOXES)):
        for what in ("lon", "lat"):
            for op in (">=", "<="):
                for rev in (False, True):
                    out.append(Case(f"arc-{box}-{what}{op}-{rev}", arcs, box=box, what=what, op=op, rev=rev, must_reach=("hit",), conc_validate=False))
    for fn in ("lat", "lon"):
        for op in (">=", "<="):
            for d in DIRS:
                out.append(Case(f"straight-{fn}{op}-{d}", straight, what=fn, op=op, d=d, must_reach=("possible", "hit")))
            out.append(Case(f"straight-{fn}{op}", straight, timeout_ms=900000, what=fn, op=op, must_reach=("possible", "hit"), tiers=("thorough",)))
    for cw in (False, True):
        for sp, arc in ((0.0, PI / 2), (3 * PI / 2, PI / 2), (PI, PI), (2.5, 3 * PI / 2)):
            for fn in ("lat", "lon"):
                for op in (">=", "<="):
                    if fn == "lat" and sp:
                        continue
                    out.append(Case(f"circular-{fn}{op}-{sp:.3g}-{arc:.3g}-{cw}", circular, what=fn, op=op, cw=cw, sp=sp, arc=arc, must_reach=("possible", "hit"), conc_validate=False))
    return out
