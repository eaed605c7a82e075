"""C16: lane coordinates, headings and positions are consistent; lanes find the segment a position belongs to."""
import math
import types
from .common import *
from verse.map.lane import Lane
from verse.map.lane_segment import CircularLane, StraightLane
from verse.map import example_map
from verse.map.example_map import intersection as INTER, simple_map2 as SM2, map_tacas as MT

LEVEL = "model_checking"
BOUNDS = "straight segments with arbitrary end points (|coordinate| <= 100, length >= 1), circular segments with arbitrary centre, radius 1..100 and start phase, both driving directions and arcs up to a " \
         "full turn; all positions (within 100 of the origin); lanes of 1-3 segments; the built-in intersection with arbitrary sizes"
OUTSIDE = "3-dimensional lanes; positions at the centre of a circular segment; lanes that cross or touch themselves; floating-point rounding (candidates are replayed in floating point)"
ASSUMPTIONS = ["exact reals; pi is its double value", "a position's heading and coordinates where several segments of a lane claim it are those of the one it is nearest to sideways"]
PI = math.pi
TOL = 1e-6


def straight(ctx, pre="", lo=-100, hi=100):
    s = [ctx.real(pre + "sx", lo, hi), ctx.real(pre + "sy", lo, hi)]
    e = [ctx.real(pre + "ex", lo, hi), ctx.real(pre + "ey", lo, hi)]
    d2 = (e[0] - s[0]) * (e[0] - s[0]) + (e[1] - s[1]) * (e[1] - s[1])
    ctx.assume(d2 >= 1)
    lane = StraightLane("s", list(s), list(e), 4)
    L = lane.length
    ctx.check("length", ctx.And(L >= 0, ctx.eq(L * L, d2, 1e-6)))
    return lane, s, e, L


def near(ctx, a, b, tol=TOL):
    return ctx.And(*[ctx.eq(x, y, tol) if tol else same(ctx, x, y) for x, y in zip(a, b)])


def same(ctx, a, b, tol=TOL):
    """Equal (a tolerance only for the replay in floating point)."""
    return a == b if ctx.sym else ctx.eq(a, b, max(tol, TOL))


def st_round(ctx):
    lane, s, e, L = straight(ctx)
    p = [ctx.real("px", -100, 100), ctx.real("py", -100, 100)]
    lon, lat = lane.local_coordinates(np.array(p))
    q = lane.position(lon, lat)
    ctx.check("back", near(ctx, q, p, 0))
    # the coordinates are the projections on the driving direction and on its left
    dx, dy = e[0] - s[0], e[1] - s[1]
    ctx.check("along", same(ctx, lon * L, (p[0] - s[0]) * dx + (p[1] - s[1]) * dy, 1e-3))
    ctx.check("left", same(ctx, lat * L, (p[1] - s[1]) * dx - (p[0] - s[0]) * dy, 1e-3))


def st_forward(ctx):
    lane, s, e, L = straight(ctx)
    a, r = ctx.real("a", -300, 300), ctx.real("r", -50, 50)
    p = lane.position(a, r)
    dx, dy = e[0] - s[0], e[1] - s[1]
    ctx.check("along", same(ctx, (p[0] - s[0]) * L, a * dx - r * dy, 1e-3))
    ctx.check("left", same(ctx, (p[1] - s[1]) * L, a * dy + r * dx, 1e-3))
    lon, lat = lane.local_coordinates(p)
    ctx.check("back", ctx.And(same(ctx, lon, a, TOL), same(ctx, lat, r, TOL)))
    ctx.check("ends", ctx.And(near(ctx, lane.position(0, 0), s, 0), near(ctx, lane.position(lane.length, 0), e, 0)))


def st_heading(ctx):
    lane, s, e, L = straight(ctx)
    h = lane.heading_at(ctx.real("a", -300, 300))
    ctx.check("tangent", ctx.And(same(ctx, ctx.cos(h) * L, e[0] - s[0], 1e-6), same(ctx, ctx.sin(h) * L, e[1] - s[1], 1e-6)))
    ctx.check("range", ctx.And(ctx.le(-PI, h, 1e-9), ctx.le(h, PI, 1e-9)))


def circle(ctx, cw, arc=None, sp=None, sgn=None):
    """A circular segment; the arc (in driving direction) is symbolic in (0, 2 pi) unless given."""
    ctx.geometry()
    c = [ctx.real("cx", -50, 50), ctx.real("cy", -50, 50)]
    R = ctx.real("R", 1, 100)
    sp = ctx.real("sp", -PI, PI) if sp is None else sp
    arc = ctx.real("arc", 0.125, 6.125) if arc is None else arc
    d = -1 if cw else 1
    return CircularLane("c", list(c), R, sp, sp + d * arc, clockwise=cw, width=2), c, R, sp, arc, d


def ci_round(ctx, cw):
    lane, c, R, sp, arc, d = circle(ctx, cw)
    p = [ctx.real("px", -100, 100), ctx.real("py", -100, 100)]
    ctx.assume((p[0] - c[0]) * (p[0] - c[0]) + (p[1] - c[1]) * (p[1] - c[1]) >= 0.01)
    lon, lat = lane.local_coordinates(np.array(p))
    q = lane.position(lon, lat)
    ctx.check("back", near(ctx, q, p))
    # sideways offset: distance from the circle, positive on the left of the driving direction
    k = (R - lat * d)
    ctx.check("left", ctx.And(k >= 0, ctx.eq(k * k, (p[0] - c[0]) * (p[0] - c[0]) + (p[1] - c[1]) * (p[1] - c[1]), 1e-4)))


def ci_forward(ctx, cw):
    """Positions inside the segment's extent get exactly their own coordinates."""
    lane, c, R, sp, arc, d = circle(ctx, cw)
    a = ctx.real("a", 0, 700)
    r = ctx.real("r", -0.9, 0.9)
    ctx.assume(a <= arc * R)
    ctx.assume(R - r * d >= 0.05)
    p = lane.position(a, r)
    lon, lat = lane.local_coordinates(p)
    ctx.check("sideways", ctx.eq(lat, r, TOL))
    ctx.check("along", ctx.eq(lon, a, 1e-5))


def ci_heading(ctx, cw):
    lane, c, R, sp, arc, d = circle(ctx, cw)
    a = ctx.real("a", -1, 700)
    ctx.assume(a <= arc * R)
    p = lane.position(a, 0)
    h = lane.heading_at(a)
    # the heading is the radius turned a quarter in driving direction
    ctx.check("tangent", ctx.And(ctx.eq(ctx.cos(h) * R, -d * (p[1] - c[1]), 1e-5), ctx.eq(ctx.sin(h) * R, d * (p[0] - c[0]), 1e-5)))
    ctx.check("range", ctx.And(ctx.le(-PI, h, 1e-9), ctx.le(h, PI, 1e-9)))
    # moving sideways (to the left) moves at a right angle to the heading
    r = ctx.real("r", -0.9, 0.9)
    q = lane.position(a, r)
    ctx.check("left", near(ctx, q, [p[0] - r * ctx.sin(h), p[1] + r * ctx.cos(h)], 1e-5))


def ci_ends(ctx, cw):
    lane, c, R, sp, arc, d = circle(ctx, cw)
    ep = sp + d * arc
    p, q = lane.position(0, 0), lane.position(lane.length, 0)
    ctx.check("start", near(ctx, p, [c[0] + R * ctx.cos(sp), c[1] + R * ctx.sin(sp)], 1e-5))
    ctx.check("end", near(ctx, q, [c[0] + R * ctx.cos(ep), c[1] + R * ctx.sin(ep)], 1e-5))
    ctx.check("length", ctx.eq(lane.length, arc * R, 1e-5))


class Seg(StraightLane):
    """A segment whose answer to every position is given."""

    def __init__(self, lon, lat, length, heading):
        super().__init__("s", [0.0, 0.0], [1.0, 0.0], 4)
        self.length, self._a, self._h, self.asked = length, (lon, lat), heading, []

    def local_coordinates(self, position):
        return self._a

    def heading_at(self, longitudinal):
        self.asked.append(longitudinal)
        return self._h


def lookup(ctx, n, through_map=False):
    """The segment used is one whose extent (or the 3 units before it) holds the position, and of those the nearest sideways."""
    segs, dat = [], []
    for i in range(n):
        lon, lat, ln, h = ctx.real(f"lon{i}", -500, 500), ctx.real(f"lat{i}", -50, 50), ctx.real(f"len{i}", 1, 300), ctx.real(f"h{i}", -3, 3)
        dat.append((lon, lat, ln, h))
        segs.append(Seg(lon, lat, ln, h))
    claims = [ctx.And(lon >= -3, lon < ln) for lon, lat, ln, h in dat]
    ctx.assume(ctx.Or(False, *claims))
    lane = Lane("T1", segs)
    m, key = lane, ()
    if through_map:
        m, key = LaneMap([Lane("T0", [Seg(0.0, 0.0, 1.0, 0.0)]), lane]), ("T1",) if ctx.boolean("direct") else ("M12",)
    p = np.array([0.0, 0.0])
    lon = m.get_longitudinal_position(*key, p)
    lat = m.get_lateral_distance(*key, p)
    h = (m.get_lane_heading if through_map else m.get_heading)(*key, p)
    A = lambda x: ctx.max(x, -x)
    ok = []
    for i in range(n):
        start = sum([d[2] for d in dat[:i]], 0.0)
        best = ctx.And(*[ctx.Implies(claims[j], A(dat[i][1]) <= A(dat[j][1])) for j in range(n)])
        ok.append(ctx.And(claims[i], best, ctx.eq(lon, start + dat[i][0]), ctx.exact(lat, dat[i][1]), ctx.exact(h, dat[i][3])))
        ctx.check("start", ctx.eq(segs[i].longitudinal_start, start))
    ctx.check("segment", ctx.Or(False, *ok))
    got = m.get_lane_segment(*key, p)
    got = got[1] if isinstance(got, tuple) else got
    k = [i for i in range(n) if segs[i] is got]
    ctx.check("found", len(k) == 1 and ctx.And(claims[k[0]], *[ctx.Implies(claims[j], A(dat[k[0]][1]) <= A(dat[j][1])) for j in range(n)]))


def turn(ctx, cw, seg, quarter):
    """A straight, an arc of a quarter or half turn, and a straight: centre line positions get their own segment's coordinates."""
    ctx.geometry()
    L1, L2, R = ctx.real("L1", 5, 100), ctx.real("L2", 5, 100), ctx.real("R", 4, 50)
    d = -1 if cw else 1
    sp = -d * PI / 2
    arc = PI / 2 if quarter else PI
    s1 = StraightLane("a", [0.0, 0.0], [L1, 0.0], 3)
    s2 = CircularLane("b", [L1, d * R], R, sp, sp + d * arc, clockwise=cw, width=3)
    a, b = ([L1 + R, d * R], [L1 + R, d * (R + L2)]) if quarter else ([L1, 2 * d * R], [L1 - L2, 2 * d * R])
    s3 = StraightLane("c", a, b, 3)
    lane = Lane("T0", [s1, s2, s3])
    s = ctx.real("s", 0, 200)
    ctx.assume(s <= (L1, arc * R, L2)[seg] - 0.01)
    if seg == 1:
        ctx.assume(s >= 0.01)
        th = sp + d * s / R
        c_, s_ = ctx.cos(th), ctx.sin(th)
        if ctx.sym:
            # where on the arc (cos/sin of an angle within the arc, measured from its start)
            ctx.assume(ctx.And(s_ * d <= 0 if quarter else True, c_ >= 0))
        p = [L1 + R * c_, d * R + R * s_]
    else:
        p = [s, 0.0] if seg == 0 else [a[0] + (0 if quarter else -s), a[1] + (d * s if quarter else 0)]
    lon = lane.get_longitudinal_position(np.array(p))
    lat = lane.get_lateral_distance(np.array(p))
    h = lane.get_heading(np.array(p))
    start = (0.0, L1, L1 + arc * R)[seg]
    ctx.check("along", ctx.eq(lon, start + s, 1e-5))
    ctx.check("sideways", ctx.eq(lat, 0, 1e-5))
    want = [(1, 0), None, (0, d) if quarter else (-1, 0)][seg]
    if want is None:
        want = (-d * s_, d * c_)
    ctx.check("heading", ctx.And(ctx.eq(ctx.cos(h), want[0], 1e-6), ctx.eq(ctx.sin(h), want[1], 1e-6)))


def joined(ctx, lane, tol=1e-4):
    """Every segment starts where, and in the direction in which, the one before it ends."""
    for a, b in zip(lane.segment_list, lane.segment_list[1:]):
        ctx.check("continuous", near(ctx, a.position(a.length, 0), b.position(0, 0), tol))
        ha, hb = a.heading_at(a.length), b.heading_at(0)
        ctx.check("direction", ctx.And(ctx.eq(ctx.cos(ha), ctx.cos(hb), 1e-6), ctx.eq(ctx.sin(ha), ctx.sin(hb), 1e-6)))
        ctx.check("width", ctx.eq(a.width_at(a.length), b.width_at(0)))
    for s in lane.segment_list:
        ctx.check("positive", s.length > 0)


def crossing(ctx, lanes):
    ctx.geometry(mode="const")
    w, size, length = ctx.real("w", 1, 5), ctx.real("size", 5, 60), ctx.real("length", 10, 500)
    ctx.assume(size >= (1 + lanes) * w)
    m = INTER.Intersection(w, size, length, lanes)
    ctx.check("lanes", sorted(m.lane_dict) == sorted(f"{a}{b}_{i}" for a in "NSEW" for b in "NSEW" if a != b for i in range(lanes)))
    out = {"N": (0, 1), "S": (0, -1), "E": (1, 0), "W": (-1, 0)}
    k = sorted(m.lane_dict)[ctx.choice("lane", 12 * lanes)]
    for k, lane in [(k, m.lane_dict[k])]:
        joined(ctx, lane)
        i = int(k.split("_")[1])
        a, b = out[k[0]], out[k[1]]
        off = w * (i + 0.5)
        p, q = lane.segment_list[0].position(0, 0), lane.segment_list[-1].position(lane.segment_list[-1].length, 0)
        # driving on the right: in on the right-hand side of the arm it is named after, out likewise
        ctx.check("from", near(ctx, p, [a[0] * (size + length) - a[1] * off, a[1] * (size + length) + a[0] * off], 1e-5))
        ctx.check("to", near(ctx, q, [b[0] * (size + length) + b[1] * off, b[1] * (size + length) - b[0] * off], 1e-5))
    for k in m.lane_dict:
        ln, i = k.split("_")
        i = int(i)
        for mode, j in (("SwitchLeft", i - 1), ("SwitchRight", i + 1)):
            t = m.h(k, "Normal", mode)
            if 0 <= j < lanes:
                ctx.check("switch", t == f"{k}_{j}" and m.get_phys_lane(t) == k and m.h(t, mode, "Normal") is not None)
            else:
                ctx.check("switch", t is None)
        ctx.check("switch", m.h(k, "Normal", "Normal") == k)


def built_in(ctx):
    maps = [SM2.SimpleMap2, SM2.SimpleMap3, SM2.SimpleMap4, SM2.SimpleMap6, MT.M1, MT.M2, MT.M3]
    m = maps[ctx.choice("map", len(maps))]()
    for lane in m.lane_dict.values():
        joined(ctx, lane, 1e-3)
    for (lane, src, dst), to in m.h_dict.items():
        ctx.check("lookup", m.h(lane, src, dst) == to and m.h_exist(lane, src, dst) and not m.h_exist(lane, src, "x" + dst))
        ctx.check("exists", m.get_phys_lane(to) in m.lane_dict and m.get_phys_lane(lane) in m.lane_dict)
        if to.startswith("M"):
            # to the side the mode says
            a, b = m.lane_dict["T" + to[1]].segment_list[0], m.lane_dict["T" + to[2]].segment_list[0]
            lat = a.local_coordinates(b.position(0, 0))[1]
            ctx.check("side", lat > 0 if "Left" in dst else lat < 0)
            ctx.check("source", to[1] == lane[1])
        elif lane.startswith("M"):
            ctx.check("target", to == "T" + lane[2])


def extent(ctx, what):
    """on_lane / is_reachable_from / after_end / distance as documented."""
    lon, lat, ln, h, w = ctx.real("lon", -500, 500), ctx.real("lat", -50, 50), ctx.real("len", 1, 300), ctx.real("h", -3, 3), ctx.real("w", 1, 10)
    s = Seg(lon, lat, ln, h)
    s.width = w
    V = s.VEHICLE_LENGTH
    p = np.array([0.0, 0.0])
    A = ctx.max(lat, -lat)
    if what == "on":
        m = ctx.real("m", 0, 3)
        want = ctx.And(A <= w / 2 + m, lon >= -V, lon < ln + V)
        ctx.check("on", ctx.Iff(s.on_lane(p, margin=m), want))
        ctx.check("on", ctx.Iff(s.on_lane(p, lon, lat, m), want))
    elif what == "reach":
        ctx.check("reach", ctx.Iff(s.is_reachable_from(p), ctx.And(A <= 2 * w, lon >= 0, lon < ln + V)))
        s.forbidden = True
        ctx.check("reach", ctx.Not(s.is_reachable_from(p)))
    elif what == "end":
        ctx.check("end", ctx.Iff(s.after_end(p), lon > ln - V / 2))
        ctx.check("end", ctx.Iff(s.after_end(np.array([1.0, 1.0]), longitudinal=lon), lon > ln - V / 2))
    else:
        d = A + ctx.max(lon - ln, 0) + ctx.max(-lon, 0)
        ctx.check("distance", ctx.eq(s.distance(p), d))
        ctx.check("distance", ctx.eq(s.distance_with_heading(p, None), d))
        ctx.geometry()
        hd, wt = ctx.real("hd", -3, 3), ctx.real("wt", 0, 3)
        a = ctx.max(hd - h, h - hd)
        a = ctx.min(a, 2 * PI - a)
        ctx.check("weighted", ctx.eq(s.distance_with_heading(p, hd, wt), d + wt * a))


def config(ctx, cw=None):
    """A segment written to its configuration and made from it again is the same segment."""
    if cw is None:
        s, e = [ctx.real("sx", -50, 50), ctx.real("sy", -50, 50)], [ctx.real("ex", 51, 100), ctx.real("ey", 51, 100)]
        lane = StraightLane("s7", s, e, ctx.real("w", 1, 5), forbidden=True, speed_limit=ctx.real("v", 0, 40), priority=3)
        names = ("start", "end", "width", "length", "speed_limit", "direction", "direction_lateral")
    else:
        lane = CircularLane("c7", [ctx.real("sx", -50, 50), ctx.real("sy", -50, 50)], ctx.real("R", 1, 50), ctx.real("a", -3, 3), ctx.real("b", -3, 3), cw,
                            ctx.real("w", 1, 5), forbidden=True, speed_limit=ctx.real("v", 0, 40), priority=3)
        names = ("center", "radius", "start_phase", "end_phase", "width", "length", "speed_limit", "direction")
    c = lane.to_config()
    back = type(lane).from_config(c["config"])
    for k in names:
        a, b = getattr(lane, k), getattr(back, k)
        ctx.check("same", near(ctx, a, b) if hasattr(a, "__len__") else ctx.eq(a, b))
    ctx.check("same", (lane.id, lane.forbidden, lane.priority, lane.type) == (back.id, back.forbidden, back.priority, back.type))
    ctx.check("same", list(lane.line_types) == list(back.line_types) and getattr(lane, "clockwise", 0) == getattr(back, "clockwise", 0))
    ctx.check("class", c["class_path"] == f"{type(lane).__module__}.{type(lane).__qualname__}")


def cases(tier):
    out = [Case("straight-round", st_round), Case("straight-forward", st_forward), Case("straight-heading", st_heading)]
    for cw in (False, True):
        out += [Case(f"circle-round-{cw}", ci_round, cw=cw), Case(f"circle-forward-{cw}", ci_forward, cw=cw), Case(f"circle-heading-{cw}", ci_heading, cw=cw),
                Case(f"circle-ends-{cw}", ci_ends, cw=cw)]
    for n in (1, 2, 3) + ((4,) if tier == "thorough" else ()):
        out.append(Case(f"lookup-{n}", lookup, n=n, must_reach=("segment",)))
    out.append(Case("lookup-map", lookup, n=2, through_map=True, must_reach=("segment",)))
    for cw in (False, True):
        for q in (True, False):
            for seg in (0, 1, 2):
                out.append(Case(f"turn-{'right' if cw else 'left'}-{'quarter' if q else 'half'}-{seg}", turn, cw=cw, seg=seg, quarter=q, must_reach=("heading",)))
    for n in (1, 2) + ((3,) if tier == "thorough" else ()):
        out.append(Case(f"crossing-{n}", crossing, lanes=n, must_reach=("to",)))
    out.append(Case("built-in", built_in, must_reach=("side",)))
    for w in ("on", "reach", "end", "distance"):
        out.append(Case("extent-" + w, extent, what=w))
    for cw in (None, False, True):
        out.append(Case(f"config-{cw}", config, cw=cw))
    return out
