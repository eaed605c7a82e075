"""C23: geometry and number helpers compute what they are documented to compute."""
import math
from .common import *
import verse.utils.utils as U

LEVEL = "model_checking"
BOUNDS = "all rectangles (any centre, size, angle), triangles and convex quadrilaterals, segments, rays, circles and numbers with coordinates up to 20; wrap_to_pi for angles up to 7 pi; lists of up to 4 elements"
OUTSIDE = "confidence ellipsoids/polytopes (inverse and eigenvalues); near_split; translation vectors of are_polygons_intersecting"
ASSUMPTIONS = ["exact reals; cos and sin of an angle are an arbitrary point of the unit circle; pi is its double value"]


ANGLES = {"0": (0.0, 1.0, 0.0), "45": (math.pi / 4, math.sqrt(0.5), math.sqrt(0.5)), "90": (math.pi / 2, 0.0, 1.0), "150": (math.pi * 5 / 6, -math.sqrt(0.75), 0.5)}


def vec(ctx, n, b=20):
    return ctx.array([ctx.real(n + "x", -b, b), ctx.real(n + "y", -b, b)])


def local(c, s, p, q):
    """Coordinates of p along/across a direction (c, s) from q."""
    dx, dy = p[0] - q[0], p[1] - q[1]
    return c * dx + s * dy, c * dy - s * dx


def in_rect(ctx, what, angle=None):
    p, q = vec(ctx, "p"), vec(ctx, "q")
    L, W = ctx.real("L", 0.1, 20), ctx.real("W", 0.1, 20)
    if what == "straight":
        lo, hi = vec(ctx, "l"), vec(ctx, "h")
        res = U.point_in_rectangle(p, lo, hi)
        want = ctx.And(lo[0] <= p[0], p[0] <= hi[0], lo[1] <= p[1], p[1] <= hi[1])
        ctx.check("iff", ctx.Iff(res, want))
        return
    t = ctx.angle("t") if angle is None else angle[0]
    if what == "ellipse" and t:
        L, W = [(4.0, 1.5), (3.0, 7.0)][ctx.choice("size", 2)]
    u, v = local(ctx.cos(t), ctx.sin(t), p, q)
    e = ctx.slack() if angle is None else 1e-6
    if what == "rect":
        res = U.point_in_rotated_rectangle(p, q, L, W, t)
        inside = lambda e: ctx.And(u <= L / 2 + e, -u <= L / 2 + e, v <= W / 2 + e, -v <= W / 2 + e)
    else:
        res = U.point_in_ellipse(p, q, t, L, W)
        inside = lambda e: u * u / (L * L) + v * v / (W * W) < 1 + e
    if res:
        ctx.check("inside", inside(e))
    else:
        ctx.check("outside", ctx.Not(inside(-e)))


def corners(ctx, mid, cen):
    q = vec(ctx, "q")
    L, W = ctx.real("L", 0.1, 20), ctx.real("W", 0.1, 20)
    t = ctx.angle("t")
    c, s = ctx.cos(t), ctx.sin(t)
    pts = U.rect_corners(q, L, W, t, mid, cen)
    want = [(-1, -1), (-1, 1), (1, 1), (1, -1)] + ([(0, 0)] if cen else []) + ([(-1, 0), (1, 0), (0, -1), (0, 1)] if mid else [])
    ctx.check("number", len(pts) == len(want))
    for p, (a, b) in zip(pts, want):
        u, v = local(c, s, p, q)
        ctx.check("corner", ctx.And(ctx.eq(u, a * L / 2), ctx.eq(v, b * W / 2)))


def rects_cross(ctx, angle):
    """Rectangles with a common point intersect; rectangles apart along one of their sides do not."""
    # the first one in its own frame; the second one turned by a given or an arbitrary angle
    L, W = ctx.real("L", 0.1, 20), ctx.real("W", 0.1, 20)
    K, V = ctx.real("K", 0.1, 20), ctx.real("V", 0.1, 20)
    q = vec(ctx, "q")
    if angle is None:
        t = ctx.angle("t")
        c, s = ctx.cos(t), ctx.sin(t)
    else:
        # (exact direction of a right-angled triangle or a quarter turn)
        t, c, s = angle
    res = U.rotated_rectangles_intersect((ctx.array([0.0, 0.0]), L, W, 0.0), (q, K, V, t))
    ctx.observe("res", res)
    p = vec(ctx, "p", 40)
    u, v = local(c, s, p, q)
    e = 1e-9 if angle is None and ctx.sym else 1e-6
    both = ctx.And(*[x <= y - e for a, y in ((p[0], L / 2), (p[1], W / 2), (u, K / 2), (v, V / 2)) for x in (a, -a)])
    if not res:
        ctx.check("disjoint", ctx.Not(both))
    else:
        # the distance of the centres along the axes of the rectangles
        ca, sa = ctx.max(c, -c), ctx.max(s, -s)
        a, b = q
        u0, v0 = c * a + s * b, c * b - s * a
        m = lambda x: ctx.max(x, -x)
        ctx.check("meet", ctx.And(m(a) <= L / 2 + (ca * K + sa * V) / 2 + e, m(b) <= W / 2 + (sa * K + ca * V) / 2 + e,
                                  m(u0) <= K / 2 + (ca * L + sa * W) / 2 + e, m(v0) <= V / 2 + (sa * L + ca * W) / 2 + e))


# convex polygons given by constant directions of their sides, arbitrary place and size
TRI = [[0.0, 0.0], [4.0, 0.0], [0.0, 3.0], [0.0, 0.0]]
SQ = [[0.0, 0.0], [5.0, 0.0], [5.0, 5.0], [0.0, 5.0], [0.0, 0.0]]
DIA = [[0.0, 3.0], [4.0, 0.0], [8.0, 3.0], [4.0, 6.0], [0.0, 3.0]]
POLYS = {"tri": TRI, "square": SQ, "diamond": DIA}
PAIRS = [("tri", "square"), ("square", "tri")]


def polygons(ctx, a, b, moving):
    k, d = 1.5 if moving else ctx.real("k", 0.1, 5), vec(ctx, "d")
    A = ctx.array(POLYS[a])
    B = ctx.array([[k * x + d[0], k * y + d[1]] for x, y in POLYS[b]])
    z = ctx.array([0.0, 0.0])
    va, vb = (vec(ctx, "va"), ctx.array([1.0, -0.5])) if moving else (z, z)
    now, will, tr = U.are_polygons_intersecting(A, B, va, vb)
    p = vec(ctx, "p", 60)

    def inside(P, q, e):
        return ctx.And(*[(y[0] - x[0]) * (q[1] - x[1]) - (y[1] - x[1]) * (q[0] - x[0]) >= e for x, y in zip(P, P[1:])])
    e = 1e-6
    both = ctx.And(inside(A, p, e), inside(B, p, e))
    if not now:
        ctx.check("apart", ctx.Not(both))
    else:
        ctx.check("touching", True)
    if not will:
        # neither now nor at the end of the displacement
        q = ctx.array([p[0] - (va[0] - vb[0]), p[1] - (va[1] - vb[1])])
        ctx.check("never", ctx.Not(ctx.Or(both, ctx.And(inside(A, q, e), inside(B, p, e)))))


def apart(ctx, a, b):
    """Polygons separated by a line along a side of one of them do not intersect."""
    k, d = ctx.real("k", 0.1, 5), vec(ctx, "d")
    A = ctx.array(POLYS[a])
    B = ctx.array([[k * x + d[0], k * y + d[1]] for x, y in POLYS[b]])
    z = ctx.array([0.0, 0.0])
    P, Q = (A, B) if ctx.boolean("first") else (B, A)
    i = ctx.choice("side", len(P) - 1)
    x, y = P[i], P[i + 1]
    ctx.assume(ctx.And(*[(y[0] - x[0]) * (q[1] - x[1]) - (y[1] - x[1]) * (q[0] - x[0]) <= -1e-3 for q in Q]))
    now, will, tr = U.are_polygons_intersecting(A, B, z, z)
    ctx.check("apart", ctx.Not(now))
    ctx.check("apart", ctx.Not(will))


def interval(ctx):
    a, b, c, d = (ctx.real(n, -20, 20) for n in "abcd")
    ctx.assume_le(a, b)
    ctx.assume_le(c, d)
    r = U.interval_distance(a, b, c, d)
    p, q = ctx.real("p"), ctx.real("q")
    ctx.assume(ctx.And(a <= p, p <= b, c <= q, q <= d))
    # no two of their points are nearer than a positive distance, and a negative one means that they overlap
    ctx.check("distance", ctx.Implies(r > 0, ctx.max(p - q, q - p) >= r - ctx.slack()))
    ctx.check("apart", ctx.Implies(r > 0, ctx.Or(b < c, d < a)))
    ctx.check("overlap", ctx.Implies(r <= 0, ctx.And(a <= d, c <= b)))
    ctx.check("gap", ctx.Implies(r > 0, ctx.Or(ctx.eq(r, c - b), ctx.eq(r, a - d))))


def segment_rect(ctx, d):
    """Distance from R to the rectangle along the segment RQ (R outside of the rectangle)."""
    c, s = d
    o = vec(ctx, "o")
    L, W = (ctx.real("L", 0.1, 20), ctx.real("W", 0.1, 20))
    at = lambda u, v: ctx.array([o[0] + c * u - s * v, o[1] + s * u + c * v])
    r0 = [ctx.real("ru", -20, 20), ctx.real("rv", -20, 20)]
    step = [ctx.real("qu", -20, 20), ctx.real("qv", -20, 20)]
    ctx.assume(ctx.And(*[ctx.Or(x >= 0.01, x <= -0.01) for x in step]))
    ctx.assume(ctx.Or(r0[0] < -1e-6, r0[0] > L + 1e-6, r0[1] < -1e-6, r0[1] > W + 1e-6))
    r, q = at(*r0), at(r0[0] + step[0], r0[1] + step[1])
    res = U.distance_to_rect((r, q), [at(0.0, 0.0), at(L, 0.0), at(L, W), at(0.0, W)])
    t = ctx.real("t", 0, 1)
    hit = lambda t, e: ctx.And(*[ctx.And(r0[i] + t * step[i] >= -e, r0[i] + t * step[i] <= m + e) for i, m in ((0, L), (1, W))])
    n2 = step[0] * step[0] + step[1] * step[1]
    if res == float("inf"):
        ctx.check("missed", ctx.Not(hit(t, -1e-6)))
    else:
        # res = x * |step| for a fraction x: no earlier point of the segment is in the rectangle, the one at res is
        x = res / ctx.sqrt(n2)
        ctx.check("on-segment", ctx.And(x >= -1e-6, x <= 1 + 1e-6))
        ctx.check("on-rectangle", hit(x, 1e-6))
        ctx.check("first", ctx.Implies(hit(t, -1e-6), t >= x - 1e-6))


def ray_circle(ctx, d):
    """Distance (in multiples of the direction) from the origin to a circle along a direction."""
    q = vec(ctx, "q")
    R = ctx.real("R", 0.1, 10)
    res = U.distance_to_circle(ctx.array([[q[0]], [q[1]]]), R, ctx.array([[d[0]], [d[1]]]))
    if isinstance(res, np.ndarray):
        res = res.reshape(-1)[0]
    D = lambda t: (t * d[0] - q[0]) * (t * d[0] - q[0]) + (t * d[1] - q[1]) * (t * d[1] - q[1])
    dot, cross, n2 = q[0] * d[0] + q[1] * d[1], q[0] * d[1] - q[1] * d[0], d[0] * d[0] + d[1] * d[1]
    e = 1e-4
    if res == float("inf"):
        # the point of the ray nearest to the centre is the origin or the foot of the perpendicular
        ctx.check("missed", ctx.And(D(0) >= R * R - e, ctx.Implies(dot > 0, cross * cross >= (R * R - e) * n2)))
    elif res == 0:
        ctx.check("within", D(0) <= R * R + (0 if ctx.sym else e))
    else:
        # on the circle, with all nearer points of the ray outside: before the foot of the perpendicular
        ctx.check("reached", ctx.And(res > 0, D(res) == R * R if ctx.sym else ctx.eq(D(res), R * R, e)))
        ctx.check("first", res * n2 <= dot + (0 if ctx.sym else e))


def trinom(ctx):
    a, b, c = ctx.real("a", -10, 10), ctx.real("b", -10, 10), ctx.real("c", -10, 10)
    ctx.assume(ctx.Or(a >= 0.1, a <= -0.1))
    x, y = U.solve_trinom(a, b, c)
    r = ctx.real("r", -500, 500)
    f = lambda v: a * v * v + b * v + c
    if x is None:
        ctx.check("no-root", ctx.And(y is None, ctx.Not(f(r) == 0)))
    else:
        ctx.check("roots", ctx.And(ctx.eq(f(x), 0, 1e-6), ctx.eq(f(y), 0, 1e-6)))
        # both of them: their sum and product
        ctx.check("all-roots", ctx.And(ctx.eq(x + y, -b / a, 1e-6), ctx.eq(x * y, c / a, 1e-6)))


def numbers(ctx, what):
    x = ctx.real("x", -22, 22)
    if what == "wrap":
        r = U.wrap_to_pi(x)
        ctx.check("range", ctx.And(r >= -math.pi - 1e-9, r <= math.pi + 1e-9))
        ctx.check("turns", ctx.Or(*[ctx.eq(x - r, 2 * math.pi * k, 1e-9) for k in range(-4, 5)]))
        ctx.check("kept", ctx.Implies(ctx.And(x >= -math.pi + 1e-9, x < math.pi - 1e-9), ctx.eq(r, x, 1e-9)))
    elif what == "constrain":
        a, b = ctx.real("a", -22, 22), ctx.real("b", -22, 22)
        ctx.assume_le(a, b)
        r = U.constrain(x, a, b)
        ctx.check("range", ctx.And(a <= r, r <= b))
        ctx.check("kept", ctx.Implies(ctx.And(a <= x, x <= b), r == x))
        ctx.check("nearest", ctx.And(ctx.Implies(x < a, r == a), ctx.Implies(x > b, r == b)))
    elif what == "not_zero":
        e = ctx.real("e", 0.001, 1)
        r = U.not_zero(x, e)
        ctx.check("away", ctx.Or(r >= e, r <= -e))
        ctx.check("kept", ctx.Implies(ctx.Or(x > e, x < -e), r == x))
        ctx.check("near", ctx.And(ctx.Implies(x >= 0, r >= x), ctx.Implies(x < 0, r <= x), ctx.Implies(ctx.And(x <= e, x >= -e), ctx.max(r, -r) == e)))
    elif what == "lmap":
        a, b, c, d = (ctx.real(n, -22, 22) for n in "abcd")
        ctx.assume(b - a >= 0.1)
        r = U.lmap(x, [a, b], [c, d])
        ctx.check("ends", ctx.And(ctx.eq(U.lmap(a, [a, b], [c, d]), c, 1e-6), ctx.eq(U.lmap(b, [a, b], [c, d]), d, 1e-6)))
        ctx.check("linear", ctx.eq((r - c) * (b - a), (x - a) * (d - c), 1e-6))


def dedups(ctx, keyed):
    n = 4
    xs = [ctx.real(f"x{i}", -3, 3) for i in range(n)]
    items = [(i, x) for i, x in enumerate(xs)] if keyed else xs
    res = U.dedup(list(items), (lambda t: t[1])) if keyed else U.dedup(list(items))
    keys = [t[1] for t in res] if keyed else res
    # every value is kept once: its first occurrence, in the old order
    for i in range(len(keys)):
        for j in range(i):
            ctx.check("distinct", ctx.Not(keys[i] == keys[j]))
    for x in xs:
        ctx.check("kept", ctx.Or(*[k == x for k in keys]))
    if keyed:
        order = [t[0] for t in res]
        ctx.check("order", order == sorted(order))
        for i, x in res:
            for y in xs[:i]:
                ctx.check("first", ctx.Not(x == y))


def cases(tier):
    out = [Case("in-rectangle", in_rect, what="straight", must_reach=("iff",)),
           Case("in-rotated-rectangle", in_rect, what="rect", must_reach=("inside", "outside")),
           ]
    for n, a in ANGLES.items():
        out.append(Case(f"in-ellipse-{n}", in_rect, what="ellipse", angle=a, must_reach=("inside", "outside")))
    for mid in (False, True):
        for cen in (False, True):
            out.append(Case(f"corners-{mid}-{cen}", corners, mid=mid, cen=cen, must_reach=("corner",)))
    for n, t in ANGLES.items():
        out.append(Case(f"rectangles-{n}", rects_cross, angle=t, must_reach=("disjoint", "meet")))
    more = tier == "thorough"
    for a in POLYS:
        for b in POLYS:
            out.append(Case(f"apart-{a}-{b}", apart, a=a, b=b, must_reach=("apart",)))
            if (a, b) in PAIRS or more:
                out.append(Case(f"polygons-{a}-{b}", polygons, a=a, b=b, moving=False, must_reach=("apart", "touching", "never")))
    for a, b in (("tri", "square"), ("square", "diamond"))[:2 if more else 1]:
        out.append(Case(f"moving-{a}-{b}", polygons, a=a, b=b, moving=True, must_reach=("apart", "touching", "never")))
    out.append(Case("interval", interval, must_reach=("distance", "overlap")))
    for i, d in enumerate(((1.0, 0.0), (-1.0, 0.0), (0.0, -1.0))):
        out.append(Case(f"segment-rectangle-{i}", segment_rect, d=d, must_reach=("missed", "first")))
    for i, d in enumerate(((1.0, 0.0), (0.0, -2.0), (-3.0, 4.0), (0.5, 0.25))[:4 if more else 2]):
        out.append(Case(f"ray-circle-{i}", ray_circle, d=d, must_reach=("missed", "reached", "first", "within")))
    out.append(Case("trinom", trinom, must_reach=("no-root", "roots")))
    for w in ("wrap", "constrain", "not_zero", "lmap"):
        out.append(Case(w, numbers, what=w))
    for k in (False, True):
        out.append(Case(f"dedup-{k}", dedups, keyed=k, must_reach=("distinct", "kept")))
    return out
