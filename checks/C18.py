"""C18: star-set operations agree with the set of points  { center + alpha * basis : C alpha <= g }."""
import scipy.optimize  # noqa: F401 (before the shims)
from .common import *
import verse.stars.starset as SS
from verse.stars.starset import StarSet, containment_poly, new_pred, post_cont_pca
import polytope as pc
from verse.sensor.base_sensor_stars import BaseStarSensor
from verse.analysis.verifier import ReachabilityMethod

LEVEL = "model_checking"
BOUNDS = "2-dimensional star sets with 1-3 generators and 1-4 predicate rows, all of whose entries are arbitrary reals (linear-program cases: given generators and predicate matrices, arbitrary centers and bounds); every point / direction / half-space"
OUTSIDE = "generators derived by PCA (scikit-learn is not a dependency); vertices for plotting; random sampling; star tubes by discrepancy (see C05)"
ASSUMPTIONS = ["exact reals", "scipy's linprog returns an optimal point of the program it is given, or reports that it has none; z3's Solver/Optimize decide the formulas they are given"]


import scipy


class LP:
    """linprog by contract: a feasible point that no other one beats, or infeasibility (instantiated at `points`)."""

    def __init__(self, ctx):
        self.ctx, self.points, self.n, self.results = ctx, [], 0, []

    def __call__(self, c, A_ub=None, b_ub=None, A_eq=None, b_eq=None, bounds=(0, None)):
        ctx = self.ctx
        c = np.asarray(c).reshape(-1)
        k = len(c)
        assert A_eq is None and b_eq is None
        A, b = np.asarray(A_ub), np.asarray(b_ub).reshape(-1)
        if A.shape != (len(b), k):
            raise ValueError("Invalid input for linprog: A_ub must have exactly one column for each variable")
        lo, hi = bounds

        def feasible(x):
            return ctx.And(*[sum(A[i][j] * x[j] for j in range(k)) <= b[i] for i in range(len(b))],
                           *[v >= lo for v in x if lo is not None], *[v <= hi for v in x if hi is not None])

        def cost(x):
            return sum(c[j] * x[j] for j in range(k))

        self.n += 1
        if ctx.boolean(f"feasible{self.n}"):
            x = ctx.array([ctx.real(f"lp{self.n}_{j}") for j in range(k)])
            ctx.assume(feasible(x))
            self.results.append(x)
            for p in self.points:
                if len(p) == k:
                    ctx.assume(ctx.Implies(feasible(p), cost(x) <= cost(p)))
            return type("Res", (), {"x": x, "status": 0, "fun": cost(x), "success": True})()
        for p in self.points:
            if len(p) == k:
                ctx.assume(ctx.Not(feasible(p)))
        return type("Res", (), {"x": None, "status": 2, "fun": None, "success": False})()


def lp(ctx, *points):
    if not ctx.sym:
        return None
    h = LP(ctx)
    h.points = list(points)
    ctx.patch(SS, "linprog", h)
    return h


# generators (rows) and predicates used where a linear program is solved
BASES = {"skew": [[1.0, 0.0], [1.0, 1.0]], "turn": [[0.0, 2.0], [-1.0, 1.0]], "one": [[1.0, -2.0]], "three": [[1.0, 0.0], [0.0, 1.0], [1.0, 2.0]]}


def box_pred(m):
    return [[(1.0 if s == 0 else -1.0) if j == i else 0.0 for j in range(m)] for i in range(m) for s in (0, 1)]


def some_star(ctx, basis, tri=False):
    b = BASES[basis]
    m = len(b)
    center = [ctx.real("cx", -50, 50), ctx.real("cy", -50, 50)]
    C = box_pred(m)
    if tri:
        C = [[-1.0] + [0.0] * (m - 1)] + ([[0.0, -1.0] + [0.0] * (m - 2)] if m > 1 else []) + [[1.0] * m] + [[0.0] * i + [1.0] + [0.0] * (m - i - 1) for i in range(2, m)] + [[0.0] * i + [-1.0] + [0.0] * (m - i - 1) for i in range(2, m)]
    g = [ctx.real(f"g{i}", -20, 20) for i in range(len(C))]
    return StarSet(ctx.array(center), np.array(b), np.array(C), ctx.array(g)), m


def free_star(ctx, m, k, big=10, pre=""):
    r = lambda n: ctx.real(pre + n, -big, big)
    center = ctx.array([r("cx"), r("cy")])
    basis = ctx.array([[r(f"b{i}x"), r(f"b{i}y")] for i in range(m)])
    C = ctx.array([[r(f"C{i}{j}") for j in range(m)] for i in range(k)])
    g = ctx.array([r(f"g{i}") for i in range(k)])
    return center, basis, C, g


def alphas(ctx, m, name="a"):
    return ctx.array([ctx.real(f"{name}{i}", -40, 40) for i in range(m)])


def pred(ctx, s, a, slack=0):
    return ctx.And(*[sum(s.C[i][j] * a[j] for j in range(len(a))) <= s.g[i] + slack for i in range(len(s.g))])


def point(s, a):
    return [s.center[d] + sum(a[i] * s.basis[i][d] for i in range(len(a))) for d in range(len(s.center))]


def snapshot(s):
    return [np.array(getattr(s, k), copy=True) for k in ("center", "basis", "C", "g")]


def unchanged(ctx, s, snap, label="operand-unchanged"):
    for k, old in zip(("center", "basis", "C", "g"), snap):
        new = getattr(s, k)
        ctx.check(label, np.shape(new) == np.shape(old))
        ctx.check(label, ctx.And(*[ctx.eq(x, y) for x, y in zip(np.ravel(new), np.ravel(old))]))


def same(ctx, label, u, v):
    ctx.check(label, ctx.And(*[ctx.eq(x, y) for x, y in zip(u, v)]))


def intersect(ctx, m, k, rows, how):
    parts = free_star(ctx, m, k)
    s = StarSet(*parts)
    a = alphas(ctx, m)
    H = [[ctx.real(f"h{r}x", -10, 10), ctx.real(f"h{r}y", -10, 10)] for r in range(rows)]
    h = [ctx.real(f"h{r}", -100, 100) for r in range(rows)]
    snap = snapshot(s)
    x = point(s, a)
    inside = pred(ctx, s, a)
    if how == "half":
        t = StarSet.get_halfspace_intersection(s, ctx.array(H[0]), h[0])
        unchanged(ctx, s, snap)
    elif how == "half-in-place":
        t = s.starcopy() if ctx.choice("which", 2) else s.copy()
        t.intersection_halfspace(ctx.array(H[0]), h[0])
        unchanged(ctx, s, snap)
    else:
        t = s.starcopy()
        t.intersection_poly(ctx.array(H), ctx.array(h))
        unchanged(ctx, s, snap)
    same(ctx, "same-points", point(t, a), x)
    lhs = [H[r][0] * x[0] + H[r][1] * x[1] for r in range(rows)]
    ctx.check("subset", ctx.Implies(pred(ctx, t, a), ctx.And(inside if ctx.sym else pred(ctx, s, a, 1e-9), *[lhs[r] <= h[r] + ctx.slack() for r in range(rows)])))
    ctx.check("superset", ctx.Implies(ctx.And(inside, *[lhs[r] <= h[r] - ctx.slack() for r in range(rows)]), pred(ctx, t, a, ctx.slack())))


def images(ctx, m, how):
    parts = free_star(ctx, m, 2)
    s = StarSet(*parts)
    a = alphas(ctx, m)
    x = point(s, a)
    snap = snapshot(s)
    if how == "superposition":
        nc, nb = [ctx.real("nx", -10, 10), ctx.real("ny", -10, 10)], [[ctx.real(f"n{i}x", -10, 10), ctx.real(f"n{i}y", -10, 10)] for i in range(m)]
        t = s.superposition(ctx.array(nc), ctx.array(nb))
        expect = [nc[d] + sum(a[i] * nb[i][d] for i in range(m)) for d in (0, 1)]
    elif how in ("apply_reset", "post_cont", "linear-tube"):
        M = [[ctx.real(f"M{i}{j}", -5, 5) for j in (0, 1)] for i in (0, 1)]
        v = [ctx.real("vx", -5, 5), ctx.real("vy", -5, 5)]
        f = lambda p: ctx.array([M[i][0] * p[0] + M[i][1] * p[1] + v[i] for i in (0, 1)])
        expect = f(x)
        if how == "apply_reset":
            t = s.apply_reset(lambda p, e, r: f(p), {}, {})
        elif how == "post_cont":
            t = s.post_cont(lambda p, tt: f(p), 0.1)
        else:
            def sim(mode, init, T, ts, lane_map=None):
                return ctx.array([[0.0, *init], [ts, *f(init)]])
            tube = s.calc_reach_tube_linear(None, 0.1, 0.1, sim, None)
            ctx.check("tube", len(tube) == 2 and tube[0][0] == 0.0 and tube[1][0] == 0.1)
            same(ctx, "image", point(tube[0][1], a), x)
            t = tube[1][1]
    unchanged(ctx, s, snap)
    same(ctx, "image", point(t, a), expect)
    ctx.check("predicate", ctx.Iff(pred(ctx, t, a), pred(ctx, s, a)) if ctx.sym else ctx.Implies(pred(ctx, t, a, -1e-9), pred(ctx, s, a)))


def constructed(ctx, how):
    x = [ctx.real("x", -50, 50), ctx.real("y", -50, 50)]
    if how == "poly":
        A = ctx.array([[ctx.real(f"A{i}x", -10, 10), ctx.real(f"A{i}y", -10, 10)] for i in range(3)])
        b = ctx.array([ctx.real(f"b{i}", -50, 50) for i in range(3)])
        s = StarSet.from_poly(A, b)
        expect = [(sum(A[i][d] * x[d] for d in (0, 1)), b[i]) for i in range(3)]
        # the set has its own data
        A[0][0], b[1] = 77.0, -77.0
    else:
        l, u = [ctx.real("lx", -50, 50), ctx.real("ly", -50, 50)], [ctx.real("ux", -50, 50), ctx.real("uy", -50, 50)]
        for p, q in zip(l, u):
            ctx.assume_le(p, q)

        box2poly_of(ctx)
        s = StarSet.rect_to_star(l, u)
        expect = [(x[d], u[d]) for d in (0, 1)] + [(-x[d], -l[d]) for d in (0, 1)]
    # the generators are the unit vectors, so the parameters are the coordinates
    same(ctx, "points", point(s, x), x)
    ctx.check("subset", ctx.Implies(pred(ctx, s, x), ctx.And(*[p <= q + ctx.slack() for p, q in expect])))
    ctx.check("superset", ctx.Implies(ctx.And(*[p <= q - ctx.slack() for p, q in expect]), pred(ctx, s, x)))


def own_data(ctx):
    parts = free_star(ctx, 2, 2)
    s = StarSet(*parts)
    snap = snapshot(s)
    parts[0][0] = parts[1][1][0] = parts[2][0][1] = parts[3][1] = 99.0
    unchanged(ctx, s, snap, "own-data")
    t = [s.copy(), s.starcopy(), s.superposition(s.center, s.basis)][ctx.choice("which", 3)]
    t.center[0] = t.basis[0][1] = t.C[1][1] = t.g[0] = 98.0
    unchanged(ctx, s, snap, "own-data")


def bounded(ctx, s, m):
    """The predicate of some_star has points."""
    w = alphas(ctx, m, "w")
    ctx.assume(pred(ctx, s, w))
    return w


def ranges(ctx, basis, tri, what):
    s, m = some_star(ctx, basis, tri)
    w = bounded(ctx, s, m)
    a = alphas(ctx, m)
    ctx.assume(pred(ctx, s, a))
    x = point(s, a)
    lp(ctx, a, w)
    snap = snapshot(s)
    tol = 1e-6
    if what == "get_max_min":
        i = ctx.choice("dim", 2)
        lo, hi = s.get_max_min(i)
        ctx.check("contains", ctx.And(lo <= x[i] + tol, x[i] <= hi + tol))
    elif what == "rectangle":
        lo, hi = s.overapprox_rectangle()
        ctx.check("contains", ctx.And(*[ctx.And(lo[i] <= x[i] + tol, x[i] <= hi[i] + tol) for i in (0, 1)]))
    elif what == "rectangles":
        lo, hi = s.overapprox_rectangles()
        ctx.check("contains", ctx.And(*[ctx.And(lo[i] <= x[i] + tol, x[i] <= hi[i] + tol) for i in (0, 1)]))
    elif what == "maximize":
        d = [ctx.real("dx", -5, 5), ctx.real("dy", -5, 5)]
        dd = ctx.array([[d[0]], [d[1]]])
        p = np.ravel(s.maximize(dd))
        ctx.check("support", d[0] * p[0] + d[1] * p[1] >= d[0] * x[0] + d[1] * x[1] - tol)
        same(ctx, "argument-unchanged", np.ravel(dd), d)
    unchanged(ctx, s, snap)


def member(ctx, s, p, h, tol=1e-6):
    """p is a point of the set (found by one of the linear programs; searched for anew in concrete runs)."""
    if ctx.sym:
        return ctx.Or(False, *[ctx.And(pred(ctx, s, r, 1e-9), *[ctx.eq(u, v) for u, v in zip(point(s, r), p)]) for r in h.results])
    m = len(s.basis)
    A = np.vstack([np.hstack([s.C, np.zeros((len(s.g), 1))])] + [np.hstack([sg * s.basis[:, d], [-1]]) for sg in (1, -1) for d in range(s.n)])
    b = np.concatenate([s.g + 1e-9] + [[sg * (p[d] - s.center[d])] for sg in (1, -1) for d in range(s.n)])
    r = scipy.optimize.linprog([0] * m + [1], A_ub=A, b_ub=b, bounds=(None, None))
    return r.status == 0 and r.x[-1] <= tol


def attained(ctx, basis, tri, what):
    """Ranges are not wider than the set, and extreme points belong to it."""
    s, m = some_star(ctx, basis, tri)
    w = bounded(ctx, s, m)
    h = lp(ctx, w)
    if what in ("get_max_min", "rectangle"):
        i = ctx.choice("dim", 2)
        lo, hi = s.get_max_min(i) if what == "get_max_min" else [v[i] for v in s.overapprox_rectangle()]
        for v in (lo, hi):
            if ctx.sym:
                ctx.check("attained", ctx.Or(*[ctx.And(pred(ctx, s, r), ctx.eq(point(s, r)[i], v)) for r in h.results]))
            else:
                d = scipy.optimize.linprog(-s.basis[:, i] if v is hi else s.basis[:, i], A_ub=s.C, b_ub=s.g, bounds=(None, None))
                ctx.check("attained", abs(point(s, d.x)[i] - v) < 1e-6)
    elif what == "center":
        v = s.get_true_center()
        lo, hi = s.overapprox_rectangle()
        if ctx.sym:
            # the same programs have the same optimal values
            n = len(h.results) // 2
            for r, q in zip(h.results[:n], h.results[n:]):
                for d in (0, 1):
                    ctx.assume(point(s, r)[d] == point(s, q)[d])
        ctx.check("center", ctx.And(*[ctx.eq(v[i], (lo[i] + hi[i]) / 2, 1e-6) for i in (0, 1)]))
    elif what == "maximize":
        p = np.ravel(s.maximize(ctx.array([[ctx.real("dx", -5, 5)], [ctx.real("dy", -5, 5)]])))
        ctx.check("member", member(ctx, s, p, h))


def emptiness(ctx, basis, tri, what):
    s, m = some_star(ctx, basis, tri)
    a = alphas(ctx, m)
    h = lp(ctx, a)
    snap = snapshot(s)
    x = point(s, a)
    if what == "is_empty":
        res = s.is_empty()
        inside = pred(ctx, s, a)
        outside = lambda: h is None and scipy.optimize.linprog(np.zeros(m), A_ub=s.C, b_ub=s.g + 1e-6, bounds=(None, None)).status == 2
        if res:
            ctx.check("empty", ctx.Not(inside if ctx.sym else pred(ctx, s, a, -1e-6)))
        else:
            ctx.check("nonempty", ctx.Or(*[pred(ctx, s, r) for r in h.results]) if ctx.sym else not outside())
    else:
        H, b = [ctx.real("hx", -10, 10), ctx.real("hy", -10, 10)], ctx.real("h", -100, 100)
        w = alphas(ctx, m, "w")
        ctx.assume(pred(ctx, s, w))
        if h:
            h.points.append(w)
        vec = ctx.array(H)
        res = s.satisfies(vec, b)
        same(ctx, "argument-unchanged", vec, H)
        if res:
            ctx.check("satisfied", ctx.Implies(pred(ctx, s, a), H[0] * x[0] + H[1] * x[1] <= b + 1e-6))
        elif ctx.sym:
            ctx.check("violated", ctx.Or(*[ctx.And(pred(ctx, s, r), H[0] * point(s, r)[0] + H[1] * point(s, r)[1] >= b) for r in h.results]))
        else:
            r = scipy.optimize.linprog(-(s.basis @ vec), A_ub=s.C, b_ub=s.g, bounds=(None, None))
            ctx.check("violated", vec @ point(s, r.x) >= b - 1e-6)
    unchanged(ctx, s, snap)


def box2poly_of(ctx):
    def box2poly(dims):
        d = [list(v) for v in dims]
        n = len(d)
        return type("P", (), {"A": np.vstack([np.eye(n), -np.eye(n)]), "b": ctx.array([v[1] for v in d] + [-v[0] for v in d])})()
    if ctx.sym:
        ctx.patch(pc, "box2poly", box2poly)


def combined(ctx, b1, b2):
    s, m = some_star(ctx, b1)
    b = BASES[b2]
    t = StarSet(ctx.array([ctx.real("ex", -50, 50), ctx.real("ey", -50, 50)]), np.array(b), np.array(box_pred(len(b))), ctx.array([ctx.real(f"k{i}", -20, 20) for i in range(2 * len(b))]))
    a, c = alphas(ctx, m), alphas(ctx, len(b), "c")
    ctx.assume(ctx.And(pred(ctx, s, a), pred(ctx, t, c)))
    lp(ctx, a, c)
    box2poly_of(ctx)
    snaps = snapshot(s), snapshot(t)
    u = StarSet.combine_stars([s, t])
    for x in (point(s, a), point(t, c)):
        # unit generators: the parameters are the coordinates
        same(ctx, "unit", point(u, x), x)
        ctx.check("contains", pred(ctx, u, x, 1e-6))
    unchanged(ctx, s, snaps[0])
    unchanged(ctx, t, snaps[1])


class Sat:
    """z3.Solver by contract: a model of the constraints, or none (instantiated at `points` for the parameters)."""

    def __init__(self, ctx):
        self.ctx, self.vars, self.cons, self.points, self.model = ctx, [], [], [], None

    def __call__(self):
        self.cons = []
        return self

    def Real(self, name):
        v = self.ctx.eng.fresh("z3_" + name)
        self.vars.append(v)
        return v

    def RealVector(self, name, n):
        return [self.Real(f"{name}{i}") for i in range(n)]

    def add(self, c):
        self.cons.append(c)

    def check(self):
        import z3
        ctx = self.ctx
        f = ctx.And(*self.cons)
        if ctx.boolean("sat"):
            ctx.assume(f)
            self.model = self.vars
            return SS.sat
        for p in self.points:
            ctx.assume(ctx.Not(ctx.E.wrapb(z3.substitute(ctx.E.term(f), *[(v.z(), w.z()) for v, w in zip(self.vars, p)]))))
        return SS.unsat


def membership(ctx, m, k, what):
    center, basis, C, g = free_star(ctx, m, k, big=5)
    a = alphas(ctx, m)
    if not ctx.sym:
        # (so that no product is rounded in a replay)
        center, basis, C, a = (np.round(v * 64) / 64 for v in (center, basis, C, a))
        g = np.ceil(g * 64) / 64
    s = StarSet(center, basis, C, g)
    snap = snapshot(s)
    if ctx.boolean("inside"):
        ctx.assume(pred(ctx, s, a))
        p = ctx.array(point(s, a))
    else:
        p = ctx.array([ctx.real("px", -50, 50), ctx.real("py", -50, 50)])
    z = None
    if ctx.sym:
        z = Sat(ctx)
        z.points = [a]
        for n, v in (("Solver", z), ("Real", z.Real), ("RealVector", z.RealVector)):
            ctx.patch(SS, n, v)
    res = s.contains_point(p) if what == "contains_point" else containment_poly(s, p)
    if res:
        if ctx.sym:
            ctx.check("member", ctx.And(pred(ctx, s, z.model), *[u == v for u, v in zip(point(s, z.model), p)]))
        else:
            ctx.check("member", member(ctx, s, p, None))
    else:
        ok = ctx.And(pred(ctx, s, a), *[u == v for u, v in zip(point(s, a), p)])
        ctx.check("outside", ctx.Not(ok))
    unchanged(ctx, s, snap)


class Opt(Sat):
    """z3.Optimize by contract: any model of the constraints (its optimality is not relied on)."""

    def __init__(self, ctx, unsat):
        super().__init__(ctx)
        del self.model
        self.unsat = unsat

    def __call__(self):
        self.cons = []
        return self

    def minimize(self, e):
        pass

    def check(self):
        if self.unsat:
            self.unsat -= 1
            return SS.unsat
        self.ctx.assume(self.ctx.And(*self.cons))
        return SS.sat

    def model(self):
        class Val:
            def __init__(self, v):
                self.v = v

            def as_fraction(self):
                return self.v

            def as_decimal(self, n):
                return ""

        class M:
            def __getitem__(self, v):
                return Val(v)
        return M()


def around(ctx, m, unsat):
    """The star set made around given points contains them."""
    b = BASES["turn"] if m == 2 else BASES["one"]
    C = box_pred(m)
    old = StarSet(ctx.array([0.0, 0.0]), np.array(b), np.array(C), ctx.array([ctx.real(f"g{i}", 0.5, 5) for i in range(2 * m)]))
    derived = ctx.array([[ctx.real(f"d{i}x", -5, 5), ctx.real(f"d{i}y", -5, 5)] for i in range(m)])
    pts = ctx.array([[ctx.real(f"p{i}x", -50, 50), ctx.real(f"p{i}y", -50, 50)] for i in range(2)])
    if ctx.sym:
        o = Opt(ctx, unsat)
        for n, v in (("Optimize", o), ("Real", o.Real), ("RealVector", o.RealVector)):
            ctx.patch(SS, n, v)
    snap = snapshot(old)
    new = post_cont_pca(old, derived, pts)
    unchanged(ctx, old, snap)
    same(ctx, "generators", np.ravel(new.basis), np.ravel(derived))
    for i in range(2):
        if ctx.sym:
            al = o.vars[-(2 * m + 3):][i * m:(i + 1) * m]
            ctx.check("contains", ctx.And(pred(ctx, new, al), *[ctx.eq(u, v) for u, v in zip(point(new, al), pts[i])]))
        else:
            ctx.check("contains", member(ctx, new, pts[i], None))


# ---- guards and resets on star sets ----
GUARDS = {"linear": ("ego.x + 2 * ego.y >= 3", lambda e, o: [e[0] + 2 * e[1] >= 3]),
          "band": ("ego.x >= 3 and ego.y <= 1", lambda e, o: [e[0] >= 3, e[1] <= 1]),
          "not": ("not (ego.x < 3 or ego.y > 1)", lambda e, o: [e[0] >= 3, e[1] <= 1])}
OTHER = {"linear": ("any(ego.x - o.x >= 2 for o in others)", lambda e, o: [e[0] - o[0] >= 2]),
         "band": ("any((ego.x >= o.x and o.y <= 1) for o in others)", lambda e, o: [e[0] >= o[0], o[1] <= 1])}
RESETS = {"none": ([], lambda e: e),
          "lin": (["output.x = 2 * ego.x - ego.y + 1"], lambda e: [2 * e[0] - e[1] + 1, e[1]]),
          "both": (["output.x = ego.y", "output.y = 3 - ego.x"], lambda e: [e[1], 3 - e[0]])}


def star_transition(ctx, basis, tri, guard, reset, others):
    text, cond = (OTHER if others else GUARDS)[guard]
    lines, image = RESETS[reset]
    rule = "\n        ".join(["output.agent_mode = AgentMode.B"] + lines)
    ag = agent(controller(simple_rule(f"ego.agent_mode == AgentMode.A and {text}", rule), others="others" if others else None), "a1")
    s, m = some_star(ctx, basis, tri)
    a = alphas(ctx, m)
    ctx.assume(pred(ctx, s, a))
    x = point(s, a)
    trace = {"a1": [[0.0, s]]}
    agents, modes, init = {"a1": ag}, {"a1": ("A",)}, {"a1": [s]}
    y = None
    if others:
        b = BASES["skew"]
        t = StarSet(ctx.array([ctx.real("ex", -50, 50), ctx.real("ey", -50, 50)]), np.array(b), np.array(box_pred(2)), ctx.array([ctx.real(f"k{i}", -20, 20) for i in range(4)]))
        c = alphas(ctx, 2, "c")
        ctx.assume(pred(ctx, t, c))
        y = point(t, c)
        oag = agent(controller("    output = copy.deepcopy(ego)\n    return output\n"), "a2")
        agents["a2"], modes["a2"], init["a2"], trace["a2"] = oag, ("A",), [t], [[0.0, t]]
    snap = snapshot(s)
    nd = node(trace, modes, agents, init=init)
    asserts, trans = transitions(nd, sensor=BaseStarSensor(), cfg=config(reachability_method=ReachabilityMethod.STAR_SETS))
    unchanged(ctx, s, snap)
    trans = [t for ts in (trans or {}).values() for t in ts] if isinstance(trans, dict) else list(trans or [])
    ctx.observe("hit", bool(trans))
    if not trans:
        ctx.check("possible", ctx.Not(ctx.And(*cond(x, y))))
        return
    ctx.check("hit", len(trans) == 1)
    agent_id, src, dest, star = trans[0][0], trans[0][1], trans[0][2], trans[0][3][0]
    ctx.check("hit", agent_id == "a1" and tuple(dest) == ("B",))
    # every point has its image in the successor (under the same parameters)
    same(ctx, "image", point(star, a), image(x))
    ctx.check("image", pred(ctx, star, a))


def cases(tier):
    out = []

    def add(name, fn, reach, **kw):
        out.append(Case(name, fn, must_reach=reach, **kw))
    for m in (1, 2, 3):
        add(f"half-{m}", intersect, ("same-points", "subset", "superset"), m=m, k=2, rows=1, how="half")
    add("half-in-place", intersect, ("subset", "superset"), m=2, k=2, rows=1, how="half-in-place")
    add("intersect-poly", intersect, ("subset", "superset"), m=2, k=2, rows=2, how="poly")
    for how in ("superposition", "apply_reset", "post_cont", "linear-tube"):
        for m in (1, 2, 3):
            add(f"{how}-{m}", images, ("image", "predicate"), m=m, how=how)
    add("from-poly", constructed, ("points", "subset"), how="poly")
    add("rect-to-star", constructed, ("points", "subset"), how="rect")
    add("own-data", own_data, ("own-data",))
    for basis in BASES:
        for tri in (False, True):
            for what in ("get_max_min", "rectangle", "rectangles"):
                add(f"range-{what}-{basis}-{tri}", ranges, ("contains",), basis=basis, tri=tri, what=what)
            add(f"range-maximize-{basis}-{tri}", ranges, ("support",), basis=basis, tri=tri, what="maximize")
            add(f"attained-{basis}-{tri}", attained, ("attained",), basis=basis, tri=tri, what="get_max_min")
            add(f"extreme-{basis}-{tri}", attained, ("member",), basis=basis, tri=tri, what="maximize")
            add(f"empty-{basis}-{tri}", emptiness, ("empty", "nonempty"), basis=basis, tri=tri, what="is_empty")
            add(f"satisfies-{basis}-{tri}", emptiness, ("satisfied", "violated"), basis=basis, tri=tri, what="satisfies")
        add(f"center-{basis}", attained, ("center",), basis=basis, tri=False, what="center")
    add("combined", combined, ("contains",), b1="skew", b2="turn")
    add("combined-13", combined, ("contains",), b1="one", b2="three")
    for what in ("contains_point", "containment_poly"):
        for m in (1, 2, 3):
            add(f"{what}-{m}", membership, ("member", "outside"), m=m, k=2, what=what, conc_validate=False)
    for m in (1, 2):
        for unsat in (0, 1):
            add(f"around-{m}-{unsat}", around, ("contains",), m=m, unsat=unsat, conc_validate=False)
    for basis in ("skew", "one", "three"):
        for guard in GUARDS:
            add(f"guard-{guard}-{basis}", star_transition, ("possible", "hit", "image"), basis=basis, tri=basis == "skew", guard=guard, reset="none", others=False)
    for guard in OTHER:
        add(f"guard-other-{guard}", star_transition, ("possible", "hit", "image"), basis="turn", tri=False, guard=guard, reset="none", others=True)
    for basis in ("skew", "turn", "three"):
        for reset in ("lin", "both"):
            add(f"reset-{reset}-{basis}", star_transition, ("possible", "hit", "image"), basis=basis, tri=False, guard="linear", reset=reset, others=False)
    return out
