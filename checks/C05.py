"""C05: the tube computed from sampled executions contains them, the initial box, and everything within the learned bound."""
from .common import *
from verse.analysis import dryvr_disc

LEVEL = "model_checking"
BOUNDS = "1 or 2 state variables, centre execution plus 1..3 sampled executions of 2..4 rows with arbitrary values; " \
         "initial boxes: arbitrary centre with radii from {0, 1/2, 3} per variable, and fully arbitrary boxes in one variable"
OUTSIDE = "GLOBAL (convex hull / exponential fit) bloating, stars (C18), NeuReach, more than 3 samples (10 are the default)"
ASSUMPTIONS = ["the sampling primitive returns some value of its range; the simulator is replaced by arbitrary executions",
               "floating point modelled as exact reals"]


class Sim:
    def __init__(self, ctx, lens, dims, t0=0.0, start=True):
        self.ctx, self.lens, self.dims, self.calls, self.t0, self.start = ctx, lens, dims, [], t0, start

    def __call__(self, mode, init, horizon, step, lane_map=None, *a):
        k = len(self.calls)
        n = self.lens[k % len(self.lens)]
        rows = [[self.t0] + list(init)]
        for j in range(1, n):
            rows.append([round(self.t0 + j * step, 10)] + [self.ctx.real(f"s{k}_{d}_{j}", -40, 40) for d in range(self.dims)])
        self.calls.append((mode, list(init), horizon, step, rows))
        return self.ctx.array(rows)


def mkbox(ctx, dims, radii, anyc=()):
    lo, hi = [], []
    for d in range(dims):
        if radii[d] is None:
            l, h = ctx.real(f"lo{d}", -10, 10), ctx.real(f"hi{d}", -10, 10)
            ctx.assume_le(l, h)
        else:
            c = ctx.real(f"c{d}", -10, 10) if d in anyc else (0.25, -1.5)[d]
            l, h = c - radii[d], c + radii[d]
        lo.append(l)
        hi.append(h)
    return lo, hi


def tube_case(ctx, module="dryvr", dims=1, radii=(None,), lens=(3,), nsim=1, extra=False, anyc=(), fixed=None, efix=None, method="PW"):
    mod = {"dryvr": dryvr, "disc": dryvr_disc}[module]
    fn = {"dryvr": dryvr.calc_bloated_tube, "disc": dryvr_disc.calc_bloated_tube_dryvr}[module]
    rnd = NamedRandom(ctx, fixed=fixed)
    ctx.patch(mod, "random", rnd)
    lo, hi = mkbox(ctx, dims, radii, anyc)
    init = [list(lo), list(hi)]
    sim = Sim(ctx, lens, dims)
    H, step = 0.5 * (max(lens) - 1), 0.5
    tube = np.asarray(fn(("A",), init, H, step, sim, method, 100, nsim, lane_map=None), dtype=object)
    ctx.check("inputs-unchanged", all(init[0][d] is lo[d] and init[1][d] is hi[d] for d in range(dims)))
    L = min(lens[k % len(lens)] for k in range(nsim + 1))
    tr = [c[4][:L] for c in sim.calls]
    ctx.check("sims", len(sim.calls) == nsim + 1)
    for k, c in enumerate(sim.calls):
        ctx.check("sim-args", c[0] == ("A",) and c[2] == H and c[3] == step)
        for d in range(dims):
            ctx.check("sample-in-box", ctx.And(ctx.le(lo[d], c[1][d]), ctx.le(c[1][d], hi[d])))
            if k == 0:
                ctx.check("centre", ctx.eq(c[1][d] * 2, lo[d] + hi[d]))
    segs = L - 1 if module == "dryvr" else L
    ctx.check("rows", tube.shape == (2 * segs, dims + 1))
    # row ranges: segment k of dryvr covers rows k and k+1 of an execution; of the discrete one, row k
    def cover(k):
        return (k, k + 1) if module == "dryvr" else (k,)
    for k in range(segs):
        l, u = tube[2 * k], tube[2 * k + 1]
        ctx.check("times", ctx.And(ctx.eq(l[0], tr[0][cover(k)[0]][0]), ctx.eq(u[0], tr[0][cover(k)[-1]][0])))
        for d in range(dims):
            ctx.check("order", l[1 + d] <= u[1 + d])
            for j in cover(k):
                for t in tr:
                    ctx.check("contains-sim", ctx.And(ctx.le(l[1 + d], t[j][1 + d]), ctx.le(t[j][1 + d], u[1 + d])))
            if k == 0:
                ctx.check("contains-init", ctx.And(ctx.le(l[1 + d], lo[d]), ctx.le(hi[d], u[1 + d])))
    if extra:
        extra_execution(ctx, module, dims, radii, lo, hi, tr, tube, cover, efix)


def extra_execution(ctx, module, dims, radii, lo, hi, tr, tube, cover, efix=None):
    """an arbitrary further execution within the discrepancy learned from the samples is inside"""
    import itertools as it
    nr = [r if r else 1.0 for r in radii]
    e0 = [ctx.real(f"e_{d}_0") if efix is None else lo[d] + (hi[d] - lo[d]) * efix[d] for d in range(dims)]
    for d in range(dims):
        ctx.assume_le(lo[d], e0[d])
        ctx.assume_le(e0[d], hi[d])
    L = len(tr[0])
    e = [e0] + [[ctx.real(f"e_{d}_{j}", -400, 400) for d in range(dims)] for j in range(1, L)]

    def absd(a, b):
        return ctx.max(a - b, b - a)

    def dist0(a, b):
        return ctx.max(*[absd(a[d], b[d]) / nr[d] for d in range(dims)])
    c = tr[0]
    de = dist0(e0, c[0][1:])
    for j in range(1, L):
        for d in range(dims):
            # |e - c| <= K |e0 - c0| with K the largest ratio seen between two samples
            diff = absd(e[j][d], c[j][1 + d])
            ctx.assume(ctx.Or(*[diff * (dist0(a[0][1:], b[0][1:]) + 1e-10) <= absd(a[j][1 + d], b[j][1 + d]) * de
                                for a, b in it.combinations(tr, 2)]))
            k = j - 1 if module == "dryvr" else j
            l, u = tube[2 * k], tube[2 * k + 1]
            ctx.check("contains-bounded", ctx.And(ctx.le(l[1 + d], e[j][d]), ctx.le(e[j][d], u[1 + d])))
            if module == "dryvr" and j < L - 1:
                l, u = tube[2 * k + 2], tube[2 * k + 3]
                ctx.check("contains-bounded-next", ctx.And(ctx.le(l[1 + d], e[j][d]), ctx.le(e[j][d], u[1 + d])))


def cases(tier):
    cs = []
    for m in ("dryvr", "disc"):
        def add(name, **kw):
            cs.append(Case(f"{m}-{name}", tube_case, module=m, must_reach=("contains-sim", "contains-init", "times"), **kw))
        S1, S2, S3 = (0.25,), (0.0, 1.0, 0.75, 0.5), (1.0, 0.3, 0.6, 0.0, 0.9, 0.1)
        # arbitrary sampled initial states
        add("1d-sym", dims=1, radii=(0.5,), lens=(3,), nsim=1)
        add("1d-symtrim", dims=1, radii=(0.5,), lens=(4, 3), nsim=1)
        add("1d-point", dims=1, radii=(0,), lens=(3,), nsim=2)
        add("2d-sym", dims=2, radii=(0.5, 3), lens=(3,), nsim=1)
        add("2d-symflat", dims=2, radii=(0, 3), lens=(3,), nsim=1)
        add("2d-symflat2", dims=2, radii=(0.5, 0), lens=(3,), nsim=1)
        # sampled initial states at given places of the box: more samples, longer executions
        add("1d-trim2", dims=1, radii=(0.5,), lens=(2, 4, 3), nsim=2, fixed=S2, anyc=(0,))
        add("1d-2sims", dims=1, radii=(3,), lens=(3,), nsim=2, fixed=S2, anyc=(0,))
        add("1d-corner", dims=1, radii=(3,), lens=(4,), nsim=1, fixed=(1.0,))
        add("2d-2sims", dims=2, radii=(0.5, 3), lens=(3,), nsim=2, fixed=S2, anyc=(0, 1))
        add("2d-2simsflat", dims=2, radii=(0, 3), lens=(3,), nsim=2, fixed=S3, anyc=(0, 1))
        for i, ef in enumerate([(0.1, 0.9), (1.0, 0.0), (0.5, 0.75)]):
            add(f"extra-1d{i}", dims=1, radii=(0.5,), lens=(3,), nsim=1, extra=True, fixed=S1, efix=ef)
            add(f"extra-2d{i}", dims=2, radii=(0.5, 3), lens=(3,), nsim=1, extra=True, fixed=(0.0, 0.75), efix=ef)
            add(f"extra-flat{i}", dims=2, radii=(0, 3), lens=(2,), nsim=2, extra=True, fixed=S2, efix=ef)
        if m == "disc":
            add("1d-any", dims=1, radii=(None,), lens=(3,), nsim=1)
        if tier == "thorough":
            if m == "dryvr":
                add("1d-any", dims=1, radii=(None,), lens=(3,), nsim=1)
            add("1d-sym2sims", dims=1, radii=(3,), lens=(2,), nsim=2)
            add("2d-sym2sims", dims=2, radii=(0.5, 3), lens=(2,), nsim=2)
            add("1d-3sims", dims=1, radii=(0.5,), lens=(4,), nsim=3, fixed=S2, anyc=(0,))
            add("2d-any", dims=2, radii=(None, None), lens=(2,), nsim=1)
            add("2d-3sims", dims=2, radii=(0.5, 0), lens=(3,), nsim=3, fixed=S3)
            add("extra-sym1d", dims=1, radii=(0.5,), lens=(3,), nsim=1, extra=True)
            add("extra-sym2d", dims=2, radii=(0.5, 3), lens=(2,), nsim=1, extra=True)
            add("extra-2sims", dims=1, radii=(0.5,), lens=(3,), nsim=2, extra=True, fixed=S2, efix=(0.9,))
    return cs
