"""C24: mixed-monotone reachtubes contain every execution for every initial state and every disturbance."""
import itertools
from .common import *
import ast
import sys
try:
    import astunparse  # noqa: F401
except ImportError:  # the installed package does not load under this Python
    sys.modules["astunparse"] = types.SimpleNamespace(unparse=ast.unparse)
from verse.analysis import verifier as VM, mixmonotone as MM  # noqa: E402
from sympy import Symbol, lambdify  # noqa: E402
lambdify([[Symbol("x")]], [Symbol("x")])  # loads what lambdify needs before numpy is shimmed

LEVEL = "model_checking"
BOUNDS = "discrete time, 1-2 states, 0-2 uncertain parameters, 1-3 steps, dynamics in DYN (linear and multilinear) with arbitrary boxes, all three " \
         "ways of giving the decomposition (function, derivative, text of the dynamics), 1-2 initial boxes"
OUTSIDE = "continuous-time integration (numerical ODE solver); dynamics on which the numerical optimiser is not exact"
ASSUMPTIONS = ["scipy.optimize.minimize returns the minimum over the box (stand-in: the least corner value, exact for the multilinear dynamics used)",
               "floating point modelled as exact reals"]


class Cross:
    """x+ = x + dt(w - y), y+ = y + dt(x/2 + v)"""
    nx, nw = 2, 2

    @staticmethod
    def dynamics(x, args):
        x1, x2 = x
        w1, w2, dt = args
        "Begin Dynamic"
        x1_plus = x1 + dt * (w1 - x2)
        x2_plus = x2 + dt * (x1 / 2 + w2)
        "End Dynamic"
        return [x1_plus, x2_plus]


class Decay:
    nx, nw = 1, 1

    @staticmethod
    def dynamics(x, args):
        x1, = x
        w1, dt = args
        "Begin Dynamic"
        x1_plus = x1 - dt * x1 * 3 + dt * w1
        "End Dynamic"
        return [x1_plus]


class Bilin:
    nx, nw = 2, 1

    @staticmethod
    def dynamics(x, args):
        x1, x2 = x
        w1, dt = args
        "Begin Dynamic"
        x1_plus = x1 + dt * x2 * w1
        x2_plus = x2 - dt * x1
        "End Dynamic"
        return [x1_plus, x2_plus]


DYN = {"cross": Cross, "decay": Decay, "bilin": Bilin}


def cross_dec(x, w, xh, wh, dt):
    return [x[0] + dt * (w[0] - xh[1]), x[1] + dt * (x[0] / 2 + w[1])]


def decay_dec(x, w, xh, wh, dt):
    return [(x[0] if dt * 3 <= 1 else xh[0]) * (1 - 3 * dt) + dt * w[0]]


DEC = {"cross": cross_dec, "decay": decay_dec}


def corner_min(ctx):
    def minimize(f, x0, args=(), bounds=None, jac=None, method=None):
        vals = [f(list(c), *args) for c in itertools.product(*bounds)]
        r = types.SimpleNamespace()
        r.fun = ctx.min(*vals)
        return r
    return minimize


def run_mode(ctx, dyn, way, steps, T, boxes, wbox):
    """the tube of the real code, through the verification loop"""
    cls = DYN[dyn]
    attrs = {}
    if way == "func":
        attrs["decomposition"] = staticmethod(DEC[dyn])
    if way == "jac":
        attrs["dynamics_jac"] = staticmethod(lambda x, args: np.zeros((cls.nx, cls.nx + cls.nw)))
    a = PlainAgent("a")
    a.__class__ = type("Ag", (PlainAgent,), {"dynamics": staticmethod(cls.dynamics), **attrs})
    a.TC_simulate = None
    if way != "func":
        ctx.patch(MM, "minimize", corner_min(ctx))
    root = AnalysisTreeNode.root_from_inits({"a": boxes}, {"a": ("A",)}, {"a": []}, {"a": wbox}, {"a": a}, 10, AnalysisTreeNodeType.REACH_TUBE)
    VM.Verifier(config()).compute_full_reachtube(root, BaseSensor(), steps * T, T, None, LaneMap(), 1, ReachabilityMethod.MIXMONO_DISC, 0, [], {})
    return root.trace["a"]


def body(ctx, dyn, way, steps, nbox=1, T=0.25, lim=4):
    cls = DYN[dyn]

    def box(n, pre):
        lo = [ctx.real(f"{pre}lo{i}", -lim, lim) for i in range(n)]
        hi = [ctx.real(f"{pre}hi{i}", -lim, lim) for i in range(n)]
        for l, h in zip(lo, hi):
            ctx.assume_le(l, h)
        return [lo, hi]

    def point(b, pre):
        p = [ctx.real(f"{pre}{i}", -lim, lim) for i in range(len(b[0]))]
        for l, h, q in zip(b[0], b[1], p):
            ctx.assume_le(l, q)
            ctx.assume_le(q, h)
        return p
    boxes = [box(cls.nx, f"b{k}") for k in range(nbox)]
    wbox = box(cls.nw, "w")
    tube = run_mode(ctx, dyn, way, steps, T, [[list(b[0]), list(b[1])] for b in boxes], [list(wbox[0]), list(wbox[1])])
    ctx.check("rows", len(tube) == 2 * steps)
    for k in range(nbox):
        x = point(boxes[k], f"x{k}_")
        for j in range(steps):
            r0, r1 = tube[2 * j], tube[2 * j + 1]
            if k == 0:
                ctx.check("times", ctx.And(ctx.eq(r0[0], j * T), ctx.eq(r1[0], (j + 1) * T)))
            w = point(wbox, f"w{k}_{j}_")
            nxt = cls.dynamics(x, w + [T])
            ins = lambda p: ctx.And(*[ctx.And(ctx.le(r0[i + 1], p[i]), ctx.le(p[i], r1[i + 1])) for i in range(cls.nx)])
            ctx.check("start-of-step", ins(x))
            ctx.check("end-of-step", ins(nxt))
            x = nxt


def cases(tier):
    cs = []
    for dyn, way, steps, nb in [("cross", "func", 1, 1), ("cross", "func", 3, 1), ("decay", "func", 3, 1), ("cross", "func", 2, 2), ("cross", "jac", 2, 1),
                                ("decay", "jac", 3, 1), ("bilin", "jac", 1, 1), ("cross", "text", 2, 1), ("decay", "text", 3, 1), ("bilin", "text", 1, 1),
                                ("decay", "jac", 2, 2)]:
        cs.append(Case(f"{dyn}-{way}-{steps}-{nb}", body, dyn=dyn, way=way, steps=steps, nbox=nb, must_reach=("end-of-step",)))
    if tier == "thorough":
        cs.append(Case("bilin-jac-2", body, dyn="bilin", way="jac", steps=2))
        cs.append(Case("cross-jac-3", body, dyn="cross", way="jac", steps=3))
        cs.append(Case("cross-func-5", body, dyn="cross", way="func", steps=5))
    return cs
