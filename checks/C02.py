"""C02: the reset set the verifier computes for a transition contains the controller's result at every
state of the set, changes nothing else, and (affine resets) is the tight interval image."""
from .common import *
from .C01 import box

LEVEL = "model_checking"
BOUNDS = "reset shapes in RESETS: affine / multilinear / monotone expressions over up to 4 variables of one agent, one tube " \
         "segment, arbitrary real box bounds in [-20,20], an arbitrary state of the box"
OUTSIDE = "resets whose extremes are not at corners of the box (known finding KF4); several transitions taken at once (C03)"
ASSUMPTIONS = ["floating point modelled as exact reals (candidates are replayed in floating point)",
               "str() of a float followed by eval() gives the float back"]

R1 = "output.{} = {}".format


def ctl(actions, guard="ego.x < 30", cont=("x", "y")):
    b = "    output = copy.deepcopy(ego)\n" + f"    if {guard}:\n" + "".join(f"        {a}\n" for a in actions) + "    return output\n"
    return controller(b, cont=cont)


XY = ("x", "y")
PFX = ("v", "v1", "v10", "v11")
DOT = ("x", "xdot", "y", "ydot")
RESETS = {
    # name: (cont vars, controller, vars tight?)
    "const": (XY, ctl(["output.x = 2"]), True),
    "constf": (XY, ctl(["output.y = -0.25"]), True),
    "copy": (XY, ctl(["output.x = ego.y"]), True),
    "neg": (XY, ctl(["output.x = -ego.x"]), True),
    "scale": (XY, ctl(["output.y = -ego.y*0.75"]), True),
    "add": (XY, ctl(["output.x = ego.x + 1.5"]), True),
    "sub": (XY, ctl(["output.x = 3 - ego.x - ego.y"]), True),
    "lin": (XY, ctl(["output.x = 2*ego.x - 3*(ego.y - 1)"]), True),
    "subneg": (XY, ctl(["output.x = ego.x - (-ego.y)"]), True),
    "div": (XY, ctl(["output.x = (ego.x + ego.y)/2"]), True),
    "swap": (XY, ctl(["output.x = ego.y", "output.y = ego.x"]), True),
    "two": (XY, ctl(["output.x = 0", "output.y = ego.y - ego.x"]), True),
    "mode": (XY, ctl(["output.agent_mode = AgentMode.C"]), True),
    "modereset": (XY, ctl(["output.agent_mode = AgentMode.B", "output.x = ego.x/4"]), True),
    "mul": (XY, ctl(["output.x = ego.x*ego.y"]), True),
    "unrel": (XY, ctl(["output.y = 1"], guard="ego.x + ego.y > 2"), True),
    "elif": (XY, controller("    output = copy.deepcopy(ego)\n    if ego.x < 0:\n        output.x = -ego.x\n    elif ego.x > 5:\n"
                            "        output.x = 5\n    else:\n        output.x = ego.x + 1\n    return output\n"), False),
    "modes": (XY, controller("    output = copy.deepcopy(ego)\n    if ego.agent_mode == AgentMode.A:\n        if ego.x > 1:\n"
                             "            output.agent_mode = AgentMode.B\n            output.y = 0\n        elif ego.x < -1:\n"
                             "            output.agent_mode = AgentMode.C\n            output.y = ego.x\n"
                             "    if ego.agent_mode == AgentMode.B:\n        output.x = 100\n    return output\n"), False),
    "tmpvar": (XY, controller("    output = copy.deepcopy(ego)\n    c = 0.5\n    d = ego.x - 1\n    if d < 4:\n"
                              "        output.x = d*c\n    return output\n"), True),
    "prefix": (PFX, ctl(["output.v10 = ego.v1 + ego.v10 - ego.v11", "output.v = ego.v1"], guard="ego.v < 30", cont=PFX), True),
    "dots": (DOT, ctl(["output.xdot = -ego.xdot + ego.x", "output.ydot = ego.y"], guard="ego.x < 30", cont=DOT), True),
    "pow": (XY, ctl(["output.x = ego.x**2"], guard="ego.x < -1"), False),
    "powsum": (XY, ctl(["output.y = ego.x**2 - ego.y**2/2 + 1"], guard="ego.x < -1"), False),
    "square": (XY, ctl(["output.x = ego.x*ego.x"]), False),
    "ifexp": (XY, ctl(["output.x = ego.x if ego.x < 1 else 0"]), False),
    "ifexp-ok": (XY, ctl(["output.x = ego.y if ego.x < 0 else 1"]), False),
    "dots2": (DOT, ctl(["output.x = ego.xdot*2"], guard="ego.xdot < ego.x", cont=DOT), True),
}
# resets that are monotone in every variable on these boxes (and not otherwise)
RANGE = {"pow": {"x": (-20, -1)}, "powsum": {"x": (-20, -1), "y": (-20, -1)}}
KF = {"square": "KF4", "ifexp": "KF4"}


def run_py(code, cont, vals, mode, others=None):
    """the controller as ordinary Python, at one state; returns (var dict, mode) or None if unchanged"""
    m = pymodule(code)
    ego = PyState(agent_mode=m.AgentMode[mode], **dict(zip(cont, vals)))
    out = m.decisionLogic(ego) if others is None else m.decisionLogic(ego, others)
    return out


def body(ctx, r):
    cont, code, tight = RESETS[r]
    ag = agent(code, "a1")
    rng = {v: box(ctx, v, *RANGE.get(r, {}).get(v, (-20, 20))) for v in cont}
    trace = ctx.array([[0.0] + [rng[v][0] for v in cont], [0.1] + [rng[v][1] for v in cont]])
    p = {v: ctx.real("p_" + v) for v in cont}
    for v in cont:
        ctx.assume(ctx.And(rng[v][0] <= p[v], p[v] <= rng[v][1]))
    out = run_py(code, cont, [p[v] for v in cont], "A")
    ctx.assume(len(out._log) > 0)
    other = PlainAgent("b")
    otrace = ctx.array([[0.0, 1.0, 1.0], [0.1, 2.0, 2.0]])
    asserts, trans = transitions(node({"b": otrace, "a1": trace}, {"a1": ("A",), "b": ("A",)}, {"b": other, "a1": ag}))
    ctx.check("no assert", not asserts)
    ctx.check("reported", len(trans) > 0)
    dest = (out.agent_mode.name,)
    ok = []
    for t in trans:
        ctx.check("agent and source", t[0] == "a1" and tuple(t[1]) == ("A",))
        if tuple(t[2]) != dest:
            continue
        for rect in t[3]:
            ok.append(ctx.And(*[ctx.And(ctx.le(rect[0][i], out.__dict__[v]), ctx.le(out.__dict__[v], rect[1][i]))
                                for i, v in enumerate(cont)]))
    ctx.check("image contained", ctx.Or(*ok))
    if tight and len(trans) == 1:
        # every bound is attained: compare with the corners of the box, and untouched variables keep their box
        rect = trans[0][3][0]
        assigned = {v for v, _ in out._log}
        import itertools
        corners = []
        for cs in itertools.product((0, 1), repeat=len(cont)):
            o = run_py_corner(ctx, code, cont, [rng[v][c] for v, c in zip(cont, cs)])
            corners.append(o)
        for i, v in enumerate(cont):
            if v in assigned:
                lo = ctx.min(*[c[v] for c in corners])
                hi = ctx.max(*[c[v] for c in corners])
            else:
                lo, hi = rng[v]
            ctx.check("tight " + v, ctx.And(ctx.eq(rect[0][i], lo), ctx.eq(rect[1][i], hi)))


_ASSIGN = {}


def run_py_corner(ctx, code, cont, vals):
    """the assignments of the (single) branch, evaluated at a corner whether or not the guard holds there"""
    if code not in _ASSIGN:
        import ast as _ast
        t = _ast.parse(code)
        f = [n for n in t.body if isinstance(n, _ast.FunctionDef) and n.name == "decisionLogic"][0]
        new = []
        for s in f.body:
            if isinstance(s, _ast.If):
                new += s.body
            else:
                new.append(s)
        f.body = new
        ns = {}
        exec(compile(_ast.fix_missing_locations(t), "<corner>", "exec"), ns)
        _ASSIGN[code] = ns
    ns = _ASSIGN[code]
    ego = PyState(agent_mode=ns["AgentMode"].A, **dict(zip(cont, vals)))
    return ns["decisionLogic"](ego).__dict__


def cases(tier):
    return [Case(r, body, r=r, kf=KF.get(r), must_reach=("image contained",) if r not in KF else ()) for r in RESETS]
