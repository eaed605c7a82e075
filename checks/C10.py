"""C10: the compiled conditions, assignments and assertions mean what the controller means as Python, in simulation and in verification."""
import itertools
from .common import *

LEVEL = "model_checking"
BOUNDS = "the controllers of CORPUS (branches, elif, else, nested ifs, overwritten assignments, helper functions and lambdas, local variables, any/all with " \
         "filters, modes compared across agents, chained comparisons, assertions under conditions and in helpers), all modes, 1 ego and 0-2 others, " \
         "every real state in [-20,20]; every operator pair for the textual rendering"
OUTSIDE = "loops, early returns and other constructs the parser rejects; assignments that are under no condition (ignored by the analyses); map queries (C17)"
ASSUMPTIONS = ["ordinary Python run: the controller source executed on plain state objects with the same values",
               "where several assignments to one variable are executed, the analyses may take any of them (documented nondeterminism); the last one must be among them",
               "floating point modelled as exact reals (candidates are replayed in floating point)"]

HD = "    output = copy.deepcopy(ego)\n"
A, B, C = "AgentMode.A", "AgentMode.B", "AgentMode.C"


def ctrl(body, others=None, pre="", sig=None):
    src = controller(HD + indent(body) + "    return output\n", others=others, sig=sig)
    if pre:
        i = src.index("def decisionLogic")
        src = src[:i] + pre + "\n" + src[i:]
    return src


# name -> (source, number of other agents)
CORPUS = {
    "if": (ctrl("if ego.x > 2:\n    output.agent_mode = AgentMode.B"), 0),
    "else": (ctrl("if ego.x > 2:\n    output.agent_mode = AgentMode.B\nelse:\n    output.y = 4"), 0),
    "elif": (ctrl("if ego.x > 2:\n    output.agent_mode = AgentMode.B\nelif ego.y > 2:\n    output.agent_mode = AgentMode.C\nelse:\n    output.x = ego.y"), 0),
    "nested": (ctrl("if ego.agent_mode == AgentMode.A:\n    if ego.x > 2:\n        output.agent_mode = AgentMode.B\n    else:\n        output.x = -ego.x\n"
                    "elif ego.agent_mode == AgentMode.B:\n    if ego.y < 1:\n        if ego.x > 0:\n            output.agent_mode = AgentMode.C\n            output.y = ego.x*2 - ego.y"), 0),
    "overwrite": (ctrl("if ego.x > 2:\n    output.agent_mode = AgentMode.B\nif ego.y > 2:\n    output.agent_mode = AgentMode.C"), 0),
    "overwrite2": (ctrl("if ego.x > 2:\n    output.x = 1\n    if ego.y > 2:\n        output.x = 3\n    output.y = ego.x"), 0),
    "restore": (ctrl("if ego.x > 2:\n    output.x = 1\n    output.agent_mode = AgentMode.B\nif ego.y > 2:\n    output.x = ego.x + ego.y\nelse:\n    output.y = 3"), 0),
    "local": (ctrl("d = ego.x - ego.y\nlim = 3\nif d > lim:\n    output.agent_mode = AgentMode.B\n    output.x = d/2"), 0),
    "local2": (ctrl("d = ego.x - ego.y\ne = d*2 - 1\nif e > d and not d > 4:\n    output.y = e - d"), 0),
    "chain": (ctrl("if -1 < ego.x < ego.y <= 4:\n    output.agent_mode = AgentMode.B"), 0),
    "boolmix": (ctrl("if ego.agent_mode == AgentMode.A and (ego.x > 1 or not (ego.y > 2 and ego.x < 0)):\n    output.agent_mode = AgentMode.B\n"
                     "if not (ego.agent_mode == AgentMode.A or ego.x > 3):\n    output.agent_mode = AgentMode.A"), 0),
    "modes": (ctrl("if ego.agent_mode != AgentMode.C:\n    if ego.agent_mode == AgentMode.A or ego.agent_mode == AgentMode.B:\n        if ego.x*2 >= 5:\n"
                   "            output.agent_mode = AgentMode.C\nelse:\n    output.agent_mode = AgentMode.A"), 0),
    "helper": (ctrl("if near(ego.x, ego.y) and ego.agent_mode == AgentMode.A:\n    output.agent_mode = AgentMode.B",
                    pre="def near(a, b):\n    return a - b < 2 and b - a < 2\n"), 0),
    "helper2": (ctrl("if far(ego, 3):\n    output.agent_mode = AgentMode.B\n    output.x = shift(ego.x, 1) - shift(ego.y, 2)",
                     pre="def shift(a, k):\n    return a*2 + k\n\ndef far(s, k):\n    d = s.x - s.y\n    return d > k or -d > k\n"), 0),
    "lambda": (ctrl("close = lambda a, b: a - b < 1 and b - a < 1\nif close(ego.x, 3) or close(ego.y, ego.x + 4):\n    output.agent_mode = AgentMode.B"), 0),
    "helpers_swap": (ctrl("if first(ego.y, ego.x):\n    output.x = second(ego.y, ego.x)",
                          pre="def second(x, y):\n    return x - 2*y\n\ndef first(x, y):\n    return second(y, x) > 1\n"), 0),
    "any": (ctrl("if any(o.x > ego.x and o.y < 2 for o in others):\n    output.agent_mode = AgentMode.B", others="others"), 2),
    "all": (ctrl("if all(o.x > ego.x or o.y < 2 for o in others):\n    output.agent_mode = AgentMode.B\n    output.x = 0", others="others"), 2),
    "cars": (ctrl("if any(c.x > ego.x and c.agent_mode == AgentMode.B for c in cars):\n    output.agent_mode = AgentMode.B", others="cars"), 2),
    "anyif": (ctrl("if any(o.x > ego.x for o in others if o.y < 2) and not all(o.y > 0 for o in others if o.agent_mode == AgentMode.B):\n"
                   "    output.agent_mode = AgentMode.B", others="others"), 2),
    "anyhelper": (ctrl("if any(near(ego, o) for o in others):\n    output.agent_mode = AgentMode.C", others="others",
                       pre="def near(a, b):\n    return a.x - b.x < 2 and b.x - a.x < 2\n"), 2),
    "anymode": (ctrl("if ego.agent_mode == AgentMode.A and any(o.agent_mode == ego.agent_mode and o.x > 1 for o in others):\n    output.agent_mode = AgentMode.B",
                     others="others"), 1),
    "anynone": (ctrl("if any(o.x > ego.x for o in others):\n    output.agent_mode = AgentMode.B\nif all(o.x > ego.x for o in others):\n    output.y = 1",
                     others="others"), 0),
    "anylocal": (ctrl("lim = ego.y + 1\nif any(o.x - ego.x > lim for o in others):\n    output.agent_mode = AgentMode.B\n    output.x = lim", others="others"), 1),
    "assert": (ctrl("assert ego.x < 3, 'lim'\nif ego.y > 2:\n    output.agent_mode = AgentMode.B"), 0),
    "assert_if": (ctrl("if ego.y > 2:\n    assert ego.x < 3, 'lim'\n    output.agent_mode = AgentMode.B\nelse:\n    assert ego.x > -3, 'low'"), 0),
    "assert_seq": (ctrl("assert ego.x < 9, 'first'\nif ego.y > 2:\n    assert ego.x < 3, 'lim'\n    output.agent_mode = AgentMode.B\nelse:\n"
                        "    assert ego.x > -3, 'low'\nif ego.x > 0:\n    output.x = 0\nelse:\n    assert ego.y < 7, 'last'"), 0),
    "assert_nested": (ctrl("if ego.agent_mode == AgentMode.A:\n    if ego.y > 2:\n        assert ego.x < 3, 'lim'\n    elif ego.y > 0:\n"
                           "        assert ego.x < 6, 'lim2'\nassert ego.y < 10, 'y'"), 0),
    "assert_any": (ctrl("assert not any(o.x - ego.x < 1 and ego.x - o.x < 1 for o in others), 'close'\nif ego.y > 2:\n    output.agent_mode = AgentMode.B",
                        others="others"), 2),
    "assert_helper": (ctrl("assert ok(ego.x, 4), 'a'\nassert ok(ego.y, 6), 'b'", pre="def ok(v, k):\n    return v < k and v > -k\n"), 0),
    "assert_in_helper": (ctrl("if chk(ego.x) > 2:\n    output.agent_mode = AgentMode.B", pre="def chk(v):\n    assert v < 8, 'big'\n    return v + 1\n"), 0),
    "ifexp": (ctrl("if ego.x > 2:\n    output.y = 1 if ego.y > 0 else 2"), 0),
    "ifexp_local": (ctrl("d = ego.y - 1\nif ego.x > 2:\n    output.y = d if d > 0 else -d"), 0),
    "ifexp_guard": (ctrl("if (ego.x if ego.y > 0 else -ego.x) > 2:\n    output.agent_mode = AgentMode.B"), 0),
    "arith": (ctrl("if ego.x - (ego.y - 3) > 2*(ego.x + 1) - -ego.y:\n    output.x = ego.x - (ego.y - 3)\n    output.y = -(ego.x + ego.y)/4"), 0),
    "inner_helper": (ctrl("def twice(v):\n    return v*2\nif twice(ego.x) > 2:\n    output.agent_mode = AgentMode.B"), 0),
    "early": (controller("    output = copy.deepcopy(ego)\n    if ego.x > 2:\n        output.agent_mode = AgentMode.B\n        return output\n"
                         "    if ego.y > 2:\n        output.agent_mode = AgentMode.C\n    return output\n"), 0),
    "early_helper": (ctrl("if pos(ego.x) > 1:\n    output.agent_mode = AgentMode.B", pre="def pos(v):\n    if v > 5:\n        return 0\n    return v\n"), 0),
}
SIMONLY = {"ifexp_guard"}
REJECT = {"early", "early_helper"}


def body(ctx, prog, m, om=("A", "B")):
    src, n_others = CORPUS[prog]
    mod = pymodule(src)
    try:
        ego_ag = agent(src, "e")
    except NotImplementedError:
        ctx.check("assert", prog in REJECT)  # refused, not misread
        return
    ids = ["e"] + [f"o{i}" for i in range(n_others)]
    vals = {a: [ctx.real(f"{a}_{v}", -20, 20) for v in ("x", "y")] for a in ids}
    modes = {a: (m if a == "e" else om[i - 1],) for i, a in enumerate(ids)}
    agents = {a: ego_ag if a == "e" else PlainAgent(a) for a in ids}

    # the controller as ordinary Python
    def state(a):
        s = PyState(x=vals[a][0], y=vals[a][1], agent_mode=mod.AgentMode[modes[a][0]])
        s.__dict__["_log"] = []
        return s
    args = [state("e")]
    if n_others or len(ego_ag.decision_logic.args) > 1:
        args.append([state(a) for a in ids[1:]])
    failed, out = None, None
    try:
        out = mod.decisionLogic(*args)
    except AssertionError as e:
        failed = str(e)
    log = out._log if out is not None else []

    def value(k, v):
        return getattr(v, "name", v)

    # simulation
    sd = {a: ([0.0] + list(vals[a]), modes[a], []) for a in ids}
    sensor, lm = BaseSensor(), LaneMap()
    cont, disc, _ = sensor.sense(ego_ag, sd, lm)
    asserts, sat = SIM.check_sim_transitions(ego_ag, [(p, disc) for p in ego_ag.decision_logic.paths], cont, disc, lm, list(vals["e"]), modes["e"])
    ctx.check("assert", (failed is not None) == bool(asserts))
    if failed is not None:
        ctx.check("assert-label", failed in asserts)
    else:
        ctx.check("taken", bool(sat) == bool(log))
        final = {k: value(k, v) for k, v in log}
        hits = []
        for aid, dest, nxt, paths in sat:
            ctx.check("agent", aid == "e" and len(nxt) == 2)
            per = []
            for i, k in enumerate(("x", "y")):
                opts = [value(k, v) for kk, v in log if kk == k] or [vals["e"][i]]
                ctx.check(f"option-{k}", ctx.Or(*[ctx.eq(nxt[i], o) for o in opts]))
                per.append(ctx.eq(nxt[i], final.get(k, vals["e"][i])))
            opts = [value("m", v) for kk, v in log if kk == "agent_mode"] or [m]
            ctx.check("option-mode", dest[0] in opts)
            per.append(dest[0] == final.get("agent_mode", m))
            hits.append(ctx.And(*per))
        if log:
            ctx.check("final", ctx.Or(*hits))
    # verification on the set that holds just this state
    if prog in SIMONLY:
        return
    tr = {a: ctx.array([[0.0] + list(vals[a]), [0.1] + list(vals[a])]) for a in ids}
    va, vt = transitions(node(tr, modes, agents))
    if failed is not None:
        ctx.check("veri-assert", bool(va) and failed in va[0]["e"])
        ctx.check("veri-assert-same", bool(va) and sorted(map(str, va[0]["e"])) == sorted(map(str, asserts)))
        return
    ctx.check("veri-no-assert", not va)
    ctx.check("veri-taken", bool(vt) == bool(sat))

    def same(t, s):
        r = t[3][0]
        return ctx.And(*[ctx.And(ctx.le(r[0][i], s[2][i]), ctx.le(s[2][i], r[1][i])) for i in (0, 1)]) if tuple(t[2]) == tuple(s[1]) else False
    for s in sat:
        ctx.check("sim=>veri", ctx.Or(*[same(t, s) for t in vt]))
    for t in vt:
        # results with the same mode may be merged into one box, but its bounds are results
        ss = [s for s in sat if tuple(s[1]) == tuple(t[2])]
        for side in (0, 1):
            ctx.check("veri=>sim", ctx.And(*[ctx.Or(*[ctx.eq(t[3][0][side][i], s[2][i]) for s in ss]) for i in (0, 1)]))


# ---- textual rendering
ATOMS = ["x", "y", "2", "-3", "x*y"]
EXPRS = ["x - (y - z)", "x - y - z", "(x - y) - z", "x/(y/2)", "x/y/2" , "x*(y + z)", "x*y + z", "-(x + y)", "-x + y", "-(x*y)", "(-x)*y", "x - -y", "x + -(y - z)",
         "2*(x - 3)*(y + 1)", "x - (y + z)", "(x + y)/(z - 30)", "x - y*(z - x)", "not (x > y and y > z)", "not x > y", "(not x > y) and y > z",
         "not (x > y or y > z)", "x > y or y > z and z > 1", "(x > y or y > z) and z > 1", "x > y and (y > z or z > 1)", "not (not x > y or y > z)",
         "x < y < z", "(x > 1) == (y > 1)", "x if y > 1 else z", "(x if y > 1 else z) + 1", "x + (y if z > 1 else -y)", "(-3)*x", "x > y and not y > z or z > x",
         "x >= y", "x <= y", "x == y", "x != y", "x*-1", "(x + y)*-(z)", "x - (-(y))", "-(-x)", "1 - (2 - x)", "(x - 1)*(x - 1)", "3 - x*2 - (y - z*2)"]


def rendering(ctx, i):
    import ast as pyast
    from verse.parser.parser import unparse, compile_expr
    e = EXPRS[i]
    env = {k: ctx.real(k, -20, 20) for k in "xyz"}
    if "/y" in e or "(y/2)" in e:
        ctx.assume(ctx.Or(env["y"] > 1, env["y"] < -1))
    if "z - 30" in e:
        pass
    tree = pyast.parse(e, mode="eval").body
    text = unparse(tree)
    tree2 = pyast.parse(e, mode="eval").body
    want = eval(compile(e, "", "eval"), dict(env))
    got = eval(compile(text.strip(), "", "eval"), dict(env))
    comp = eval(compile_expr(tree2), dict(env))
    for lab, v in (("text", got), ("compiled", comp)):
        if isinstance(want, bool) or "Bool" in type(want).__name__ or "SB" in type(want).__name__:
            ctx.check(lab, ctx.Iff(v, want))
        else:
            ctx.check(lab, ctx.eq(v, want))


def cases(tier):
    cs = []
    for n, (src, k) in CORPUS.items():
        for m in "ABC":
            if m == "C" and n not in ("nested", "modes", "boolmix"):
                continue
            oms = [("A", "B")] if k < 1 or "mode" not in src.split("def decisionLogic")[1].split("in ")[0] else [("A", "B"), ("B", "B"), ("C", "A")]
            if n in ("cars", "anyif", "anymode"):
                oms = [("A", "B"), ("B", "B"), ("C", "A")]
            for om in oms:
                cs.append(Case(f"{n}-{m}" + ("".join(om) if k else ""), body, prog=n, m=m, om=om, must_reach=("assert",)))
    for i in range(len(EXPRS)):
        cs.append(Case(f"text-{i}", rendering, i=i, must_reach=("text",)))
    return cs
