"""C20: scenario set-up hands the user's initial sets, modes and parameters to the analyses unchanged; samples lie in the initial set."""
from enum import Enum, auto
from .common import *
from verse.utils.utils import sample_rect
from verse.scenario import scenario as SC
from verse.analysis import verifier as VM

LEVEL = "model_checking"
BOUNDS = "1-3 agents, 1-3 variables, all real bounds in [-50,50], initial sets given as a point or as bounds, through add_agent, set_init or set_init_single, with and " \
         "without controllers, static and uncertain parameters; every malformed combination of lengths up to 3; simulate, simulate_multi, simulate_simple, verify, verify_partitioned"
OUTSIDE = "the pseudo-random generator (a draw is any value of the closed range); inverted bounds (the library accepts them); star sets; parallel execution"
ASSUMPTIONS = ["numpy.random.uniform(l, h) returns a value of [l, h]"]
HD = "    output = copy.deepcopy(ego)\n    if ego.%s > 2:\n        output.agent_mode = AgentMode.B\n    return output\n"


class AgentMode(Enum):
    A = auto()
    B = auto()
    C = auto()


class Kind(Enum):
    Vehicle = auto()
    Ped = auto()


def mk(aid, cont, ctrl=True):
    return agent(controller(HD % cont[0], cont=cont), aid) if ctrl else PlainAgent(aid)


def box(ctx, tag, n, point=False):
    lo = [ctx.real(f"{tag}l{i}", -50, 50) for i in range(n)]
    if point:
        return [lo]
    hi = [ctx.real(f"{tag}u{i}", -50, 50) for i in range(n)]
    for l, h in zip(lo, hi):
        ctx.assume_le(l, h)
    return [lo, hi]


def sample(ctx, n, seed):
    r = box(ctx, "b", n)
    p = sample_rect([list(r[0]), list(r[1])], seed)
    ctx.check("dim", len(p) == n)
    for v, l, h in zip(p, *r):
        ctx.check("inside", ctx.And(ctx.le(l, v, 1e-6), ctx.le(v, h, 1e-6)))


def eqb(ctx, got, want):
    got = [list(g) for g in got]
    return len(got) == len(want) and ctx.And(True, *[len(g) == len(w) and ctx.And(True, *[ctx.exact(a, b) for a, b in zip(g, w)]) for g, w in zip(got, want)])


def setup(ctx, ways, dims, ctrl, point, enum=True, static=False, names=None, reconf=False):
    """a scenario with agents whose initial sets are given in the stated ways; returns it and what the user gave"""
    sc = Scenario(config())
    given, late = {}, []
    for i, (w, n) in enumerate(zip(ways, dims)):
        a = names[i] if names else f"a{i}"
        if w == "again":  # an agent of the same name was there before
            old = mk(a, ("x", "y", "z")[:n], ctrl)
            old.set_initial([[3.0] * n, [4.0] * n], (AgentMode.C,), [Kind.Ped], [[0.5]])
            sc.add_agent(old)
        ag = mk(a, ("x", "y", "z")[:n], ctrl)
        b = box(ctx, a, n, point)
        m = "ABC"[i]
        md = ((AgentMode[m],) if enum else (m,)) if ctrl or enum else (m,)
        st = [Kind.Vehicle] if static and i % 2 == 0 else []
        un = [[ctx.real(f"{a}un", 0, 1)]] if static and i == 0 else []
        given[a] = (b if len(b) == 2 else [b[0], b[0]], (m,), [s.name for s in st], un)
        cp = [list(v) for v in b]
        if w in ("before", "again"):
            ag.set_initial(cp, md, st, un)
            sc.add_agent(ag)
        elif w == "ctor":
            ag.init_cont, ag.init_disc = cp, md
            if st:
                ag.static_parameters = st
            if un:
                ag.uncertain_parameters = un
            sc.add_agent(ag)
        else:
            if w == "override":
                ag.set_initial([[1.0] * n, [2.0] * n], (AgentMode.C,), [Kind.Ped], [])
            sc.add_agent(ag)
            late.append((w, a, ag, cp, md, st, un))
    if late and all(w == "all" for w, *_ in late) and len(late) == len(ways):
        sc.set_init([l[3] for l in late], [l[4] for l in late], [l[5] for l in late], [l[6] for l in late])
    else:
        for w, a, ag, cp, md, st, un in late[::-1]:
            if w == "after":
                ag.set_initial(cp, md, st, un)
            else:
                sc.set_init_single(a, cp, md, st, un)
    if reconf:
        sc.update_config(config(init_seg_length=17, reachability_method=ReachabilityMethod.MIXMONO_CONT))
    return sc, given


def analyses(ctx, ways, dims, ctrl=True, point=False, enum=True, static=False, kinds=("simulate", "verify"), names=None, reconf=False):
    sc, given = setup(ctx, ways, dims, ctrl, point, enum, static, names, reconf)
    ids = list(given)
    if reconf:
        ctx.check("args", sc.config.init_seg_length == 17 and sc.verifier.config is sc.config and sc.simulator.config is sc.config)
    rec = []

    def stub(kind):
        def f(self, root, *args):
            rec.append((kind, root, args, len(sc.past_runs)))
            return root
        return f
    ctx.patch(SC.Simulator, "simulate", stub("simulate"))
    ctx.patch(SC.Simulator, "simulate_simple", stub("simple"))
    ctx.patch(SC.Verifier, "compute_full_reachtube", stub("verify"))
    ctx.patch(SC.Verifier, "compute_full_reachtube_partitioned", stub("part"))
    ctx.patch(SC, "print", lambda *a, **k: None)
    hz, st = 3.5, 0.25
    for k in kinds:
        n0 = len(rec)
        runs0 = len(sc.past_runs)
        if k == "simulate":
            out = sc.simulate(hz, st, 7, 3)
        elif k == "multi":
            out = sc.simulate_multi(hz, st, None, 7, None, 2)
        elif k == "multi_given":
            pts = [{a: [ctx.real(f"{k}{i}{a}{j}", -9, 9) for j in range(d)] for a, d in zip(ids, dims)} for i in range(2)]
            out = sc.simulate_multi(hz, st, [{a: list(v) for a, v in p.items()} for p in pts], 7)
        elif k == "simple":
            out = sc.simulate_simple(hz, st, 7)
        elif k == "verify":
            out = sc.verify(hz, st, 7, {"p": 1})
        else:
            out = sc.verify_partitioned(hz, st, 2, 7, True, [1], {"p": 1})
        new = rec[n0:]
        ctx.check("runs", len(new) == (2 if "multi" in k else 1) and len(sc.past_runs) == runs0 + len(new))
        ctx.check("runs", (out if "multi" in k else [out]) == [r[1] for r in new] and sc.past_runs[runs0:] == [r[1] for r in new])
        for i, (kk, root, args, nruns) in enumerate(new):
            off = 0 if kk == "simple" else 1
            ctx.check("args", args[off:off + 3] == (hz, st, 7) and any(x is sc.map for x in args) and any(x is sc.sensor for x in args))
            ctx.check("args", any(x is sc.past_runs for x in args))
            if kk in ("verify", "part"):
                ctx.check("args", sc.config.init_seg_length in args and sc.config.reachability_method in args and {"p": 1} in args)
            ctx.check("agents", list(root.agent) == ids and set(root.init) == set(ids))
            for a in ids:
                b, m, s, u = given[a]
                ctx.check("mode", tuple(root.mode[a]) == m)
                ctx.check("static", list(root.static[a]) == s and eqb(ctx, root.uncertain_param[a], u))
                if kk in ("verify", "part"):
                    ctx.check("init", len(root.init[a]) == 1 and eqb(ctx, root.init[a][0], b))
                elif k == "multi_given":
                    ctx.check("init", eqb(ctx, [root.init[a]], [pts[i][a]]))
                else:
                    ctx.check("init", len(root.init[a]) == len(b[0]) and ctx.And(*[ctx.And(ctx.le(l, v, 1e-6), ctx.le(v, h, 1e-6))
                                                                                    for v, l, h in zip(root.init[a], *b)]))
            ctx.check("root", root.start_time == 0 and root.child == [] and root.height == 0 and root.id == 0)


def unchanged(ctx, kind):
    """an analysis leaves the scenario's set-up as it is, and trees of earlier runs too"""
    sc, given = setup(ctx, ["before", "single"], [2, 2], True, False)
    ctx.patch(VM, "print", lambda *a, **k: None)
    ids = list(given)
    for a in ids:
        def TC(mode, init, horizon, step, lane_map=None):
            n = int(round(horizon / step))
            return ctx.array([[round(j * step, 10)] + [v + j for v in init] for j in range(n + 1)])
        sc.agent_dict[a].TC_simulate = TC

    def tube(mode, rect, horizon, step, sim, *rest, **k):
        rows = []
        for j in range(int(round(horizon / step))):
            rows += [[j * step] + [v + j for v in rect[0]], [(j + 1) * step] + [v + j + 1 for v in rect[1]]]
        return ctx.array(rows)
    ctx.patch(VM, "calc_bloated_tube", tube)
    run = {"verify": lambda: sc.verify(1.0, 0.5, 2), "simulate": lambda: sc.simulate(1.0, 0.5, 2)}[kind]
    t1 = run()
    snap = [[float(x) if not hasattr(x, "z") else x for x in r] for r in t1.root.trace[ids[0]]]
    run()
    for a in ids:
        ctx.check("init", eqb(ctx, sc.init_dict[a], given[a][0]))
        ctx.check("mode", tuple(getattr(m, "name", m) for m in sc.init_mode_dict[a]) == given[a][1])
    ctx.check("earlier", eqb(ctx, t1.root.trace[ids[0]], snap))
    if kind == "verify":
        for a in ids:
            ctx.check("earlier", eqb(ctx, t1.root.init[a][0], given[a][0]))


def shapes(ctx, ctrl):
    """malformed initial sets are refused, well-formed ones accepted"""
    n = ctx.choice("vectors", 4)
    lens = [ctx.choice(f"len{i}", 4) for i in range(n)]
    nm = ctx.choice("modes", 3)
    who = ctx.choice("who", 2)
    sc = Scenario(config())
    sc.add_agent(mk("a", ("x", "y"), ctrl))
    v = ctx.real("v", -5, 5)
    legal = who == 0 and n in (1, 2) and (not ctrl or all(k == 2 for k in lens) and nm == 1)
    try:
        sc.set_init_single(["a", "b"][who], [[v] * k for k in lens], tuple([AgentMode.A] * nm))
        ok = True
    except AssertionError:
        ok = False
    ctx.check("legal", ok == legal)
    if not ok:
        ctx.check("refused", sc.init_dict == {} and sc.init_mode_dict == {})


def counts(ctx):
    """set_init needs one entry per agent"""
    sc = Scenario(config())
    for a in ("a", "b"):
        sc.add_agent(mk(a, ("x",)))
    ctx.patch(SC, "print", lambda *a, **k: None)
    v = ctx.real("v", -5, 5)
    n, m, s, u = [ctx.choice(k, 4) for k in "nmsu"]
    try:
        sc.set_init([[[v]]] * n, [(AgentMode.A,)] * m, [[]] * s, [[]] * u)
        ok = True
    except AssertionError:
        ok = False
    ctx.check("legal", ok == (n == 2 and m == 2 and s in (0, 2) and u in (0, 2)))


def missing(ctx, kind):
    """an agent without initial set is refused, not analysed from something else"""
    sc = Scenario(config())
    sc.add_agent(mk("a", ("x",)))
    v = ctx.real("v", -5, 5)
    ag = mk("b", ("x",))
    ag.set_initial([[v], [v]], (AgentMode.A,))
    sc.add_agent(ag)
    try:
        sc.verify(1.0, 0.5) if kind == "verify" else sc.simulate(1.0, 0.5) if kind == "simulate" else sc.simulate_simple(1.0, 0.5)
        ok = True
    except AssertionError:
        ok = False
    ctx.check("legal", not ok)


def cases(tier):
    out = []
    for n in (1, 2, 3):
        for seed in (None, 5):
            out.append(Case(f"sample-{n}-{seed}", sample, n=n, seed=seed, must_reach=("inside", "dim"), conc_validate=False) if False else
                       Case(f"sample-{n}-{seed}", sample, n=n, seed=seed, must_reach=("inside", "dim")))
    every = ("simulate", "multi", "multi_given", "simple", "verify", "part")
    reach = ("runs", "args", "agents", "mode", "static", "init", "root")
    for ways, dims in ((["before"], [2]), (["ctor"], [1]), (["single"], [2]), (["all", "all"], [1, 2]), (["before", "single", "ctor"], [1, 2, 3]),
                       (["override", "before"], [2, 1]), (["all", "all", "all"], [2, 2, 2])):
        for point in (False, True):
            for static in (False, True):
                out.append(Case(f"{'-'.join(ways)}-{'pt' if point else 'box'}{'-st' if static else ''}", analyses, ways=ways, dims=dims, point=point, static=static,
                                kinds=every, must_reach=reach))
    for ways, dims, names in ((["again"], [2], None), (["all", "all"], [2, 2], ["b", "a"]), (["all", "all", "all"], [1, 2, 1], ["car9", "Car10", "b"]),
                              (["before", "again", "single"], [1, 2, 2], ["z", "y", "x"])):
        out.append(Case("-".join(names or ["again"]), analyses, ways=ways, dims=dims, static=True, names=names, kinds=every, must_reach=reach))
    out.append(Case("reconf", analyses, ways=["before", "single"], dims=[2, 1], reconf=True, kinds=every, must_reach=reach))
    out.append(Case("noctrl", analyses, ways=["before", "single"], dims=[2, 3], ctrl=False, kinds=every, must_reach=reach))
    out.append(Case("strings", analyses, ways=["before", "single"], dims=[2, 1], enum=False, kinds=every, must_reach=reach))
    out.append(Case("after", analyses, ways=["after", "before"], dims=[2, 1], kinds=("simulate", "verify", "simple"), must_reach=reach))
    out.append(Case("after-multi", analyses, ways=["after"], dims=[2], kinds=("multi",), must_reach=reach))
    for k in ("verify", "simulate"):
        out.append(Case(f"unchanged-{k}", unchanged, kind=k, must_reach=("init", "mode", "earlier")))
    for c in (True, False):
        out.append(Case(f"shapes-{c}", shapes, ctrl=c, must_reach=("legal", "refused")))
    out.append(Case("counts", counts, must_reach=("legal",)))
    for k in ("verify", "simulate", "simple"):
        out.append(Case(f"missing-{k}", missing, kind=k, must_reach=("legal",)))
    return out
