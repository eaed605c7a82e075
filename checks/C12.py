"""C12: the caches return only results that are valid for the request, and stored results never change."""
from .common import *
from verse.analysis.incremental import ReachTubeCache, SimTraceCache, TubeCache

LEVEL = "model_checking"
BOUNDS = "histories of up to 4 stored results and 2 requests; initial states and boxes in 1-3 variables with arbitrary bounds, 2 agents, 3 modes, " \
         "horizons of 1-3 steps and 2 time steps, traces and tubes of arbitrary values; requests through the caches and through whole " \
         "simulations and verifications"
OUTSIDE = "star sets; requests answered with less than the tolerance (1e-6) missing are accepted as covered"
ASSUMPTIONS = ["floating point modelled as exact reals (candidates are replayed in floating point)"]
TOL = 1e-6 + 1e-9
T = 0.5


def boxvar(ctx, n, d, point=False):
    lo = [ctx.real(f"{n}lo{i}", -10, 10) for i in range(d)]
    hi = list(lo) if point else [ctx.real(f"{n}hi{i}", -10, 10) for i in range(d)]
    for p, q in zip(lo, hi):
        ctx.assume_le(p, q)
    return [lo, hi]


def covered(ctx, box, by):
    return ctx.And(*[ctx.And(p <= q + 1e-9, r <= s + TOL) for p, q, r, s in zip(by[0], box[0], box[1], by[1])])


def rows(ctx, n, steps, d, tube, T=T):
    out = []
    for j in range(steps):
        out.append([j * T] + [ctx.real(f"{n}r{j}l{i}", -50, 50) for i in range(d)])
        out.append([(j + 1) * T] + [ctx.real(f"{n}r{j}h{i}", -50, 50) for i in range(d)])
    if not tube:
        out = [[j * T] + [ctx.real(f"{n}r{j}v{i}", -50, 50) for i in range(d)] for j in range(steps + 1)]
    return out


def same_rows(ctx, a, b):
    return len(a) == len(b) and ctx.And(*[ctx.eq(p, q) for r, s in zip(a, b) for p, q in zip(r, s)])


def tube_case(ctx, stored, request, dims=1):
    """stored: [(agent, mode, steps, time step, point?)], request: (agent, mode, steps, time step, point?)"""
    c = TubeCache()
    ent = []
    for k, (a, m, n, dt, pt) in enumerate(stored):
        b, r = boxvar(ctx, f"s{k}", dims, pt), rows(ctx, f"s{k}", n, dims, True, dt)
        c.add_tube(a, m, [list(b[0]), list(b[1])], ctx.array([list(x) for x in r]), n * dt, dt)
        ent.append((a, m, n, dt, b, r))
    a, m, n, dt, pt = request
    q = boxvar(ctx, "q", dims, pt)
    for rnd in range(2):
        hit = c.check_hit(a, m, [list(q[0]), list(q[1])], n * dt, dt)
        if hit is None:
            ctx.check("miss", rnd == 0 or first is None)
            return
        first = hit
        got = hit.tube_for(n * dt)
        ok = [ctx.And(covered(ctx, q, b), same_rows(ctx, got, r[:2 * n])) for (sa, sm, sn, sdt, b, r) in ent
              if sa == a and tuple(sm) == tuple(m) and sdt == dt and sn >= n]
        ctx.check(f"valid-{rnd}", ctx.Or(*ok) if ok else False)
        # what the analysis does with a result must not reach the cache
        got[0, 1] = 99.0
        got[:, 0] += 7


def sim_case(ctx, stored, request, dims=1):
    """stored: [(agent, mode, steps, time step, start time)]"""
    c = SimTraceCache()
    ent = []
    ids = ("a1", "a2")
    for k, (a, m, n, dt, t0) in enumerate(stored):
        b, r = [ctx.real(f"s{k}v{i}", -10, 10) for i in range(dims)], rows(ctx, f"s{k}", n, dims, False, dt)
        init = {x: list(b) if x == a else [0.0] * dims for x in ids}
        nd = node({}, {x: m for x in ids}, {x: PlainAgent(x) for x in ids}, AnalysisTreeNodeType.SIM_TRACE, init=init, nid=k, start=t0)
        tr = ctx.array([[x[0] + t0] + x[1:] for x in r])
        c.add_segment(a, nd, [], tr, [], 0, 0, n * dt, dt)
        ent.append((a, m, n, dt, b, r))
    a, m, n, dt, t0 = request
    q = [ctx.real(f"qv{i}", -10, 10) for i in range(dims)]
    inits = {x: list(q) if x == a else [0.0] * dims for x in ids}
    for rnd in range(2):
        hit = c.check_hit(a, m, list(q), inits, n * dt, dt)
        if hit is None:
            ctx.check("miss", rnd == 0 or first is None)
            return
        first = hit
        got = hit.trace_for(n * dt, t0)
        ok = [ctx.And(*[ctx.And(x - y <= TOL, y - x <= TOL) for x, y in zip(q, b)],
                      same_rows(ctx, got, [[x[0] + t0] + x[1:] for x in r[:n + 1]]))
              for (sa, sm, sn, sdt, b, r) in ent if sa == a and tuple(sm) == tuple(m) and sdt == dt and sn >= n]
        ctx.check(f"valid-{rnd}", ctx.Or(*ok) if ok else False)
        got[0, 1] = 99.0
        got[:, 0] += 7


def trans_case(ctx, stored, request, dims=1):
    """stored: [(agent, mode)]: the sources of the transitions agree and the sets contain the requested one"""
    c = ReachTubeCache()
    ids, ent = ("a1", "a2"), []
    for k, (a, m) in enumerate(stored):
        b = boxvar(ctx, f"s{k}", dims)
        init = {x: [b] if x == a else [[[0.0] * dims, [0.0] * dims]] for x in ids}
        nd = node({}, {x: m for x in ids}, {x: PlainAgent(x) for x in ids}, init=init, nid=k)
        comb = {x: i[0] for x, i in init.items()}
        c.add_tube(a, comb, nd, ["a1"], [("a1", m, ("D%d" % k,), [b], [k], [])], k, 0)
        ent.append((a, m, b, k))
    a, m = request
    q = boxvar(ctx, "q", dims)
    inits = {x: [q] if x == a else [[[0.0] * dims, [0.0] * dims]] for x in ids}
    hit = c.check_hit(a, m, [list(q[0]), list(q[1])], inits)
    if hit is None:
        ctx.check("miss", True)
        return
    ok = []
    for (sa, sm, b, k) in ent:
        if sa == a and tuple(sm) == tuple(m) and (0, k) in hit.node_ids:
            tr = [t for t in hit.transitions]
            ok.append(ctx.And(covered(ctx, q, b), len(tr) == (1 if a == "a1" else 0), all(tuple(t.dest) == ("D%d" % k,) for t in tr)))
    ctx.check("valid", ctx.Or(*ok) if ok else False)


class SimRuns:
    """every call of TC_simulate returns an arbitrary trace from where it is asked to start"""

    def __init__(self, ctx):
        self.ctx, self.calls = ctx, []

    def give(self, ag):
        def TC_simulate(mode, init, horizon, step, lane_map=None):
            n = int(round(horizon / step))
            k = len(self.calls)
            r = [[0.0] + list(init)] + [[round(j * step, 10), self.ctx.real(f"c{k}_{j}", -20, 20)] for j in range(1, n + 1)]
            self.calls.append((ag.id, tuple(mode), r, step))
            return self.ctx.array([list(x) for x in r])
        ag.TC_simulate = TC_simulate
        return ag


CTRL = controller("    output = copy.deepcopy(ego)\n    if ego.agent_mode == AgentMode.A and ego.x > 2:\n"
                  "        output.agent_mode = AgentMode.B\n    return output\n", cont=("x",))


def runs_case(ctx, runs, ids=("a1",)):
    """runs: [(modes, steps, time step)] with arbitrary initial states: every trace of a node is one the agent returned for
    this mode and time step, from (up to the tolerance) this state; results of earlier runs stay as they were"""
    s = SIM.Simulator(config(incremental=True))
    st = SimRuns(ctx)
    agents = {a: st.give(agent(CTRL, a)) for a in ids}
    done = []
    for n, (modes, steps, dt) in enumerate(runs):
        init = {a: [ctx.real(f"{a}i{n}", -10, 10)] for a in ids}
        root = AnalysisTreeNode.root_from_inits({a: list(init[a]) for a in ids}, {a: (m,) for a, m in zip(ids, modes)}, {a: [] for a in ids},
                                                {a: [] for a in ids}, agents, 10, AnalysisTreeNodeType.SIM_TRACE)
        s.simulate(root, BaseSensor(), steps * dt, dt, 4, LaneMap(), n, [None] * n)
        todo = [root]
        while todo:
            nd = todo.pop()
            todo += nd.child
            if set(nd.trace) != set(ids):
                continue
            for a in ids:
                t = [list(r) for r in nd.trace[a]]
                if not len(t):
                    continue
                ok = []
                for (b, m, r, h) in st.calls:
                    if b != a or m != tuple(nd.mode[a]) or h != dt:
                        continue
                    # inherited traces start inside a returned one
                    for o in range(len(r) - len(t) + 1):
                        ok.append(ctx.And(*[ctx.And(*[ctx.eq(x, y) for x, y in zip(p[1:], q[1:])]) for p, q in zip(t, r[o:])],
                                          *([ctx.And(nd.init[a][0] - r[0][1] <= TOL, r[0][1] - nd.init[a][0] <= TOL)] if o == 0 else [])))
                ctx.check("trace", ctx.Or(*ok) if ok else False)
                ctx.check("times", ctx.And(*[ctx.eq(r[0], nd.start_time + j * dt) for j, r in enumerate(t)]))
                if nd is root:
                    ctx.check("length", 1 <= len(t) <= steps + 1)
                    if not nd.child:
                        ctx.check("length", len(t) == steps + 1)
                done.append((nd, a, t))
        for nd, a, t in done:
            ctx.check("earlier results", same_rows(ctx, nd.trace[a], t))


def cases(tier):
    cs = []
    A, B, C_ = ("A",), ("B",), ("A", "T0")
    a = "a1"

    def tube(name, stored, request, dims=1):
        cs.append(Case("tube-" + name, tube_case, stored=stored, request=request, dims=dims))

    def sim(name, stored, request, dims=1):
        cs.append(Case("sim-" + name, sim_case, stored=stored, request=request, dims=dims))
    for d in (1, 2):
        tube(f"one-{d}", [(a, A, 2, T, False)], (a, A, 2, T, False), d)
        tube(f"two-{d}", [(a, A, 2, T, False), (a, A, 2, T, False)], (a, A, 2, T, False), d)
        sim(f"one-{d}", [(a, A, 2, T, 0.0)], (a, A, 2, T, 0.0), d)
        sim(f"two-{d}", [(a, A, 2, T, 0.0), (a, A, 2, T, 1.0)], (a, A, 2, T, 2.0), d)
    tube("one-3", [(a, A, 1, T, False)], (a, A, 1, T, False), 3)
    sim("one-3", [(a, A, 1, T, 0.0)], (a, A, 1, T, 0.5), 3)
    tube("three", [(a, A, 1, T, False)] * 3, (a, A, 1, T, False), 1)
    sim("three", [(a, A, 1, T, 0.0)] * 3, (a, A, 1, T, 0.0), 1)
    tube("points", [(a, A, 2, T, True), (a, A, 1, T, False)], (a, A, 1, T, True), 1)
    tube("point-request", [(a, A, 2, T, False)], (a, A, 2, T, True), 2)
    for q in (A, B, C_):
        tube(f"modes-{len(q)}{q[0]}", [(a, A, 1, T, False), (a, B, 1, T, False), (a, C_, 1, T, False)], (a, q, 1, T, False))
        sim(f"modes-{len(q)}{q[0]}", [(a, A, 1, T, 0.0), (a, B, 1, T, 0.0), (a, C_, 1, T, 0.0)], (a, q, 1, T, 0.0))
        cs.append(Case(f"trans-modes-{len(q)}{q[0]}", trans_case, stored=[(a, A), (a, B), (a, C_)], request=(a, q)))
    for q in ("a1", "a2"):
        tube(f"agents-{q}", [("a1", A, 1, T, False), ("a2", A, 1, T, False)], (q, A, 1, T, False))
        sim(f"agents-{q}", [("a1", A, 1, T, 0.0), ("a2", A, 1, T, 0.0)], (q, A, 1, T, 0.0))
        cs.append(Case(f"trans-agents-{q}", trans_case, stored=[("a1", A), ("a2", A)], request=(q, A)))
    for n in (1, 2, 3):
        for dt in (T, 0.25):
            tube(f"horizon{n}-{dt}", [(a, A, 2, T, False), (a, A, 1, T, False), (a, A, 2, 0.25, False)], (a, A, n, dt, False))
            sim(f"horizon{n}-{dt}", [(a, A, 2, T, 0.0), (a, A, 1, T, 1.0), (a, A, 2, 0.25, 0.0)], (a, A, n, dt, 0.5))
    for d in (1, 2):
        cs.append(Case(f"trans-two-{d}", trans_case, stored=[(a, A), (a, A)], request=(a, A), dims=d))
    cs.append(Case("runs-two", runs_case, runs=[("A", 2, T), ("A", 2, T)]))
    cs.append(Case("runs-shorter", runs_case, runs=[("A", 2, T), ("A", 1, T)]))
    cs.append(Case("runs-longer", runs_case, runs=[("A", 1, T), ("A", 2, T)]))
    cs.append(Case("runs-step", runs_case, runs=[("A", 2, T), ("A", 2, 0.25)]))
    cs.append(Case("runs-mode", runs_case, runs=[("A", 1, T), ("B", 2, T)]))
    cs.append(Case("runs-agents", runs_case, runs=[("AB", 1, T), ("BA", 1, T)], ids=("a1", "a2")))
    if tier == "thorough":
        tube("points-2", [(a, A, 2, T, True), (a, A, 1, T, False)], (a, A, 1, T, True), 2)
        tube("four-2", [(a, A, 1, T, False)] * 4, (a, A, 1, T, False), 2)
        sim("four-2", [(a, A, 1, T, 0.0)] * 4, (a, A, 1, T, 0.0), 2)
        tube("three-3", [(a, A, 1, T, False)] * 3, (a, A, 1, T, False), 3)
        cs.append(Case("runs-three", runs_case, runs=[("A", 2, T), ("A", 1, T), ("A", 2, T)]))
        cs.append(Case("runs-agents-3", runs_case, runs=[("AB", 1, T), ("AA", 1, T), ("BA", 2, T)], ids=("a1", "a2")))
    return cs
