"""C08: a simulation follows the controllers: node ends at the first step some controller changes its agent, children are
exactly the combinations of the changes, starting there; everything else carries over."""
from .simlib import *

LEVEL = "model_checking"
BOUNDS = "1-2 agents, controllers in CTRL, horizons of 2-3 time steps, arbitrary real states in [-20,20] at every step " \
         "(any continuous behaviour), tree height up to 4"
OUTSIDE = "controllers that re-assign the value a mode already has (self transitions); longer horizons; parallel (ray) execution"
ASSUMPTIONS = ["TC_simulate returns any trace that starts at the given state with the requested time stamps (agents: C22)",
               "floating point modelled as exact reals (candidates are replayed in floating point)"]


def close(ctx, a, b):
    return ctx.eq(a, b)


def body(ctx, ctrls, steps, modes, simple=False, height=None, rev=False, unchecked=(), in_map=False):
    ids = [f"a{i+1}" for i in range(len(ctrls))]
    stub = Stub(ctx)
    agents = {}
    for a, c in zip(ids, ctrls):
        agents[a] = stub.install(agent(controller(CTRL[c][0], others=CTRL[c][1]), a) if c else PlainAgent(a))
    inits = {a: [ctx.real(f"{a}_init_{v}", -20, 20) for v in XY] for a in ids}
    order = ids[::-1] if rev else ids
    root = sim_root(order, inits, {a: (m,) for a, m in zip(ids, modes)}, agents)
    sim = SIM.Simulator(config())
    T = 0.5
    horizon = steps * T
    if simple:
        tree = sim.simulate_simple(root, horizon, T, height, LaneMap(), BaseSensor(), 0, [])
    else:
        tree = sim.simulate(root, BaseSensor(), horizon, T, height, other_map() if in_map else LaneMap(), 0, [])
    check_tree(ctx, tree, root, ids, ctrls, inits, modes, T, horizon, height, stub)


def check_tree(ctx, tree, root, ids, ctrls, inits, modes, T, horizon, height, stub):
    ctx.check("root", tree.root is root and all(tuple(root.mode[a]) == (m,) for a, m in zip(ids, modes)))
    calls = {}
    for c in stub.calls:
        calls.setdefault(c[0], []).append(c)

    def state(n, a, j):
        r = n.trace[a][j]
        return St(n.mode[a][0], x=r[1], y=r[2])

    def res(n, j):
        out = {}
        for a, c in zip(ids, ctrls):
            if c:
                r = outcomes(c, state(n, a, j), [state(n, b, j) for b in ids if b != a])
                if r:
                    out[a] = r
        return out

    # the root starts where it should
    for a in ids:
        if len(root.trace):
            ctx.check("starts at init", ctx.And(*[close(ctx, root.trace[a][0][i + 1], inits[a][i]) for i in range(2)]))
    todo = [(root, 0)]
    maxh = float("inf") if height is None else height
    while todo:
        n, k = todo.pop(0)  # k: steps elapsed at the start of the node
        left = round(horizon / T) - k
        if n.height >= maxh - 1 or left <= 0:
            ctx.check("leaf at the limit", n.child == [])
            continue
        L = {len(n.trace[a]) for a in ids}
        ctx.check("same length", len(L) == 1)
        L = L.pop()
        ctx.check("within horizon", 1 <= L <= left + 1)
        for a in ids:
            for j in range(L):
                ctx.check("time stamps", ctx.eq(n.trace[a][j][0], (k + j) * T))
        ctx.check("start time", ctx.eq(n.start_time, k * T))
        for j in range(L - 1):
            ctx.check("no change before the end", not res(n, j))
        ch = res(n, L - 1)
        if not n.child:
            ctx.check("leaf has no change", not ch)
            ctx.check("leaf reaches the horizon", L == left + 1)
            continue
        want = []
        agents = list(ch)
        ctx.check("children only at a change", len(ch) > 0)
        for combo in itertools.product(*[ch[a] for a in agents]):
            d = dict(zip(agents, combo))
            want.append({a: d.get(a, (n.mode[a][0], n.trace[a][L - 1][1], n.trace[a][L - 1][2])) for a in ids})

        def same(c, w):
            if any(tuple(c.mode[a]) != (w[a][0],) for a in ids):
                return False
            return ctx.And(*[ctx.And(close(ctx, c.init[a][0], w[a][1]), close(ctx, c.init[a][1], w[a][2])) for a in ids])
        for w in want:
            ctx.check("change has a child", ctx.Or(*[same(c, w) for c in n.child]))
        for c in n.child:
            ctx.check("child is a change", ctx.Or(*[same(c, w) for w in want]))
            ctx.check("child height", c.height == n.height + 1)
            for a in ids:
                if c.height < maxh - 1 and left - (L - 1) > 0:
                    ctx.check("child trace starts at its init", ctx.And(*[close(ctx, c.trace[a][0][i + 1], c.init[a][i]) for i in range(2)]))
            todo.append((c, k + L - 1))
        ctx.check("no more children than changes", len(n.child) <= len(want))
    # every simulated trace is used as returned: rows of nodes come from a call for that agent with the node's mode
    for n in all_nodes(root):
        for a in ids:
            if a not in n.trace or not len(n.trace[a]):
                continue
            rows = n.trace[a]
            ok = []
            for (_, m, r, hz) in calls.get(a, []):
                if m != tuple(n.mode[a]):
                    continue
                for s in range(len(r) - len(rows) + 1):
                    ok.append(ctx.And(*[ctx.And(close(ctx, rows[j][1], r[s + j][1]), close(ctx, rows[j][2], r[s + j][2]))
                                        for j in range(len(rows))]))
            ctx.check("trace is the agent's", ctx.Or(*ok))


def cases(tier):
    out = []
    S = 2 if tier == "quick" else 3
    for c in CTRL:
        if c in ("others", "othermode", "idle"):
            continue
        for m in ("A", "B") if c in ("simple", "reset") else ("A",):
            out.append(Case(f"{c}-{m}", body, ctrls=(c,), steps=S, modes=(m,), height=4))
    out.append(Case("simple-3", body, ctrls=("simple",), steps=3, modes=("A",), height=4))
    out.append(Case("reset-3", body, ctrls=("reset",), steps=3, modes=("A",), height=4))
    out.append(Case("simple-in-map", body, ctrls=("simple",), steps=2, modes=("A",), height=4, in_map=True))
    out.append(Case("simple-h2", body, ctrls=("simple",), steps=2, modes=("A",), height=2))
    out.append(Case("simple-h1", body, ctrls=("simple",), steps=2, modes=("A",), height=1))
    two = [("others", ""), ("others", "others"), ("simple", "simple"), ("nondet", "samedest"), ("othermode", "simple"), ("simple", "idle")]
    for p in two:
        out.append(Case("+".join(x or "none" for x in p), body, ctrls=p, steps=1 if p == ("nondet", "samedest") else S - 1, modes=("A", "A"), height=3))
    out.append(Case("others+none-rev", body, ctrls=("others", ""), steps=1, modes=("A", "B"), height=3, rev=True))
    out.append(Case("othermode+simple-B", body, ctrls=("othermode", "simple"), steps=1, modes=("A", "B"), height=3, rev=True))
    out.append(Case("three", body, ctrls=("others", "", "idle"), steps=1, modes=("A", "A", "C"), height=3))
    for p, m in ((("simple",), ("A",)), (("reset",), ("A",)), (("others", ""), ("A", "A")), (("othermode", "simple"), ("A", "A"))):
        out.append(Case("simple_sim-" + "+".join(x or "none" for x in p), body, ctrls=p, steps=2 if len(p) == 1 else 1, modes=m, simple=True, height=3))
    return out
