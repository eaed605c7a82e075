"""C09: a simulation reports an assertion of an agent exactly when it is false at a simulated state, and the branch stops there."""
from .simlib import *

LEVEL = "model_checking"
BOUNDS = "1-2 agents, assertion shapes in ASRT (with and without transitions, under conditions, over others), traces of 3 states " \
         "with arbitrary real values in [-20,20]"
OUTSIDE = "longer traces, more agents; after a violation in unsafe_continue mode"
ASSUMPTIONS = ["TC_simulate returns any trace that starts at the given state (agents: C22)",
               "floating point modelled as exact reals (candidates are replayed in floating point)"]

# name -> (body, others, violated(ego, others) -> [labels, in order], changes(ego, others) -> bool)
ASRT = {
    "only": (HD + "    assert ego.x < 3, 'lim'\n    return output\n", None,
             lambda e, o: [] if e.x < 3 else ["lim"], lambda e, o: False),
    "two": (HD + "    assert ego.x < 3, 'lim'\n    assert ego.y > -2, 'low'\n    return output\n", None,
            lambda e, o: ([] if e.x < 3 else ["lim"]) + ([] if e.y > -2 else ["low"]), lambda e, o: False),
    "under": (HD + "    if ego.y > 1:\n        assert ego.x < 3, 'lim'\n    return output\n", None,
              lambda e, o: ["lim"] if e.y > 1 and not e.x < 3 else [], lambda e, o: False),
    "trans": (HD + "    if ego.agent_mode == AgentMode.A and ego.y > 1:\n        output.agent_mode = AgentMode.B\n"
              "    assert ego.x < 3, 'lim'\n    return output\n", None,
              lambda e, o: [] if e.x < 3 else ["lim"], lambda e, o: e.mode == "A" and bool(e.y > 1)),
    "mode": (HD + "    if ego.agent_mode == AgentMode.A and ego.y > 1:\n        output.agent_mode = AgentMode.B\n"
             "    if ego.agent_mode == AgentMode.B:\n        assert ego.x < 3, 'inB'\n    return output\n", None,
             lambda e, o: ["inB"] if e.mode == "B" and not e.x < 3 else [], lambda e, o: e.mode == "A" and bool(e.y > 1)),
    "others": (HD + "    assert not any(ego.x - o.x < 1 and o.x - ego.x < 1 for o in others), 'close'\n    return output\n", "others",
               lambda e, o: ["close"] if any(bool(e.x - p.x < 1) and bool(p.x - e.x < 1) for p in o) else [], lambda e, o: False),
    "allothers": (HD + "    assert all(o.x > ego.x for o in others if o.y > 0), 'order'\n"
                  "    if ego.agent_mode == AgentMode.A and ego.y > 5:\n        output.agent_mode = AgentMode.B\n    return output\n", "others",
                  lambda e, o: [] if all(not bool(p.y > 0) or bool(p.x > e.x) for p in o) else ["order"],
                  lambda e, o: e.mode == "A" and bool(e.y > 5)),
    "nomsg": (HD + "    assert ego.x < 3\n    return output\n", None,
              lambda e, o: [] if e.x < 3 else [None], lambda e, o: False),
    "idle": (HD + "    if ego.agent_mode == AgentMode.A and ego.y > 1:\n        output.agent_mode = AgentMode.B\n    return output\n", None,
             lambda e, o: [], lambda e, o: e.mode == "A" and bool(e.y > 1)),
}


def body(ctx, ctrls, steps, simple=False, rev=False, unsafe_continue=False):
    ids = [f"a{i+1}" for i in range(len(ctrls))]
    stub = Stub(ctx)
    agents = {a: stub.install(agent(controller(ASRT[c][0], others=ASRT[c][1]), a) if c else PlainAgent(a))
              for a, c in zip(ids, ctrls)}
    inits = {a: [ctx.real(f"{a}_init_{v}", -20, 20) for v in XY] for a in ids}
    root = sim_root(ids[::-1] if rev else ids, inits, {a: "A" for a in ids}, agents)
    sim = SIM.Simulator(config(unsafe_continue=unsafe_continue))
    T = 0.5
    if simple:
        sim.simulate_simple(root, steps * T, T, 3, LaneMap(), BaseSensor(), 0, [])
    else:
        sim.simulate(root, BaseSensor(), steps * T, T, 3, LaneMap(), 0, [])

    full = {}
    for (a, m, rows, hz) in stub.calls:
        full.setdefault(a, []).append(rows)

    def state(n, a, j):
        r = n.trace[a][j]
        return St(n.mode[a][0], x=r[1], y=r[2])

    def bad(n, j):
        out = {}
        for a, c in zip(ids, ctrls):
            if c:
                v = ASRT[c][2](state(n, a, j), [state(n, b, j) for b in ids if b != a])
                if v:
                    out[a] = v
        return out

    def change(n, j):
        return any(c and ASRT[c][3](state(n, a, j), [state(n, b, j) for b in ids if b != a]) for a, c in zip(ids, ctrls))

    for n in all_nodes(root):
        if not n.trace or not all(len(n.trace.get(a, ())) for a in ids) or n.height >= 2:
            continue
        L = len(n.trace[ids[0]])
        if L > 1 or n.child or n.assert_hits:
            pass
        if round(n.start_time / T) >= steps:
            continue  # a node at the horizon is not analysed
        last = L - 1
        hits = n.assert_hits
        if unsafe_continue and hits:
            firstbad = [j for j in range(L) if bad(n, j)]
            ctx.check("violation is real", len(firstbad) > 0)
            ctx.check("no continuation", n.child == [])
            want = bad(n, firstbad[0]) if firstbad else {}
        else:
            for j in range(last):
                ctx.check("nothing violated before the end", not bad(n, j))
            want = bad(n, last)
        got = {a: ([v] if isinstance(v, str) else list(v)) for a, v in (hits or {}).items() if v}
        ctx.check("reported iff violated", set(got) == set(want))
        for a in want:
            w, g = want[a], got.get(a, [])
            if simple:
                w = w[:1]
            ctx.check("labels", len(w) == len(g) and all(x is None or x == y for x, y in zip(w, g)))
        if want:
            ctx.check("branch stops", n.child == [])
            ctx.check("traces cut together", all(len(n.trace[a]) == L for a in ids))
        elif n.child:
            ctx.check("children at a change", change(n, last))


def cases(tier):
    out = []
    S = 2 if tier == "quick" else 3
    for c in ASRT:
        if c == "idle":
            continue
        cs = (c, "") if ASRT[c][1] else (c,)
        out.append(Case(c, body, ctrls=cs, steps=S))
        out.append(Case(c + "-simple", body, ctrls=cs, steps=S, simple=True))
    out.append(Case("only-continue", body, ctrls=("only",), steps=S, unsafe_continue=True))
    for p in (("only", "idle"), ("trans", "idle"), ("idle", "only"), ("others", "others"), ("under", "trans")):
        out.append(Case("+".join(p), body, ctrls=p, steps=1))
        out.append(Case("+".join(p) + "-rev", body, ctrls=p, steps=1, rev=True))
        if p != ("others", "others"):
            out.append(Case("+".join(p) + "-simple", body, ctrls=p, steps=1, simple=True))
    return out
