"""C14: tree containment/equality is decided by the sets the trees contain."""
import itertools
from .common import *

LEVEL = "model_checking"
BOUNDS = "pairs of trees of up to 4 nodes in the SHAPES (branches that end early, branches that start at different steps, grandchildren), 1-2 agents of 1-3 " \
         "dimensions, 1-3 time steps per node, arbitrary real bounds; pairs of simulation trees of up to 3 nodes with arbitrary values"
OUTSIDE = "trees with different time steps (documented limitation), star-set trees, matching of several children that are equal up to the tolerance"
ASSUMPTIONS = ["nodes of a tree share the root's time grid (produced by the verifier)", "the tolerance is the documented one (1e-6) or the one given"]

T = 0.5
TOL = 1e-6
# shape: list of (parent index, first step, number of steps)
SHAPES = {
    "one1": [(None, 0, 1)],
    "one2": [(None, 0, 2)],
    "chain": [(None, 0, 2), (0, 1, 2)],
    "chain_end": [(None, 0, 1), (0, 0, 2)],
    "fork": [(None, 0, 1), (0, 0, 2), (0, 0, 1)],
    "late": [(None, 0, 2), (0, 0, 1), (0, 1, 2)],
    "grand": [(None, 0, 1), (0, 0, 2), (1, 1, 2)],
    "long": [(None, 0, 3)],
}


def build(ctx, tag, shape, dims, sim=False, lo=-20, hi=20, nums=None, times=1.0):
    ids = list(dims)
    agents = {a: PlainAgent(a) for a in ids}
    nodes = []
    kind = AnalysisTreeNodeType.SIM_TRACE if sim else AnalysisTreeNodeType.REACH_TUBE
    for i, (par, first, n) in enumerate(SHAPES[shape]):
        trace = {}
        for a in ids:
            rows = []
            for s in range(first, first + n):
                t = round(s * T * times, 10)
                if sim:
                    rows.append([t] + [ctx.real(f"{tag}{i}_{a}{d}_{s}", lo, hi) for d in range(dims[a])])
                    continue
                l = [ctx.real(f"{tag}{i}_{a}{d}_{s}l", lo, hi) for d in range(dims[a])]
                u = [ctx.real(f"{tag}{i}_{a}{d}_{s}u", lo, hi) for d in range(dims[a])]
                for p, q in zip(l, u):
                    ctx.assume_le(p, q)
                rows += [[t] + l, [round(t + T * times, 10)] + u]
            trace[a] = ctx.array(rows) if sim else rows
        nd = node(trace, {a: ("A",) for a in ids}, agents, kind=kind, start=trace[ids[0]][0][0], nid=i, init={a: [] for a in ids})
        nodes.append(nd)
        if par is not None:
            nodes[par].child.append(nd)
    return AnalysisTree(nodes[0])


def boxes(tree, a, s):
    for n in tree.nodes:
        tr = n.trace[a]
        for i in range(0, len(tr), 2):
            if abs(tr[i][0] - s * T) < 1e-9:
                yield list(tr[i][1:]), list(tr[i + 1][1:])


def steps(tree, a):
    return sorted({round(n.trace[a][i][0] / T) for n in tree.nodes for i in range(0, len(n.trace[a]), 2)})


def reach(ctx, this, other, dims, odims=None, strict=True, tol=None):
    odims = odims or dims
    A, B = build(ctx, "p", this, dims), build(ctx, "q", other, odims)
    # an arbitrary state of the other tree
    states = [(a, s, l, u) for a in odims for s in steps(B, a) for l, u in boxes(B, a, s)]
    k = ctx.choice("which", len(states))
    a, s, l, u = states[k]
    pt = [ctx.real(f"pt{d}", -20, 20) for d in range(len(l))]
    for v, p, q in zip(pt, l, u):
        ctx.assume_le(p, v)
        ctx.assume_le(v, q)
    kw = {} if tol is None else {"tol": tol}
    got = bool(A.contains(B, strict=strict, **kw)) if not (strict and kw == {}) else bool(A.contains(B))
    w = (TOL if tol is None else tol) + (0 if tol == 0 else ctx.slack())
    inside = ctx.Or(False, *[ctx.And(*[ctx.And(p - w <= v, v <= q + w) for v, p, q in zip(pt, L, U)]) for L, U in boxes(A, a, s)])
    if got:
        ctx.check("contained", inside)
    else:
        # refused: some state of the other tree is indeed outside (here: not every box is inside one box)
        each = [ctx.Or(False, *[ctx.And(*[ctx.And(P <= p, q <= Q) for p, q, P, Q in zip(l2, u2, L, U)]) for L, U in boxes(A, a2, s2)])
                for (a2, s2, l2, u2) in states]
        ctx.check("refused", ctx.Not(ctx.And(*each)))


def cover(ctx, n):
    """one box against a union of boxes: refused only if some state is outside all of them"""
    dims = {"a": 2}
    sh = {1: "one1", 2: "fork2", 3: "fork3"}[n]
    SHAPES["fork2"] = [(None, 0, 1), (0, 0, 1)]
    SHAPES["fork3"] = [(None, 0, 1), (0, 0, 1), (0, 0, 1)]
    A, B = build(ctx, "p", sh, dims), build(ctx, "q", "one1", dims)
    got = bool(A.contains(B))
    (l, u), = boxes(B, "a", 0)
    bs = list(boxes(A, "a", 0))
    if not got:
        # a covered box has all its grid cells covered; its grid: own bounds and the bounds of the others
        pts = [[l[d], u[d]] + [L[d] for L, U in bs] + [U[d] for L, U in bs] for d in range(2)]
        cells = []
        mids = [[(x + y) / 2 for x, y in itertools.combinations_with_replacement(pts[d], 2)] for d in range(2)]
        for px in mids[0]:
            for py in mids[1]:
                inB = ctx.And(l[0] <= px, px <= u[0], l[1] <= py, py <= u[1])
                inA = ctx.Or(*[ctx.And(L[0] <= px, px <= U[0], L[1] <= py, py <= U[1]) for L, U in bs])
                cells.append(ctx.Implies(inB, inA))
        ctx.check("refused", ctx.Not(ctx.And(*cells)))
    else:
        px, py = ctx.real("px", -20, 20), ctx.real("py", -20, 20)
        w = TOL + ctx.slack()
        inB = ctx.And(l[0] <= px, px <= u[0], l[1] <= py, py <= u[1])
        inA = ctx.Or(*[ctx.And(L[0] - w <= px, px <= U[0] + w, L[1] - w <= py, py <= U[1] + w) for L, U in bs])
        ctx.check("contained", ctx.Implies(inB, inA))


def itself(ctx, shape, dims, sim):
    A = build(ctx, "p", shape, dims, sim)
    ctx.check("self", bool(A.contains(A)) and bool(A.is_equal(A)))


def equal(ctx, this, other, dims, sim=False):
    A, B = build(ctx, "p", this, dims, sim, -3, 3), build(ctx, "q", other, dims, sim, -3, 3)
    got = bool(A.is_equal(B))
    ctx.check("symmetric", got == (bool(A.contains(B)) and bool(B.contains(A))))


def sims(ctx, this, other, dims, tol=None):
    A, B = build(ctx, "p", this, dims, True), build(ctx, "q", other, dims, True)
    kw = {} if tol is None else {"tol": tol}
    got = bool(A.contains(B, **kw)) if kw else bool(A.is_equal(B))
    w = TOL if tol is None else tol

    def close(n, m, w):
        cs = []
        for a in dims:
            if len(n.trace[a]) != len(m.trace[a]):
                return False
            for r, q in zip(n.trace[a], m.trace[a]):
                cs += [ctx.And(x - y < w, y - x < w) for x, y in zip(list(r)[1:], list(q)[1:])]
        return ctx.And(*cs)

    def same(n, m, w):
        if len(n.child) != len(m.child):
            return False
        return ctx.And(close(n, m, w), ctx.Or(*[ctx.And(*[same(x, y, w) for x, y in zip(n.child, p)])
                                                 for p in itertools.permutations(m.child)]))
    if got:
        ctx.check("same", same(A.root, B.root, w + ctx.slack()))
    else:
        ctx.check("differ", ctx.Not(same(A.root, B.root, w / 3)))


def agents(ctx, mine, theirs, strict):
    A = build(ctx, "p", "one1", {a: 1 for a in mine})
    B = build(ctx, "q", "one1", {a: 1 for a in theirs})
    got = bool(A.contains(B, strict=strict))
    if strict and set(mine) != set(theirs) or not set(theirs) <= set(mine):
        ctx.check("agents", not got)
    else:
        w = TOL + ctx.slack()
        if got:
            for a in theirs:
                p, q = A.root.trace[a], B.root.trace[a]
                ctx.check("agents", ctx.And(p[0][1] - w <= q[0][1], q[1][1] <= p[1][1] + w))
        else:
            ctx.check("agents", ctx.Not(ctx.And(*[ctx.And(A.root.trace[a][0][1] <= B.root.trace[a][0][1], B.root.trace[a][1][1] <= A.root.trace[a][1][1])
                                                  for a in theirs])))


def cases(tier):
    out = []
    one, two = {"a": 1}, {"a": 1, "b": 2}
    pairs = [("one1", "one1", one), ("one2", "one2", {"a": 2}), ("one1", "one2", one), ("one2", "one1", one), ("chain", "one2", one), ("chain", "long", one),
             ("chain", "chain", one), ("one2", "chain_end", one), ("fork", "one1", one), ("fork", "one2", one), ("one2", "fork", one), ("late", "long", one),
             ("late", "chain", one), ("long", "late", one), ("long", "grand", one), ("grand", "long", one), ("one1", "one1", {"a": 3}),
             ("one1", "one1", two), ("one1", "one1", {"b": 2, "a": 1}), ("chain_end", "one2", {"a": 2}), ("one2", "chain_end", two)]
    if tier == "thorough":
        pairs += [(p, q, d) for p in SHAPES for q in SHAPES for d in (one, {"a": 2}) if (p, q, d) not in pairs]
    for p, q, d in pairs:
        np_, nq = max(f + n for _, f, n in SHAPES[p]), max(f + n for _, f, n in SHAPES[q])
        out.append(Case(f"{p}-{q}-{'.'.join(f'{a}{n}' for a, n in d.items())}", reach, this=p, other=q, dims=d,
                        must_reach=("refused",) + (("contained",) if np_ >= nq else ())))
    out.append(Case("tol", reach, this="one2", other="one2", dims=one, tol=0.5, must_reach=("contained", "refused")))
    out.append(Case("tol0", reach, this="fork", other="one1", dims={"a": 2}, tol=0.0, must_reach=("contained", "refused")))
    for n in (1, 2) + ((3,) if tier == "thorough" else ()):
        out.append(Case(f"cover{n}", cover, n=n, must_reach=("contained", "refused")))
    for sh in SHAPES:
        for sim in (False, True):
            out.append(Case(f"self-{sh}-{'sim' if sim else 'set'}", itself, shape=sh, dims=two, sim=sim, must_reach=("self",)))
    for p, q, sim in (("one1", "one1", False), ("one2", "one1", False), ("one1", "one2", False), ("one1", "one2", True), ("one2", "one2", True)):
        out.append(Case(f"equal-{p}-{q}-{sim}", equal, this=p, other=q, dims=one, sim=sim, must_reach=("symmetric",)))
    for p, q, d, tol in (("one1", "one1", one, None), ("one2", "one2", one, None), ("one2", "one2", {"a": 1, "b": 1}, None), ("chain", "chain", one, None),
                         ("fork", "fork", one, None), ("one2", "chain", one, None), ("chain", "one2", one, None), ("one2", "one1", one, None),
                         ("chain_end", "fork", one, None), ("fork", "chain_end", one, None), ("one2", "one2", {"a": 2}, 0.5)):
        out.append(Case(f"sim-{p}-{q}-{'.'.join(f'{a}{n}' for a, n in d.items())}", sims, this=p, other=q, dims=d, tol=tol,
                        must_reach=("differ",) + (("same",) if p == q else ())))
    for mine, theirs in (("a", "b"), ("ab", "a"), ("a", "ab"), ("ab", "ba"), ("ab", "ac")):
        for strict in (True, False):
            out.append(Case(f"agents-{mine}-{theirs}-{strict}", agents, mine=mine, theirs=theirs, strict=strict, must_reach=("agents",)))
    return out
