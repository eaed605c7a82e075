"""C19: fixed-point detection declares containment exactly when every (joint) state, with its modes, is contained."""
import itertools
from .common import *
from .C14 import SHAPES
from verse.utils import fixed_points as FP

LEVEL = "model_checking"
BOUNDS = "pairs of reach sets of up to 3 boxes each in 1-2 dimensions; trees of up to 3 nodes (all mode assignments, branches that end early, continuous and " \
         "discrete-time tubes), 1-2 agents of 1-2 dimensions, up to 3 time steps; arbitrary real bounds; the containment query itself is decided exactly (quantifier elimination)"
OUTSIDE = "reach sets of different trees compared with each other when their modes are numbered in a different order; larger trees"
ASSUMPTIONS = ["nodes of a tree share the time grid", "the SMT solver used by the code under test is exact for linear arithmetic (its queries are turned into our own)"]

T = 0.5


def inbox(ctx, pt, l, u):
    return ctx.And(*[ctx.And(p <= v, v <= q) for v, p, q in zip(pt, l, u)])


def decide(ctx, got, small, big, tag=""):
    """got: the declared answer; small, big: lists of (lower, upper)"""
    n = len(small[0][0])
    if got:
        pt = [ctx.real(f"pt{d}", -30, 30) for d in range(n)]
        s = ctx.slack()
        inbig = ctx.Or(False, *[inbox(ctx, pt, [x - s for x in l], [x + s for x in u]) for l, u in big])
        ctx.check("contained", ctx.Implies(ctx.Or(*[inbox(ctx, pt, l, u) for l, u in small]), inbig))
    else:
        # some state is outside: look at the grid of all bounds and the middles between them
        grid = []
        for d in range(n):
            vals = [b[d] for box in small + big for b in box]
            seen, u = set(), []
            for v in vals:
                k = v.z().get_id() if hasattr(v, "z") else v
                if k not in seen:
                    seen.add(k)
                    u.append(v)
            grid.append([(x + y) / 2 for x, y in itertools.combinations_with_replacement(u, 2)])
        s = ctx.slack()
        cells = [ctx.Implies(ctx.Or(*[inbox(ctx, p, l, u) for l, u in small]),
                             ctx.Or(False, *[inbox(ctx, p, [x + s for x in l], [x - s for x in u]) for l, u in big]))
                 for p in itertools.product(*grid)]
        ctx.check("refused", ctx.Not(ctx.And(*cells)))


def mkboxes(ctx, tag, n, dim):
    out = []
    for i in range(n):
        l = [ctx.real(f"{tag}{i}l{d}", -20, 20) for d in range(dim)]
        u = [ctx.real(f"{tag}{i}u{d}", -20, 20) for d in range(dim)]
        for p, q in zip(l, u):
            ctx.assume_le(p, q)
        out.append((l, u))
    return out


def sets(ctx, n1, n2, dim, split=False, none=False):
    """contain_all_fix on reach sets given directly"""
    small, big = mkboxes(ctx, "s", n1, dim), mkboxes(ctx, "b", n2, dim)

    def rs(boxes):
        if split:  # one node per box
            r = {i: [list(l), list(u)] for i, (l, u) in enumerate(boxes)}
        else:
            r = {0: [list(v) for b in boxes for v in b]}
        if none:
            r[len(r)] = None
        return r
    decide(ctx, bool(FP.contain_all_fix(rs(small), rs(big))), small, big)


def empty(ctx):
    b = mkboxes(ctx, "b", 1, 1)
    ctx.check("contained", bool(FP.contain_all_fix({0: None}, {0: [b[0][0], b[0][1]]})))
    ctx.check("refused", not bool(FP.contain_all_fix({0: [b[0][0], b[0][1]]}, {0: None})))


def tree(ctx, shape, dims, modes, disc=False, jitter=False):
    """(tree, rows) rows: (step, lower and upper of the joint state, joint mode)"""
    ids = list(dims)
    agents = {a: PlainAgent(a) for a in ids}
    nodes, rows = [], []
    for i, (par, first, n) in enumerate(SHAPES[shape]):
        trace = {a: [] for a in ids}
        md = {a: modes[i][j] if isinstance(modes[i][j], tuple) else (modes[i][j],) for j, a in enumerate(ids)}
        for s in range(first, first + n):
            L, U = [], []
            t = round(s * T, 10)
            t2 = t if disc else round(t + T, 10) + (1e-12 if jitter and i == 0 else 0)
            for a in ids:
                l = [ctx.real(f"{i}{a}{d}_{s}l", -20, 20) for d in range(dims[a])]
                u = [ctx.real(f"{i}{a}{d}_{s}u", -20, 20) for d in range(dims[a])]
                for p, q in zip(l, u):
                    ctx.assume_le(p, q)
                trace[a] += [[t] + l, [t2] + u]
                L += l
                U += u
            rows.append((s, L, U, tuple(md.values())))
        nd = node(trace, md, agents, start=round(first * T, 10), nid=i, init={a: [] for a in ids})
        nodes.append(nd)
        if par is not None:
            nodes[par].child.append(nd)
    return AnalysisTree(nodes[0]), rows


def fixed(ctx, shape, dims, modes, disc=False, jitter=False):
    t, rows = tree(ctx, shape, dims, modes, disc, jitter)
    last = max(r[0] for r in rows)
    end = (last if disc else last + 1) * T
    got = bool(FP.fixed_points_fix(t, end, T))
    table = sorted({r[3] for r in rows})
    small = [(L + [100 * table.index(m)], U + [100 * table.index(m)]) for s, L, U, m in rows if s == last]
    big = [(L + [100 * table.index(m)], U + [100 * table.index(m)]) for s, L, U, m in rows if s < last]
    # modes are compared by equality: decide mode by mode
    if got:
        for m in {r[3] for r in rows if r[0] == last}:
            pt = [ctx.real(f"pt{table.index(m)}_{d}", -30, 30) for d in range(len(small[0][0]) - 1)]
            s = ctx.slack()
            inb = ctx.Or(False, *[inbox(ctx, pt, [x - s for x in L], [x + s for x in U]) for k, L, U, mm in rows if k < last and mm == m])
            ctx.check("contained", ctx.Implies(ctx.Or(*[inbox(ctx, pt, L, U) for k, L, U, mm in rows if k == last and mm == m]), inb))
    else:
        each = [ctx.Or(False, *[ctx.And(*[ctx.And(p <= x, y <= q) for x, y, p, q in zip(L, U, L2, U2)]) for k, L2, U2, mm in rows if k < last and mm == m])
                for s, L, U, m in rows if s == last]
        ctx.check("refused", ctx.Not(ctx.And(*each)))


def reach_at(ctx, shape, dims, modes, lo, hi, disc=False):
    """reach_at_fix returns exactly the boxes of the time window, with distinct numbers for distinct modes"""
    t, rows = tree(ctx, shape, dims, modes, disc)
    got = FP.reach_at_fix(t, lo * T - 0.1, hi * T + 0.1)
    boxes = []
    for k, v in got.items():
        for i in range(0, len(v or []), 2):
            boxes.append((list(v[i]), list(v[i + 1])))
    cont, pos = [], 0  # the code puts the modes of an agent behind its variables
    for a, d in dims.items():
        cont += range(pos, pos + d)
        pos += d + 1
    n = pos
    want = [r for r in rows if r[0] >= lo and (r[0] if disc else r[0] + 1) <= hi]
    ctx.check("window", len(boxes) == len(want))
    code = {}
    for (l, u), (s, L, U, m) in zip(boxes, want):
        ctx.check("boxes", ctx.And(*[ctx.And(ctx.exact(p, x), ctx.exact(q, y)) for p, q, x, y in zip([l[i] for i in cont], [u[i] for i in cont], L, U)]))
        k = tuple(v for i, v in enumerate(l) if i not in cont)
        ctx.check("modes", len(l) == n and k == tuple(v for i, v in enumerate(u) if i not in cont) and code.setdefault(m, k) == k)
    ctx.check("modes", len(set(code.values())) == len(code))


def cases(tier):
    out = []
    B = ("contained", "refused")
    for n1, n2, dim in ((1, 1, 1), (1, 2, 1), (2, 1, 1), (2, 2, 1), (1, 1, 2), (1, 2, 2)) + (((1, 3, 1), (2, 3, 1), (2, 2, 2)) if tier == "thorough" else ()):
        out.append(Case(f"sets-{n1}-{n2}-{dim}", sets, n1=n1, n2=n2, dim=dim, must_reach=B))
    out.append(Case("sets-split", sets, n1=2, n2=2, dim=1, split=True, must_reach=B))
    out.append(Case("sets-none", sets, n1=1, n2=1, dim=2, none=True, must_reach=B))
    out.append(Case("empty", empty, must_reach=B))
    one, two = {"a": 1}, {"a": 1, "b": 1}
    R = ("refused",)
    fx = [("one2", one, ["A"], B), ("long", one, ["A"], B), ("one2", {"a": 2}, ["A"], B), ("one2", two, ["AB"], B), ("chain", one, ["A", "A"], B),
          ("chain", one, ["A", "B"], B), ("fork", one, ["A", "A", "A"], B), ("fork", one, ["A", "A", "B"], B), ("fork", one, ["A", "B", "A"], R),
          ("late", one, ["A", "B", "A"], B), ("late", one, ["A", "A", "B"], R), ("chain_end", one, ["A", "A"], B), ("chain_end", one, ["A", "B"], B),
          ("chain", two, ["AA", "BA"], B), ("grand", one, ["A", "B", "A"], B), ("one2", one, [[("A", "T0")]], B), ("chain", one, [[("A", "T0")], [("A", "T1")]], B),
          ("chain", two, ["AB", "BA"], B)]
    for sh, d, m, reach in fx:
        out.append(Case(f"fixed-{sh}-{len(d)}{max(d.values())}-{'.'.join(''.join(map(str, x)) for x in m)}", fixed, shape=sh, dims=d, modes=m, must_reach=reach))
    out.append(Case("fixed-short-first", fixed, shape="short_first", dims=one, modes=["A", "B", "A"], must_reach=B))
    out.append(Case("fixed-disc", fixed, shape="one2", dims=one, modes=["A"], disc=True, must_reach=B))
    out.append(Case("fixed-disc3", fixed, shape="long", dims=one, modes=["A"], disc=True, must_reach=B))
    out.append(Case("fixed-jitter", fixed, shape="two_end", dims=one, modes=["A", "B"], jitter=True, must_reach=B))
    for disc in (False, True):
        for lo, hi in ((0, 1), (0, 3), (1, 2), (1, 3), (2, 3)):
            out.append(Case(f"at-{lo}-{hi}-{disc}", reach_at, shape="late", dims={"a": 2, "b": 1}, modes=["AA", "AB", "BA"], lo=lo, hi=hi, disc=disc,
                            must_reach=("window",)))
    return out


SHAPES["short_first"] = [(None, 0, 1), (0, 0, 1), (0, 0, 2)]
SHAPES["two_end"] = [(None, 0, 2), (0, 0, 2)]
