"""C06: tubes of several initial boxes are merged without losing (or inventing) states."""
import itertools
from .common import *
from verse.analysis import verifier as VM
from verse.analysis.incremental import combine_all

LEVEL = "model_checking"
BOUNDS = "1..4 initial boxes in 1..2 variables, groups of 1, 2, 3 or 1000 boxes, tubes of 1..4 segments with arbitrary bounds " \
         "(also of different lengths), with and without cached tubes; merging of up to 4 boxes"
OUTSIDE = "star sets (C18), more boxes or longer tubes"
ASSUMPTIONS = ["the tube of one box is an arbitrary box sequence returned by a stand-in for calc_bloated_tube",
               "floating point modelled as exact reals"]


def sym_boxes(ctx, n, dims, pre="b", ordered=True):
    out = []
    for i in range(n):
        lo = [ctx.real(f"{pre}{i}lo{d}", -20, 20) for d in range(dims)]
        hi = [ctx.real(f"{pre}{i}hi{d}", -20, 20) for d in range(dims)]
        for l, h in zip(lo, hi):
            ctx.assume_le(l, h)
        out.append([lo, hi])
    return out


class Tubes:
    """calc_bloated_tube: one arbitrary tube per call"""

    def __init__(self, ctx, dims, segs, step=0.5):
        self.ctx, self.dims, self.segs, self.step, self.calls = ctx, dims, segs, step, []

    def tube(self, k):
        rows = []
        for j in range(self.segs[k % len(self.segs)]):
            lo, hi = [j * self.step], [(j + 1) * self.step]
            for d in range(self.dims):
                l = self.ctx.real(f"t{k}_{j}_{d}l", -50, 50)
                h = self.ctx.real(f"t{k}_{j}_{d}h", -50, 50)
                self.ctx.assume_le(l, h)
                lo.append(l)
                hi.append(h)
            rows += [lo, hi]
        return rows

    def __call__(self, mode, rect, horizon, step, sim, method, kvalue, nsim, *a, **k):
        rows = self.tube(len(self.calls))
        self.calls.append((mode, [list(rect[0]), list(rect[1])], horizon, step, rows))
        self.last = self.ctx.array([list(r) for r in rows])
        self.given = getattr(self, "given", []) + [self.last]
        return self.last


def bbox(ctx, boxes):
    dims = len(boxes[0][0])
    return [[ctx.min(*[b[0][d] for b in boxes]) for d in range(dims)],
            [ctx.max(*[b[1][d] for b in boxes]) for d in range(dims)]]


def same_box(ctx, a, b):
    return ctx.And(*[ctx.eq(a[s][d], b[s][d]) for s in (0, 1) for d in range(len(b[0]))])


def merged(ctx, tubes, offs, dims):
    """reference: rows of the union of tubes, tube i entered offs[i] segments later; as long as the first"""
    n = len(tubes[0]) // 2
    res = []
    for j in range(n):
        lo, hi = [tubes[0][2 * j][0]], [tubes[0][2 * j + 1][0]]
        for d in range(1, dims + 1):
            ls, hs = [], []
            for t, o in zip(tubes, offs):
                if 0 <= j - o < len(t) // 2:
                    ls.append(t[2 * (j - o)][d])
                    hs.append(t[2 * (j - o) + 1][d])
            lo.append(ctx.min(*ls))
            hi.append(ctx.max(*hs))
        res += [lo, hi]
    return res


def check_rows(ctx, label, got, ref):
    got = np.asarray(got, dtype=object)
    ctx.check(label + "-shape", got.shape == (len(ref), len(ref[0])))
    for r, q in zip(got, ref):
        ctx.check(label, ctx.And(*[ctx.eq(a, b) for a, b in zip(r, q)]))


def union_case(ctx, n=2, dims=1, group=1, segs=(3,)):
    boxes = sym_boxes(ctx, n, dims)
    given = [[list(b[0]), list(b[1])] for b in boxes]
    st = Tubes(ctx, dims, segs)
    ctx.patch(VM, "calc_bloated_tube", st)
    tube, upd = VM.Verifier.calculate_full_bloated_tube_simple(
        "a", None, False, ("A",), given, 1.5, 0.5, None, {}, 100, 1, combine_seg_length=group)
    offs = list(range(0, n, group))
    # groups entered after the end of the first tube need not be computed
    offs = [o for o in offs if o < segs[0] or o == 0]
    ctx.check("calls", len(st.calls) >= len(offs))
    for o, c in zip(offs, st.calls):
        ctx.check("box", same_box(ctx, c[1], bbox(ctx, boxes[o:o + group])))
        ctx.check("args", c[0] == ("A",) and c[2] == 1.5 and c[3] == 0.5)
    check_rows(ctx, "union", tube, merged(ctx, [c[4] for c in st.calls[:len(offs)]], offs, dims))
    for b, g in zip(boxes, given):
        ctx.check("inputs-unchanged", ctx.And(*[ctx.exact(b[s][d], g[s][d]) for s in (0, 1) for d in range(dims)]))


def combine_case(ctx, n=3, dims=2):
    boxes = sym_boxes(ctx, n, dims)
    given = [[list(b[0]), list(b[1])] for b in boxes]
    r = combine_all(given)
    ctx.check("combine_all", same_box(ctx, r, bbox(ctx, boxes)))
    rows = [row for b in given for row in ([0.0] + b[0], [0.5] + b[1])]
    keep = [list(r) for r in rows]
    r = VM.combine_rect(rows)
    ctx.check("combine_rect", same_box(ctx, [list(r[0])[1:], list(r[1])[1:]], bbox(ctx, boxes)))
    ctx.check("combine_rect-time", ctx.And(ctx.eq(r[0][0], 0.0), ctx.eq(r[1][0], 0.5)))
    ctx.check("combine-inputs-unchanged",
              ctx.And(*[ctx.exact(given[i][s][d], boxes[i][s][d]) for i in range(n) for s in (0, 1) for d in range(dims)],
                      *[ctx.exact(a, b) for p, q in zip(rows, keep) for a, b in zip(p, q)]))


def stored_case(ctx, n=2, dims=1, group=1, segs=(3,)):
    """the tubes handed over for storing are the tubes of the boxes, not the union"""
    boxes = sym_boxes(ctx, n, dims)
    st = Tubes(ctx, dims, segs)
    ctx.patch(VM, "calc_bloated_tube", st)
    tube, upd = VM.Verifier.calculate_full_bloated_tube_simple(
        "a", (None, list(range(0, n, group))), True, ("A",), [[list(b[0]), list(b[1])] for b in boxes], 1.5, 0.5, None, {}, 100, 1,
        combine_seg_length=group)
    offs = list(range(0, n, group))
    offs = [o for o in offs if o < segs[0] or o == 0]
    for (aid, mode, rect, t, *_), c, o in zip(upd, st.calls, offs):
        ctx.check("stored-key", aid == "a" and mode == ("A",))
        ctx.check("stored-box", same_box(ctx, rect, bbox(ctx, boxes[o:o + group])))
        check_rows(ctx, "stored-tube", t, c[4])
    ctx.check("stored-count", len(upd) >= len(offs))
    check_rows(ctx, "union", tube, merged(ctx, [c[4] for c in st.calls[:len(offs)]], offs, dims))


def retrieved_case(ctx, n=2, dims=1, group=1, segs=(3,), hit=(True, False)):
    """tubes stored earlier are used for the boxes they belong to, the others are computed"""
    v = VM.Verifier(config(incremental=True))
    boxes, offs = [], list(range(0, n, group))
    for i in range(n):
        lo = [ctx.real(f"b{i}lo{d}", 100 * i, 100 * i + 40) for d in range(dims)]
        hi = [ctx.real(f"b{i}hi{d}", 100 * i, 100 * i + 40) for d in range(dims)]
        for l, h in zip(lo, hi):
            ctx.assume_le(l, h)
        boxes.append([lo, hi])
    st = Tubes(ctx, dims, segs)
    ctx.patch(VM, "calc_bloated_tube", st)
    groups = [bbox(ctx, boxes[o:o + group]) for o in offs]
    ref = {}
    for k, o in enumerate(offs):
        if hit[k]:
            rows = st.tube(100 + k)
            ref[k] = rows
            v.cache.add_tube("a", ("A",), groups[k], ctx.array([list(r) for r in rows]), 0.5 * segs[0], 0.5)
    known = {k: [ref[k]] for k in ref}
    for rnd in range(2):
        given = [[list(b[0]), list(b[1])] for b in boxes]
        tube = request(ctx, v, given, group, segs)
        for k, o in enumerate(offs):
            if o < segs[0] or o == 0:
                # a tube computed for this group (a stored one may be used or computed anew)
                for c in st.calls:
                    if bool(c[1][0][0] < 100 * o + 50) and bool(c[1][0][0] > 100 * o - 50) \
                            and not any(c[4] is t for t in known.get(k, [])):
                        ctx.check("computed-box", same_box(ctx, c[1], groups[k]))
                        known.setdefault(k, []).append(c[4])
                ctx.check(f"computed-{rnd}", k in known)
        use = [k for k in range(len(offs)) if offs[k] < segs[0] or k == 0]
        got = np.asarray(tube, dtype=object)
        ok = []
        for pick in itertools.product(*[known[k] for k in use]):
            r = merged(ctx, list(pick), [offs[k] for k in use], dims)
            ctx.check("union-shape", got.shape == (len(r), len(r[0])))
            ok.append(ctx.And(*[ctx.eq(a, b) for x, y in zip(got, r) for a, b in zip(x, y)]))
        ctx.check(f"union-{rnd}", ctx.Or(*ok))


def request(ctx, v, given, group, segs):
    """what the verification loop does for one agent of one node, through the real loop"""
    a = PlainAgent("a")
    a.TC_simulate = None
    H = 0.5 * segs[0]
    root = AnalysisTreeNode.root_from_inits({"a": given}, {"a": ("A",)}, {"a": []}, {"a": []}, {"a": a}, 10,
                                            AnalysisTreeNodeType.REACH_TUBE)
    from verse.analysis.verifier import ReachabilityMethod
    v.compute_full_reachtube(root, BaseSensor(), H, 0.5, None, LaneMap(), group, ReachabilityMethod.DRYVR, 0, [], {})
    return root.trace["a"]


def cases(tier):
    cs = []
    for n, dims, group, segs in [(1, 2, 1, (3,)), (2, 1, 1, (3,)), (2, 2, 1, (2,)), (3, 1, 1, (3,)), (3, 1, 1, (2,)),
                                 (2, 2, 1000, (3,)), (3, 1, 1000, (2,)), (3, 1, 2, (4,)), (4, 1, 2, (4,)), (4, 1, 3, (4,)),
                                 (2, 1, 1, (3, 4)), (3, 1, 1, (2, 5, 4)), (4, 1, 1, (2,)), (4, 2, 2, (3,))]:
        cs.append(Case(f"union-{n}x{dims}-g{group}-{'_'.join(map(str, segs))}", union_case, n=n, dims=dims, group=group,
                       segs=segs, must_reach=("union", "box")))
    for n, dims in [(1, 1), (2, 2), (3, 2), (4, 1)]:
        cs.append(Case(f"combine-{n}x{dims}", combine_case, n=n, dims=dims, must_reach=("combine_all", "combine_rect")))
    for n, group, segs in [(1, 1, (3,)), (2, 1, (3,)), (3, 1, (3,)), (3, 2, (3,)), (3, 1000, (2,))]:
        cs.append(Case(f"stored-{n}-g{group}", stored_case, n=n, group=group, segs=segs, must_reach=("stored-tube",)))
    for n, group, segs in [(1, 1, (2,)), (2, 1, (3,)), (3, 1, (3,)), (3, 1, (2,)), (3, 2, (3,))]:
        k = len(range(0, n, group))
        for hit in itertools.product((True, False), repeat=k):
            cs.append(Case(f"retrieved-{n}-g{group}-s{segs[0]}-{''.join('TF'[not h] for h in hit)}", retrieved_case, n=n, group=group,
                           segs=segs, hit=hit, must_reach=("union-0", "union-1")))
    if tier == "thorough":
        cs.append(Case("union-4x2-g1", union_case, n=4, dims=2, group=1, segs=(5,)))
        cs.append(Case("retrieved-4", retrieved_case, n=4, group=1, segs=(4,), hit=(False, True, False, True)))
    return cs
