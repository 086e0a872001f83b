"""C23: the OpenCL kernels, and how the engine launches them."""
import ir, sym, pit, cells, build, c19
from unroll import Unroll
from poly import *
from sym import Sym
from cells import Cell

A = [atom("arg", k) for k in range(16)]
B = 64                                  # NBODY_DATA_BLOCK_SIZE


def ld(a, sz=8):
    return atom("ld", topoly(a), sz, 0)


def wid(n):
    return ld(atom("g", "nb_get_" + n))


G, LID = wid("global_id"), wid("local_id")
# kinds of the parameters: i int, d coordinate, b buffer of coordinates, n buffer of int
PARAMS = {"ComputeBlockLocal": "iibbbiiii", "ComputeTreeBH": "iiibbbbbbb", "ComputeTreeBHSL": "iiibbbbbbb", "ComputeHeapBH": "iiibbbbbbbn", "ComputeHeapBHSL": "iiibbbbbbbn",
          "UpdateLeafBH": "ibbbbbbbbbbn", "UpdateNodeBH": "ibbbbbbbbbbbd", "ClampCoord": "bdi", "fill": "bd", "fmadd_inplace": "ibbd", "fmadd_inplace_corr": "ibbbd", "fmadd": "bbbdiii",
          "fmaxabs": "biibi"}


def kind(f, k):
    t = f.args[k]["ty"]
    return {"i32": "i", "double": "d", "ptr": "p"}.get(t, t)


def matches(f, want):
    return len(f.args) == len(want) and all(kind(f, k) == ("p" if c in "bn" else c) for k, c in enumerate(want))


def one(base, value, label=""):
    return Cell(base, ONE, value, 8, label)


# ---- one element per work item

def elementwise(ctx, f, S):
    n = f.name
    X = []
    fix = {single_atom(G): lambda V: float(V.rng.choice([0, 1, 2, 3, 7]))}
    if n == "fill":
        X = [one(A[0] + G * 8, A[1], "a")]
        fix[single_atom(wid("global_size"))] = 8.0
    elif n == "fmadd_inplace":
        X = [one(A[1] + G * 8 + A[0] * 8, ld(A[1] + G * 8 + A[0] * 8) + ld(A[2] + G * 8 + A[0] * 8) * A[3], "a")]
    elif n == "fmadd":
        X = [one(A[0] + G * 8 + A[4] * 8, ld(A[1] + G * 8 + A[5] * 8) + ld(A[2] + G * 8 + A[6] * 8) * A[3], "a")]
    elif n == "fmadd_inplace_corr":
        i = G * 8 + A[0] * 8
        X = [one(A[1] + i, ld(A[1] + i) + ld(A[3] + i) * A[4] - ld(A[2] + i), "a"), one(A[2] + i, ZERO, "compensation")]
    elif n == "ClampCoord":
        for k in range(3):
            a = A[0] + G * 8 + A[2] * (8 * k)
            x = ld(a)
            y = x - 2 * A[1] * ind(cmp("lt", A[1] - x))
            X.append(one(a, y + 2 * A[1] * ind(cmp("lt", y + A[1])), "coordinate %d" % k))
        fix[single_atom(A[1])] = lambda V: 1.0 + V.rng.random()
        fix[single_atom(A[2])] = lambda V: float(V.rng.choice([8, 9, 64]))
    elif n == "UpdateLeafBH":
        i = G + A[0]                                    # points - 1 + root
        b = ld(A[11] + i * 4, 4)
        for k in range(3):
            v = ld(A[1] + A[0] * (8 * k) + b * 8)
            X += [one(A[j + k] + i * 8, v, "%s %d" % (t, k)) for j, t in ((2, "mass centre"), (5, "box minimum"), (8, "box maximum"))]
        fix[single_atom(b)] = lambda V: float(V.rng.choice([0, 1, 5, 7]))
        fix[single_atom(A[0])] = lambda V: float(V.rng.choice([8, 9, 64]))
    elif n == "UpdateNodeBH":
        i = G + A[0]
        l, r = i * 16, i * 16 + 8
        m = ld(A[10] + l) + ld(A[10] + r)
        mc = [(ld(A[1 + k] + l) * ld(A[10] + l) + ld(A[1 + k] + r) * ld(A[10] + r)) * power(m, -1) for k in range(3)]
        lo = [minmax("min", [ld(A[4 + k] + l), ld(A[4 + k] + r)]) for k in range(3)]
        hi = [minmax("max", [ld(A[7 + k] + l), ld(A[7 + k] + r)]) for k in range(3)]
        half = Fraction(1, 2)
        dg = power(sum(((hi[k] - lo[k]) * (hi[k] - lo[k]) for k in range(3)), ZERO), half) * half
        ds = [(hi[k] + lo[k]) * half - mc[k] for k in range(3)]
        rad = dg + power(sum((x * x for x in ds), ZERO), half)
        X = [one(A[10] + i * 8, m, "mass"), one(A[11] + i * 8, rad * rad * A[12], "squared radius")]
        for k in range(3):
            X += [one(A[1 + k] + i * 8, mc[k], "mass centre %d" % k), one(A[4 + k] + i * 8, lo[k], "box minimum %d" % k), one(A[7 + k] + i * 8, hi[k], "box maximum %d" % k)]
        for x in X:
            x.value = ite(cmp("lt", G - A[0]), x.value, ld(x.base))         # the nodes level_size .. 2 level_size - 1
        fix = {single_atom(A[0]): lambda V: float(V.rng.choice([1, 2, 4, 8])), single_atom(G): lambda V: max(0.0, V.fix[single_atom(A[0])] + V.rng.choice([-4, -1, -1, 0, 0, 1]))}
    for k in range(len(f.args)):
        if kind(f, k) == "i" and single_atom(A[k]) not in fix:
            fix[single_atom(A[k])] = lambda V: float(V.rng.choice([0, 0, 1, 3, 8, 20]))
        if kind(f, k) == "p":
            fix[single_atom(A[k])] = 1e6 * (k + 1)
    if n == "UpdateNodeBH":
        # masses are positive
        for q in (l, r):
            fix[single_atom(ld(A[10] + q))] = lambda V: 0.5 + V.rng.random()
    e, b = cells.all_effects(S)
    v, d, loc = cells.compare(e, b, X, fix=fix, ignore=local, trials=24, seed=ctx.seed, S=S)
    ctx.decide(v, "element", n, loc or f.where, d[:900])
    if n == "fmadd_inplace_corr" and v == "equal":
        compensation(ctx, f, S)


def local(e):
    return any(akey(a)[0] == "alloca" for a in topoly(e.base).atoms())


def compensation(ctx, f, S):
    """cut at the new sum: what is kept is the part of the addend the sum did not absorb"""
    import c01
    i = G * 8 + A[0] * 8
    st = {a: [s for s in S.stores() if S.store_addr(s) == A[a] + i] for a in (1, 2)}
    if len(st[1]) != 1 or len(st[2]) != 1:
        return ctx.undecided("element", "compensation", f.where, "several stores")
    N = c01.origin(S, st[1][0].ops[0])
    if N is None:
        return ctx.undecided("element", "compensation", f.where, "new sum not found")
    S2 = Sym(f)
    S2.memo[N.id] = atom("newsum")
    S2.cut[N.id] = atom("newsum")
    got = S2.ev(st[2][0].ops[0])
    want = atom("newsum") - ld(A[1] + i) - (ld(A[3] + i) * A[4] - ld(A[2] + i))
    ctx.decide(pit.equal(c19.plain(got), want, seed=ctx.seed), "element", "compensation", st[2][0].loc, "the kept compensation is %s, not (new sum - old sum) - addend" % show(got)[:300])


# ---- loops

class Item(Unroll):
    """one work item: what it writes, for given sizes"""

    def __init__(self, S, seed, tile=None):
        Unroll.__init__(self, S, seed, limit=600)
        self.tile = tile or {}
        f = S.f
        for k in range(len(f.args)):
            if kind(f, k) == "p":
                self.fix[single_atom(A[k])] = 1e6 * (k + 1)

    def _atom(self, a):
        k = akey(a)
        if k[0] in ("ld", "macc") and self.tile:
            ad = k[1] if k[0] == "ld" else k[3]
            g = [akey(x)[1] for x in ad.atoms() if akey(x)[0] == "g" and akey(x)[1] in self.tile]
            if g:
                return self.local(g[0], self.ev(ad))
        return Unroll._atom(self, a)

    def local(self, g, r):
        """the element of the tile as the work item that stored it computed it"""
        S, s = self.S, self.tile[g]
        keep = self.fix.get(single_atom(LID)), self.memo

        def at(l, p):
            self.fix[single_atom(LID)] = float(l)
            self.memo = {}
            return self.ev(p)
        try:
            ad = S.store_addr(s)
            a0, a1 = at(0, ad), at(1, ad)
            l = (r - a0) / (a1 - a0) if a1 != a0 else -1
            if abs(l - round(l)) > 1e-9 or not 0 <= round(l) < B:
                raise Unwritten("element %g of %s is not stored by any work item of the group" % ((r - a0) / 8, g))
            return at(round(l), S.stored(s))
        finally:
            self.fix[single_atom(LID)], self.memo = keep

    def trace(self):
        """{address: (value, inst)}, and the addresses read"""
        S, f = self.S, self.S.f
        out, read = {}, []

        def visit(b):
            for i in f.blocks[b].insts:
                if i.op == "store":
                    a = S.store_addr(i)
                    if any(akey(x)[0] in ("alloca", "g") for x in a.atoms()):
                        continue
                    self.memo.clear()
                    out[round(self.ev(a))] = (self.ev(S.stored(i)), i)
                elif i.op == "load":
                    a = S.load_addr(i)
                    if not any(akey(x)[0] in ("alloca", "g") for x in a.atoms()):
                        self.memo.clear()
                        read.append((round(self.ev(a)), i))
        self.walk(visit)
        return out, read


class Unwritten(Exception):
    pass


def warm(f, S):
    for h in f.loops:
        for i in f.blocks[h].insts:
            if i.op == "phi":
                [S.ev(v) for p, v in i.d["in"]]


def maximum(ctx, f, S):
    warm(f, S)
    for aoff, n in ((0, 64), (0, 192), (5, 59), (5, 60), (5, 64), (100, 128), (3, 1), (0, 65), (64, 100)):
        for gid, at in [(g, q) for g in range(4) for q in (0, -1, n // 2)]:
            V = Item(S, (ctx.seed, aoff, n, gid, at))
            base, res = V.fix[single_atom(A[0])], V.fix[single_atom(A[3])]
            roff = 7
            V.fix.update({single_atom(A[1]): float(aoff), single_atom(A[2]): float(aoff + n), single_atom(A[4]): float(roff), single_atom(G): float(gid)})
            what = "elements %d to %d, work item %d" % (aoff, aoff + n - 1, gid)
            idx = range(aoff + gid * B, min(aoff + gid * B + B, aoff + n))
            if len(idx):
                V.mem[V.rnd((base + 8 * idx[at % len(idx)]) * 4096), 8] = -9.0       # where the largest one is
            got, read = V.trace()
            for a, i in read:
                if base <= a < base + 1e5 and not aoff <= (a - base) / 8 < aoff + n:
                    return ctx.bad("maximum", f.name, i.loc, "%s: element %d is read" % (what, (a - base) / 8))
            V.memo.clear()
            want = {} if not len(idx) else {round(res + 8 * (gid + roff)): max(abs(V.ev(ld(topoly(Fraction(base + 8 * j))))) for j in idx)}
            if set(got) != set(want):
                i = next(iter(got.values()))[1].loc if got else f.where
                return ctx.bad("maximum", f.name, i, "%s: writes results %s, not %s" % (what, sorted((a - res) / 8 for a in got), sorted((a - res) / 8 for a in want)))
            for a, w in want.items():
                if abs(got[a][0] - w) > 1e-9:
                    return ctx.bad("maximum", f.name, got[a][1].loc, "%s: the result is %g, not the largest absolute value %g" % (what, got[a][0], w))
    ctx.ok("maximum", f.name, f.where)


def direct(ctx, f, S):
    """ComputeBlockLocal: the tile of a group and the sum over all bodies"""
    warm(f, S)
    st = {}
    mod = f.mod
    for i in f.all():
        if i.op == "store":
            g = [akey(x)[1] for x in S.store_addr(i).atoms() if akey(x)[0] == "g"]
            if g:
                st.setdefault(g[0], []).append(i)
    bar = {(i.block.id, i.idx) for i in f.all() if i.op == "call" and i.callee == "barrier"}
    ctx.saw("barriers", len(bar))
    # between a write and a read of the tile, in either order, every path passes a barrier
    rd = [i for i in f.all() if i.op == "load" and any(akey(x)[0] == "g" and akey(x)[1] in st for x in S.load_addr(i).atoms())]
    for g, ss in st.items():
        for s in ss:
            for r in rd:
                if not any(akey(x)[0] == "g" and akey(x)[1] == g for x in S.load_addr(r).atoms()):
                    continue
                for x, y, t in ((s, r, "a work item reads an element of %s that another one may not have stored yet"), (r, s, "a work item overwrites an element of %s that another one may still read")):
                    if free_path(f, x, y, bar):
                        return ctx.bad("barrier", f.name, y.loc, t % g + ": no barrier between lines %s and %s" % (x.loc, y.loc))
    for b, k in bar:
        if any(a in (single_atom(G), single_atom(LID)) for q in cells.cond_polys(S.pathcond(b)) for a in q.atoms(deep=True)):
            return ctx.bad("barrier", f.name, f.blocks[b].insts[k].loc if k < len(f.blocks[b].insts) else f.where, "not every work item of the group passes the barrier")
    ctx.ok("barrier", f.name, f.where)
    if any(len(s) != 1 for s in st.values()):
        raise pit.Undecidable("several stores to a tile")
    tile = {g: s[0] for g, s in st.items()}
    for off1, off2, yoff, foff, count, stride, gid, close in ((0, 0, 0, 0, 64, 64, 5, False), (64, 0, 0, 0, 128, 128, 17, True), (64, 64, 3, 11, 64, 192, 1, False)):
        V = Item(S, (ctx.seed, off1, off2, gid), tile)
        for k, v in ((0, off1), (1, off2), (5, yoff), (6, foff), (7, count), (8, stride)):
            V.fix[single_atom(A[k])] = float(v)
        V.fix[single_atom(G)], V.fix[single_atom(LID)] = float(gid), float(gid % B)
        y, m, fo = (V.fix[single_atom(A[k])] for k in (3, 2, 4))
        at = lambda k, n: y + 8 * (yoff + k * stride + n)
        rd = lambda a: V.ev(ld(topoly(Fraction(a))))
        n1 = gid + off1
        if close:
            for k in range(3):
                V.mem[V.rnd(at(k, 3) * 4096), 8] = rd(at(k, n1)) + 3e-5 * V.h("close", k)
            V.memo.clear()
        what = "body %d of %d" % (n1, stride)
        try:
            got, read = V.trace()
        except Unwritten as x:
            return ctx.bad("direct", f.name, f.where, "%s: %s" % (what, x))
        except ZeroDivisionError:
            return ctx.bad("direct", f.name, f.where, "%s: division by zero for the pair of the body with itself" % what)
        for a, i in read:
            for p, n, t in ((y, yoff + 6 * stride, "y"), (m, stride, "mass")):
                if p <= a < p + 5e5 and not a < p + 8 * n:
                    return ctx.bad("direct", f.name, i.loc, "%s: element %d of %s is read" % (what, (a - p) / 8, t))
        V.memo.clear()
        want = {}
        for k in range(3):
            want[round(fo + 8 * (foff + k * stride + n1))] = "velocity %d" % k, rd(at(3 + k, n1))
        tot = [0.0] * 3
        for n2 in range(off2, off2 + count):
            d = [rd(at(k, n1)) - rd(at(k, n2)) for k in range(3)]
            r2 = max(sum(x * x for x in d), 1e-8)
            for k in range(3):
                tot[k] -= rd(m + 8 * n2) * d[k] / (r2 * r2 ** 0.5)
        for k in range(3):
            want[round(fo + 8 * (foff + (3 + k) * stride + n1))] = "acceleration %d" % k, tot[k]
        for a, (v, i) in got.items():
            if a not in want:
                return ctx.bad("direct", f.name, i.loc, "%s: writes element %d of f" % (what, (a - fo) / 8))
        for a, (t, w) in want.items():
            if a not in got:
                return ctx.bad("direct", f.name, f.where, "%s: %s is not written" % (what, t))
            v, i = got[a]
            if abs(v - w) > 1e-3 * max(1, abs(w)):      # the body itself, with its huge factor, is among the terms
                return ctx.bad("direct", f.name, i.loc, "%s: %s is %g, not %g" % (what, t, v, w))
    ctx.ok("direct", f.name, f.where)


def free_path(f, x, y, bar):
    """a path from x to y without a barrier"""
    def run(b, k):
        # scan block b from instruction k: True if y is met, None if a barrier is met
        for i in f.blocks[b].insts[k:]:
            if (b, i.idx) in bar:
                return None
            if i is y:
                return True
        return False
    r = run(x.block.id, x.idx + 1)
    if r is not False:
        return bool(r)
    seen, todo = set(), list(f.blocks[x.block.id].succ)
    while todo:
        b = todo.pop()
        if b in seen:
            continue
        seen.add(b)
        r = run(b, 0)
        if r:
            return True
        if r is False:
            todo += f.blocks[b].succ
    return False


# ---- traversals

class KNode:
    def __init__(self, i):
        self.i = topoly(i)

    def at(self, f, k=0):
        return {"mc": A[5 + k], "mass": A[8], "r2": A[9]}[f] + self.i * 8

    def __call__(self, f, k=0):
        return ld(self.at(f, k))


class Walk(c19.Traverse):
    entry = 4.0

    def __init__(self, ctx, f):
        self.ctx, self.f, self.cls, self.S = ctx, f, "kernel", Sym(f)
        self.name = f.name
        self.heap = len(f.args) == 11
        i = G + A[0]
        if self.heap:
            self.idx = ld(A[10] + (i + A[1]) * 4, 4)
            self.v1 = [ld(A[5 + k] + (i + A[1]) * 8) for k in range(3)]
        else:
            self.idx = i
            self.v1 = [ld(A[3] + (i + A[1] * k) * 8) for k in range(3)]
        ctx.saw("functions", f.name)

    def current(self, i):
        a = self.S.load_addr(i)
        if single_atom(A[9]) not in a.atoms():
            return None
        return single_atom((a - A[9]) * Fraction(1, 8))

    def nargs(self):
        return len(self.f.args)

    def export(self):
        S, f, ctx = self.S, self.f, self.ctx
        self.out = {}
        e, b = cells.all_effects(S)
        want = {}
        for k in range(3):
            want["r", k] = A[4] + (self.idx + A[1] * k) * 8
            want["v", k] = A[4] + (self.idx + A[1] * (3 + k)) * 8
        for i, a, v in c19.writes(S):
            if self.local(a):
                continue
            if f.loop_chain(i.block.id):
                raise pit.Undecidable("result written in the loop")
            w = [q for q, x in want.items() if pit.equal(c19.plain(a), x, seed=ctx.seed) == "equal"]
            if not w:
                raise Wrong(i.loc, "writes %s, which is no element of the result of this body" % show(a)[:200])
            if w[0][0] == "v":
                self.out[8 * w[0][1]] = (i, v())
            else:
                src = ld(A[3] + (self.idx + A[1] * (3 + w[0][1])) * 8)
                if pit.equal(c19.plain(v()), src, seed=ctx.seed) == "different":
                    raise Wrong(i.loc, "the derivative of coordinate %d is %s, not the velocity" % (w[0][1], show(v())[:200]))
            want.pop(w[0])
        if want:
            raise Wrong(f.where, "%d elements of the result are not written" % len(want))

    def node(self):
        return KNode(P({((self.cur, Fraction(1)),): Fraction(1)}))

    def pos(self):
        return self.v1

    def factor(self, V):
        return 1.0

    def sizes(self, V, cur, size):
        V.fix[self.cur] = float(cur)
        V.fix[single_atom(A[2])] = float(size)
        V.fix[single_atom(A[1])] = size / 2.0
        V.fix[single_atom(G)] = 1.0
        V.fix[single_atom(A[0])] = 0.0
        for k in range(len(self.f.args)):
            if kind(self.f, k) == "p":
                V.fix[single_atom(A[k])] = 1e6 * (k + 1)
        # the body is not the node it looks at
        if self.heap and size // 2 + 1 == cur:
            V.fix[single_atom(G)] = 0.0


class Wrong(Exception):
    pass


def traverse(ctx, f):
    if not f.loops:
        return ctx.bad("visit", f.name, f.where, "the kernel has no loop: it cannot visit more than a fixed number of nodes")
    try:
        Walk(ctx, f).run()
    except Wrong as x:
        ctx.bad("force", f.name, x.args[0], x.args[1])


# ---- how the engine launches them

ENG, DATA = "nbody_engine_opencl", "nbody_engine_opencl::data"
KEEP = ("--keep=nbody_space_heap::build," + ",".join(ENG + "::" + x for x in ("fcompute_bh_impl", "data::update_tree", "data::rebuild_tree", "synchronize_f", "synchronize_y", "synchronize_sum", "fill_buffer", "read_buffer", "write_buffer")),)
CM, BMIN, BMAX = (["%s_cm%s" % (p, c) for c in "xyz"] for p in ("m_tree", "m_bmin", "m_bmax"))
LAUNCH = {
    "fcompute": {"ComputeBlockLocal": (["off", 0, "m_mass", "arg2", "arg3", 0, 0, "N", "N"], "chunk")},
    "fcompute_bh_impl": {k: (["off", "N", "T", "arg2", "arg3"] + CM + ["m_tree_mass", "m_tree_r2"] + (["m_indites"] if "Heap" in k else []), "chunk")
                         for k in ("ComputeTreeBH", "ComputeTreeBHSL", "ComputeHeapBH", "ComputeHeapBHSL")},
    "data::update_tree": {"UpdateLeafBH": (["N", "arg1"] + CM + BMIN + BMAX + ["m_indites"], "N"),
                          "UpdateNodeBH": (["level"] + CM + BMIN + BMAX + ["m_tree_mass", "m_tree_r2", "ratio2"], "level")},
    "clamp": {"ClampCoord": (["arg1", "=arg2", "N"], "N")},
    "fill_buffer": {"fill": (["arg1", "*arg2"], None)},
    "fmadd_inplace": {"fmadd_inplace": (["off6", "arg1", "arg2", "*arg3"], "chunk6")},
    "fmadd": {"fmadd": (["arg1", "arg2", "arg3", "*arg4", "off6", "off6", "off6"], "chunk6")},
    "fmaddn_corr": {"fmadd_inplace_corr": (["off6", "arg1", "arg2", "vec", "coef"], "chunk6")},
    "fmaxabs": {"fmaxabs": (["arg1", "off6", "end6", None, "roff"], "blocks")},
}


class Flow(Unroll):
    """the local containers (of events) are taken to be empty"""
    mem = {}

    def _atom(self, a):
        k = akey(a)
        if k[0] == "ld" and self.mem:
            x = self.ev(k[1])
            if x in self.mem:
                return self.mem[x]
        if k[0] == "ld" and len(k) > 3 and k[3] != 0:
            for x in k[1].atoms():
                if akey(x)[0] == "alloca" and any(t in str(self.S.f.insts[akey(x)[2]].d.get("aty")) for t in ("std::vector", "class.Q", "cl::")):
                    return 0.0
        return Unroll._atom(self, a)


class Host:
    def __init__(self, ctx, mod):
        self.ctx, self.mod = ctx, mod
        self.fld = {n: o for o, n, *_ in mod.fields_flat(DATA)}
        self.d = [o for o, n, *_ in mod.fields_flat(ENG) if n == "d"][0]
        self.size = [o for o, n, *_ in mod.fields_flat(ENG + "::smemory") if n == "m_size"][0]
        self.buf = [o for o, n, *_ in mod.fields_flat(ENG + "::smemory") if n == "m_buffers"][0]
        self.names = self.kernel_names()

    def kernel_names(self):
        """member of devctx -> name of the kernel"""
        f = [x for x in self.mod.funcs.values() if x.short == DATA + "::devctx::devctx" and len(x.args) == 4][0]
        S, out, last = Sym(f), {}, {}
        for i in f.all():
            if i.op not in ("call", "invoke") or not i.callee:
                continue
            c = self.mod.callee_short(i)
            if c.startswith("std::__cxx11::basic_string") and len(i.ops) > 1:
                t = S.cstring(i.ops[1])
                if t is not None:
                    last[single_atom(S.ev(i.ops[0]))] = t
            elif "make_kernel<" in c and c.endswith("::make_kernel") and len(i.ops) >= 3:
                off = (S.ev(i.ops[0]) - A[0]).const()
                t = last.get(single_atom(S.ev(i.ops[2])))
                if off is None or t is None:
                    raise pit.Undecidable("kernel of member at %s" % show(S.ev(i.ops[0])))
                out[int(off)] = (t, c[c.index("<") + 1:c.rindex(">")].split(", "), i)
        return out

    def signatures(self, kernels):
        for off, (t, ty, i) in sorted(self.names.items()):
            want = PARAMS.get(t)
            name = "signature of " + t
            if t not in kernels:
                self.ctx.bad("launch", name, i.loc, "there is no kernel %s" % t)
            elif want:
                got = "".join({"int": "i", "cl::Buffer": "b", "double": "d", "double const": "d", "const double": "d"}.get(x, "?") for x in ty)
                self.ctx.decide("equal" if got == want.replace("n", "b") else "different", "launch", name, i.loc, "the kernel takes %s, the engine passes %s" % (want, got))

    def launches(self, f, S):
        out = []
        for i in f.all():
            if i.op in ("call", "invoke") and i.callee:
                c = self.mod.callee_short(i)
                if "make_kernel<" in c and c.endswith("::operator()"):
                    out.append(i)
        return out

    def made(self, f, S, i, op, what):
        """the last call of a constructor `what` for the object op before i"""
        best = None
        for j in f.all():
            if j.op in ("call", "invoke") and j.callee and j.ops and S.ev(j.ops[0]) == op and (j.block.id == i.block.id and j.idx < i.idx or j.block.id != i.block.id and f.dominates(j.block.id, i.block.id)):
                c = j.callee
                if what == "copy" and c.startswith("llvm.memcpy") or what != "copy" and self.mod.callee_short(j) == what:
                    best = j
        return best

    def range(self, f, S, i):
        e = self.made(f, S, i, S.ev(i.ops[2]), "cl::EnqueueArgs::EnqueueArgs")
        if e is None or len(e.ops) < 4:
            return None
        r = S.ev(e.ops[2])
        c = self.made(f, S, e, r, "copy")
        if c is not None:
            r = S.ev(c.ops[1])
        n = self.made(f, S, e, r, "cl::NDRange::NDRange")
        return S.ev(n.ops[1]) if n is not None and len(n.ops) == 2 else None

    def val(self, f, seed, N, D):
        """N bodies, D devices, blocks of 64"""
        V = pit.Valuation(("h", seed, N, D), ())
        self.data = d = A[0] if f.short.startswith(DATA) else ld(A[0] + self.d)
        fix = lambda p, v: V.fix.__setitem__(single_atom(p), float(v))
        fix(ld(d + self.fld["m_devices"]), 1e7)
        fix(ld(d + self.fld["m_devices"] + 8), 1e7 + self.step * D)
        fix(ld(d + self.fld["m_block_size"], 4), B)
        fix(ld(ld(d + self.fld["m_data"])), N)
        if f.short.endswith("update_tree"):
            fix(A[2], N)
        return V

    def run(self):
        ctx, mod = self.ctx, self.mod
        self.step = max(self.names) + 8
        for m, ks in LAUNCH.items():
            fs = [x for x in mod.funcs.values() if x.short == ENG + "::" + m]
            if len(fs) != 1:
                ctx.undecided("launch", m, "", "%d functions" % len(fs))
                continue
            ctx.guard("launch", m, lambda: self.method(fs[0], m, ks), fs[0].where)

    def method(self, f, m, ks):
        ctx = self.ctx
        S = Sym(f)
        seen = set()
        for i in self.launches(f, S):
            cs = [(False, True)] if "bh_impl" in m else [(None,)]
            for flag in cs[0]:
                k = self.launch(f, S, i, m, ks, flag)
                if k is None:
                    return
                seen.add(k)
        miss = set(ks) - seen
        if miss:
            return ctx.bad("launch", m, f.where, "kernel %s is never launched" % ", ".join(sorted(miss)))
        ctx.ok("launch", m, f.where)

    def launch(self, f, S, i, m, ks, flag):
        ctx = self.ctx
        if len(S.f.loop_chain(i.block.id)) < 1:
            raise pit.Undecidable("launch outside a loop over the devices")
        dev = max(f.loop_chain(i.block.id), key=lambda h: len(f.loop_chain(h)))
        iv = single_atom(S.iv(dev))
        name = None
        for N, D in ((128, 1), (128, 2), (768, 4), (320, 5)):
            on = set()
            for dn in range(D):
                V = self.val(f, (ctx.seed, flag), N, D)
                V.fix[iv] = float(dn)
                if flag is not None:
                    V.fix[single_atom(A[7])] = float(flag)
                off = V.ev(S.ev(i.ops[1])) - 1e7
                dn = round(off) // self.step
                off -= self.step * dn
                if round(off) not in self.names:
                    ctx.bad("launch", m, i.loc, "no kernel at offset %g" % off)
                    return None
                on.add(dn)
                k = self.names[round(off)][0]
                if k not in ks or name not in (None, k):
                    ctx.bad("launch", m, i.loc, "kernel %s is launched" % k)
                    return None
                name = k
                if V.rnd(V.ev(S.trip(dev))) != D:
                    ctx.bad("launch", m, i.loc, "kernel %s is launched on %d of %d devices" % (k, V.rnd(V.ev(S.trip(dev))), D))
                    return None
                if flag is not None and k not in (("ComputeTreeBHSL", "ComputeHeapBHSL") if flag else ("ComputeTreeBH", "ComputeHeapBH")):
                    ctx.bad("launch", m, i.loc, "stackless %s: kernel %s is launched" % (flag, k))
                    return None
                if flag is not None:
                    for q in conjuncts(S.pathcond(i.block.id)):
                        if single_atom(A[5]) in {a for p in polys(q) for a in p.atoms(deep=True)}:
                            V.fix[single_atom(A[5])] = 1.0
                            if V.cond(q) != ("Tree" in k):
                                ctx.bad("launch", m, i.loc, "kernel %s is launched for the other kind of traversal" % k)
                                return None
                args, rng = ks[k]
                if len(i.ops) - 3 != len(args):
                    raise pit.Undecidable("%d arguments" % (len(i.ops) - 3))
                six = 6 * N // D
                num = {"off": dn * (N // D), "N": N, "off6": dn * six, "end6": dn * six + six, "roff": dn * (6 * N // B // D), "chunk": N // D, "chunk6": six, "blocks": -(-six // B)}
                for n, w in enumerate(args):
                    if w is None:
                        continue
                    g = S.ev(i.ops[3 + n])
                    what = "%d bodies, device %d of %d: argument %d of %s" % (N, dn, D, n + 1, k)
                    if isinstance(w, int) or w in num:
                        want = w if isinstance(w, int) else num[w]
                    elif w == "level":
                        h = [a for a in g.atoms(deep=True) if akey(a)[0] == "acc"]
                        if len(h) == 1:
                            V.fix[h[0]] = 48.0
                        level = V.ev(g)
                        continue
                    elif w == "T":
                        want = V.ev(udiv(ld(self.data + self.fld["m_heap"] + 56) - ld(self.data + self.fld["m_heap"] + 48), topoly(8)))
                    elif w == "ratio2":
                        want = V.ev(A[3] * A[3])
                    elif w == "coef" or w == "vec":
                        ivs = [h for h in f.loop_chain(i.block.id) if h != dev]
                        if len(ivs) != 1:
                            raise pit.Undecidable("loop over the terms")
                        V.fix[single_atom(S.iv(ivs[0]))] = 3.0
                        want = V.ev(ld(A[4] + 24)) if w == "coef" else ("buffer", ld(ld(A[3]) + 24))
                    elif w[0] in "=*":
                        want = V.ev(atom("arg", int(w[-1]))) if w[0] == "=" else V.ev(ld(atom("arg", int(w[-1]))))
                    else:
                        want = "buffer", atom("arg", int(w[3:])) if w.startswith("arg") else ld(self.data + self.fld[w])
                    if isinstance(want, tuple):
                        c = self.made(f, S, i, g, "cl::Buffer::Buffer")
                        if c is None or len(c.ops) != 2:
                            raise pit.Undecidable("buffer of argument %d" % (n + 1))
                        if abs(V.ev(S.ev(c.ops[1])) - V.ev(ld(want[1] + self.buf)) - 8 * dn) > 1e-6:
                            ctx.bad("launch", m, c.loc or i.loc, "%s is %s, not %s on this device" % (what, show(S.ev(c.ops[1]))[:150], w))
                            return None
                    elif abs(V.ev(g) - want) > 1e-6 * max(1, abs(want)):
                        ctx.bad("launch", m, i.loc, "%s is %g, not %g" % (what, V.ev(g), want))
                        return None
                if rng:
                    r = self.range(f, S, i)
                    if r is None:
                        ctx.undecided("launch", m + ": work items", i.loc, "range not resolved")
                        continue
                    # the only range read back is the local one
                    for a in r.atoms(deep=True):
                        if akey(a)[0] == "ld" and any(akey(x)[0] == "call" and "NDRange" in str(akey(x)[1]) for x in akey(a)[1].atoms(deep=True)):
                            V.fix[a] = float(B)
                    got = V.ev(r)
                    want = level if rng == "level" else num[rng]
                    if got < want - 1e-6 if rng in ("level", "blocks") else abs(got - want) > 1e-6:
                        ctx.bad("launch", m, i.loc, "%d bodies, %d devices: %s is launched with %g work items, not %g" % (N, D, k, got, want))
                        return None
            if on != set(range(D)):
                ctx.bad("launch", m, i.loc, "%d devices: kernel %s is launched on devices %s" % (D, name, sorted(on)))
                return None
        return name

    def events(self, f, S, V, names):
        """the launches and the calls of the methods `names` in the order in which they are passed, with the forms of their arguments evaluated"""
        out = []
        launches = {i.id for i in self.launches(f, S)}

        def visit(b):
            V.memo.clear()
            for i in f.blocks[b].insts:
                if i.id in launches:
                    off = V.ev(S.ev(i.ops[1])) - 1e7
                    try:
                        T = V.ev(S.ev(i.ops[5]))
                    except (pit.Undecidable, IndexError, ZeroDivisionError):
                        T = None
                    out.append((self.names.get(round(off) % self.step, "?")[0], round(off) // self.step, T, i))
                elif i.op in ("call", "invoke"):
                    v = None if i.callee else S.vcall(i)
                    c = self.mod.callee_short(i) if i.callee else ENG + "::" + str(v[1]) if v else ""
                    c = c[len(ENG) + 2:] if c.startswith(ENG + "::") else ""
                    if c in names:
                        out.append((c, [V.ev(S.ev(o)) for o in i.ops], i))
        V.walk(visit)
        return out

    CALLS = ("synchronize_y", "synchronize_f", "synchronize_sum", "fill_buffer", "data::rebuild_tree", "data::update_tree")

    def protocol(self, m):
        """what precedes and follows the launches"""
        f = [x for x in self.mod.funcs.values() if x.short == ENG + "::" + m][0]
        S = Sym(f)
        warm(f, S)
        tree = m != "fcompute"
        bad = lambda text: self.ctx.bad("protocol", m, f.where, text)
        for D in (1, 2, 3):
            for cyc, rate, step, empty, fresh in [(1, 1, 1, 0, 0)] if not tree else [(c, r, s, e, x) for c in (0, 1) for r, s in ((0, 1), (1, 7), (3, 6), (3, 7)) for e, x in ((0, 0), (1, 1))]:
                V = Flow(S, ("p", self.ctx.seed, D), limit=3000)
                V.fix.update(self.val(f, 0, 768, D).fix)
                fix = lambda p, v: V.fix.__setitem__(single_atom(p), float(v))
                for k in (2, 3):
                    fix(A[k], 1e5 * k)
                heap = self.data + self.fld["m_heap"]
                if tree:
                    fix(A[5], cyc), fix(A[6], rate), fix(A[7], 0)
                    fix(ld(self.data + self.fld["m_tree_cmx"]), 0 if fresh else 4e5)
                    for n in range(0, 96, 8):
                        fix(ld(heap + n), 5e6)
                    for n in range(8, 96, 24):
                        fix(ld(heap + n), 5e6 if empty else 5e6 + 8 * 1536)
                    for x in f.all():
                        if x.op == "load":
                            a = single_atom(S.inst(x))
                            if a is not None and akey(a)[0] == "ld" and (akey(a)[1] - ld(self.data + self.fld["m_data"])).const() == self.stepoff():
                                V.fix[a] = float(step)
                ev = self.events(f, S, V, self.CALLS)
                where = "%d devices%s" % (D, ", %s traversal, tree build rate %d, step %d%s" % ("tree" if cyc else "heap", rate, step, ", no tree yet" if fresh else "") if tree else "")
                ks = [n for n, e in enumerate(ev) if e[0] not in self.CALLS]
                if not ks:
                    raise pit.Undecidable(where + ": no kernel is launched")
                if sorted(ev[n][1] for n in ks) != list(range(D)):
                    raise pit.Undecidable("%s: kernels are launched on devices %s" % (where, [ev[n][1] for n in ks]))
                if tree and any(("Tree" in ev[n][0]) != bool(cyc) for n in ks):
                    return bad("%s: kernel %s is launched" % (where, ev[ks[0]][0]))
                T = ev[ks[0]][2]
                if tree and not empty and T not in (None, 1536.0):
                    return bad("%s: the kernels get tree size %g for 1536 nodes" % (where, T))
                before, after = ev[:ks[0]], ev[ks[-1] + 1:]
                has = lambda l, c, k, v: any(e[0] == c and abs(e[1][k] - v) < 1e-6 for e in l)
                if tree:
                    t = [n for n, e in enumerate(before) if e[0].startswith("data::") and abs(e[1][2 if "rebuild" in e[0] else 1] - 2e5) < 1e-6]
                    if not t:
                        return bad(where + ": the tree is neither rebuilt nor updated before the forces are computed")
                    if (rate == 0 or empty or step % rate == 0) and not any("rebuild" in before[n][0] for n in t):
                        return bad(where + ": the tree is not rebuilt")
                    sync = before[:t[0]]
                else:
                    sync = before
                if D > 1 and not has(sync, "synchronize_y", 1, 2e5):
                    return bad(where + ": the state is not exchanged between the devices before it is used")
                if tree and not cyc and not any(e[0] == "fill_buffer" and abs(e[1][1] - 3e5) < 1e-6 for e in before):
                    return bad(where + ": the result is not cleared before the devices fill in their bodies")
                end = "synchronize_f" if not tree or cyc else "synchronize_sum"
                if D > 1 and not has(after, end, 1, 3e5):
                    return bad("%s: the result is not %s the devices afterwards" % (where, "collected from" if end[-1] == "f" else "summed over"))
                other = [e for e in after if e[0] in ("synchronize_f", "synchronize_sum", "fill_buffer") and e[0] != end and abs(e[1][1] - 3e5) < 1e-6 and (D > 1 or e[0] == "fill_buffer")]
                if other:
                    return bad("%s: %s follows the launches" % (where, other[0][0]))
        self.ctx.ok("protocol", m, f.where)

    def stepoff(self):
        return [o for o, n, *_ in self.mod.fields_flat("nbody_data") if n == "m_step"][0]

    def terms(self):
        """one launch per device for every coefficient that is not zero"""
        f = [x for x in self.mod.funcs.values() if x.short == ENG + "::fmaddn_corr"][0]
        S = Sym(f)
        warm(f, S)
        for c in ([1.5, -2, 0.25], [1.5, 0, 0.25], [0, 3, 0, 2], [0, 0], []):
            V = Flow(S, ("t", self.ctx.seed), limit=300)
            V.fix.update(self.val(f, 0, 768, 2).fix)
            for k in (1, 2):
                V.fix[single_atom(A[k])] = 1e5 * k
            V.fix[single_atom(A[4])], V.fix[single_atom(A[5])] = 3e6, float(len(c))
            V.fix[single_atom(ld(A[3]))], V.fix[single_atom(ld(A[3] + 8))] = 4e6, 4e6 + 8 * 5
            V.mem = {3000000 + 8 * k: float(x) for k, x in enumerate(c)}
            got = []
            launches = {i.id for i in self.launches(f, S)}

            def visit(b):
                V.memo.clear()
                for i in f.blocks[b].insts:
                    if i.id in launches:
                        got.append((round(V.ev(S.ev(i.ops[1])) - 1e7) // self.step, V.ev(S.ev(i.ops[-1]))))
            V.walk(visit)
            want = [(d, float(x)) for x in c for d in range(2) if x]
            if sorted(got) != sorted(want):
                return self.ctx.bad("protocol", "fmaddn_corr", f.where, "coefficients %s on 2 devices: launched (device, coefficient) %s" % (c, got))
        self.ctx.ok("protocol", "fmaddn_corr", f.where)

    def call(self, f, S, name):
        out = []
        for i in f.all():
            if i.op in ("call", "invoke"):
                v = None if i.callee else S.vcall(i)
                c = self.mod.callee_short(i) if i.callee else ENG + "::" + str(v[1]) if v else ""
                if c == name:
                    out.append(i)
        return out

    def biggest(self):
        """fmaxabs: the result is the biggest of the values that the work groups leave"""
        f = [x for x in self.mod.funcs.values() if x.short == ENG + "::fmaxabs"][0]
        S = Sym(f)
        warm(f, S)
        rd = self.call(f, S, ENG + "::read_buffer")
        st = [i for i in f.all() if i.op == "store" and S.ev(i.ops[1]) == A[2]]
        if len(rd) != 1 or len(st) != 1:
            raise pit.Undecidable("%d reads, %d results" % (len(rd), len(st)))
        for N in (64, 192):
            n = 6 * N // B
            for at in range(n):
                V = Flow(S, ("m", self.ctx.seed), limit=300)
                V.fix.update(self.val(f, 0, N, 1).fix)
                V.fix[single_atom(A[1])] = 1e5
                V.fix[single_atom(S.ev(rd[0].ops[1]))] = 7e6
                V.mem = {7e6 + 8 * k: 100.0 if k == at else float(k * 5 % 7) for k in range(n)}
                V.mem.update({7e6 + 8 * n: 1000.0, 7e6 - 8: 1000.0})
                got = V.ev(S.ev(st[0].ops[0]))
                if got != 100.0:
                    return self.ctx.bad("upload", "fmaxabs", st[0].loc, "%d bodies: value %d of the %d that the kernel leaves is the biggest, the result is another one" % (N, at, n))
        self.ctx.ok("upload", "fmaxabs", f.where)

    def filled(self):
        f = [x for x in self.mod.funcs.values() if x.short == ENG + "::fill_buffer"][0]
        S = Sym(f)
        l = self.launches(f, S)
        r = self.range(f, S, l[0]) if len(l) == 1 else None
        if r is None:
            raise pit.Undecidable("range")
        for n in (1, 5, 64, 65, 384, 1000):
            V = self.val(f, 0, 128, 1)
            V.fix[single_atom(ld(A[1] + self.size))] = 8.0 * n
            got = V.ev(r)
            if not n <= got <= -(-n // 64) * 64:
                return self.ctx.bad("upload", "fill_buffer", l[0].loc, "a buffer of %d values is filled by %g work items" % (n, got))
        self.ctx.ok("upload", "fill_buffer", f.where)

    def upload(self):
        """rebuild_tree: which arrays of the heap become which buffers"""
        f = [x for x in self.mod.funcs.values() if x.short == DATA + "::rebuild_tree"][0]
        S = Sym(f)
        warm(f, S)
        ctx, name = self.ctx, "data::rebuild_tree"
        hf = {n: o for o, n, *_ in self.mod.fields_flat("nbody_space_heap")}
        d, hp = A[0], A[0] + self.fld["m_heap"]
        V = Unroll(S, ("u", ctx.seed), limit=3000)
        fix = lambda p, v: V.fix.__setitem__(single_atom(p), float(v))
        for k in range(1, 4):
            fix(A[k], 1e5 * k)
        T = 48
        fix(A[3], T // 2)
        for k, (n, o) in enumerate(sorted(hf.items())):
            if n != "m_distance_to_node_radius_ratio_sqr":
                fix(ld(hp + o), 1e8 * (k + 1))
                fix(ld(hp + o + 8), 1e8 * (k + 1) + T * (8 if n in ("m_mass", "m_radius_sqr", "m_body_n") else 24))
        mem = {}
        for k, (n, o) in enumerate(sorted(self.fld.items())):
            if n.startswith(("m_tree_", "m_bmin", "m_bmax", "m_indites", "m_mass")):
                fix(ld(d + o), 1e6 + 1000 * k)
                mem[1e6 + 1000 * k] = n
        bld, rd, wr = (self.call(f, S, x) for x in ("nbody_space_heap::build", ENG + "::read_buffer", ENG + "::write_buffer"))
        if len(bld) != 1:
            raise pit.Undecidable("%d calls of build" % len(bld))
        before = lambda i, j: i.block.id == j.block.id and i.idx < j.idx or i.block.id != j.block.id and f.dominates(i.block.id, j.block.id)
        src = {}
        for i in rd:
            if before(i, bld[0]):
                v = V.ev(S.ev(i.ops[2]))
                src["y" if abs(v - 2e5) < 1e-6 else mem.get(v)] = S.ev(i.ops[1])
        for w, k in (("y", 2), ("m_mass", 5)):
            if w not in src:
                for o, g in src.items():
                    if g == S.ev(bld[0].ops[k]):
                        return ctx.bad("upload", name, bld[0].loc, "the tree is built from %s where it needs %s" % (o, w))
                raise pit.Undecidable("%s is not read before the tree is built" % w)
        want = [hp, A[3], src["y"], src["y"] + A[3] * 8, src["y"] + A[3] * 16, src["m_mass"], A[4]]
        for k, (g, w) in enumerate(zip(bld[0].ops, want)):
            if abs(V.ev(S.ev(g)) - V.ev(w)) > 1e-6:
                return ctx.bad("upload", name, bld[0].loc, "argument %d of build is %s" % (k, show(S.ev(g))[:100]))
        arr = {"m_tree_mass": "m_mass", "m_tree_r2": "m_radius_sqr"}
        seen = set()
        for i in wr:
            m = mem.get(V.ev(S.ev(i.ops[1])))
            if m is None or not before(bld[0], i):
                raise pit.Undecidable("write at %s" % i.loc)
            g = S.ev(i.ops[2])
            bad = None
            heap = [n for n, o in hf.items() if g == ld(hp + o)]
            if heap:
                if arr.get(m) != heap[0]:
                    bad = "the array %s" % heap[0]
            else:
                if single_atom(g) is None:
                    raise pit.Undecidable("source of %s" % m)
                w = {"m_tree_mass": (hf["m_mass"], 8, 0, 8), "m_tree_r2": (hf["m_radius_sqr"], 8, 0, 8), "m_indites": (hf["m_body_n"], 8, 0, 4)}
                w.update({"m_tree_cm" + c: (hf["m_mass_center"], 24, 8 * k, 8) for k, c in enumerate("xyz")})
                if m not in w:
                    raise pit.Undecidable("write of %s" % m)
                o, stride, k, sz = w[m]
                sts = [s for s in f.all() if s.op == "store" and f.loop_chain(s.block.id) and single_atom(g) in S.ev(s.ops[1]).atoms() and before_loop(f, s, i)]
                if len(sts) != 1:
                    raise pit.Undecidable("%d stores into the source of %s" % (len(sts), m))
                h = f.loop_chain(sts[0].block.id)[0]
                got = {}
                for it, (env, edge, x) in enumerate(V.run(h)):
                    if edge is not None:
                        break
                    keep = V.env
                    V.env = dict(keep)
                    V.env.update(env)
                    V.fix[V.iva(h)] = float(it)
                    V.memo.clear()
                    got[round(V.ev(S.ev(sts[0].ops[1]) - g) / sz)] = V.ev(S.ev(sts[0].ops[0]))
                    V.env = keep
                V.fix.pop(V.iva(h), None)
                V.memo.clear()
                for n in range(T):
                    if n not in got:
                        bad = "nothing for node %d of %d" % (n, T)
                        break
                    x = V.ev(ld(ld(hp + o) + stride * n + k))
                    if got[n] != x:
                        bad = "another value for node %d" % n
                        break
            if bad:
                return ctx.bad("upload", name, i.loc, "the buffer %s receives %s" % (m, bad))
            seen.add(m)
        miss = [m for m in CM + ["m_tree_mass", "m_tree_r2", "m_indites"] if m not in seen]
        if miss:
            return ctx.bad("upload", name, f.where, "the buffer %s is not written" % miss[0])
        ctx.ok("upload", name, f.where)

    def options(self):
        f = [x for x in self.mod.funcs.values() if x.short == ENG + "_bh::fcompute"][0]
        S = Sym(f)
        cs = self.call(f, S, ENG + "::fcompute_bh_impl")
        if len(cs) != 1 or len(cs[0].ops) != 8:
            raise pit.Undecidable("%d calls" % len(cs))
        fl = {n: o for o, n, *_ in self.mod.fields_flat(ENG + "_bh")}
        for tt, tl in [(a, b) for a in (0, 1) for b in (0, 1, 2)]:
            V = pit.Valuation(("o", self.ctx.seed), ())
            V.fix[single_atom(ld(A[0] + fl["m_traverse_type"], 4))] = float(tt)
            V.fix[single_atom(ld(A[0] + fl["m_tree_layout"], 4))] = float(tl)
            want = [V.ev(A[k]) for k in range(4)] + [V.ev(ld(A[0] + fl["m_distance_to_node_radius_ratio"])), float(tt == 0), V.ev(ld(A[0] + fl["m_tree_build_rate"])), float(tl == 2)]
            for k, w in enumerate(want):
                g = S.ev(cs[0].ops[k])
                if abs(V.ev(g) - w) > 1e-9 * max(1, abs(w)):
                    return self.ctx.bad("protocol", "nbody_engine_opencl_bh::fcompute", cs[0].loc, "traverse type %d, layout %d: argument %d is %s" % (tt, tl, k, show(g)[:100]))
        self.ctx.ok("protocol", "nbody_engine_opencl_bh::fcompute", f.where)

    # -- commands that the devices carry out later, and the exchange of buffers between them

    def commands(self, f, S, V):
        """[("do", instruction, {what}, event) | ("push", vector, event) | ("wait", vector) | ("sync",) | ("call", name, arguments)] in the order of the flow"""
        out = []
        launches = {i.id for i in self.launches(f, S)}
        arrays = {}

        def visit(b):
            V.memo.clear()
            for i in f.blocks[b].insts:
                if i.op == "store":
                    a = S.ev(i.ops[1])
                    for x in a.atoms():
                        if akey(x)[0] == "alloca" and (a - P({((x, Fraction(1)),): Fraction(1)})).const() is not None:
                            try:
                                arrays[x, int((a - P({((x, Fraction(1)),): Fraction(1)})).const())] = V.ev(S.ev(i.ops[0]))
                            except (pit.Undecidable, ZeroDivisionError):
                                arrays.pop((x, int((a - P({((x, Fraction(1)),): Fraction(1)})).const())), None)
                if i.op not in ("call", "invoke"):
                    continue
                v = None if i.callee else S.vcall(i)
                c = self.mod.callee_short(i) if i.callee else ENG + "::" + str(v[1]) if v else ""
                at = lambda k: V.ev(S.ev(i.ops[k]))
                key = lambda k: single_atom(S.ev(i.ops[k]))
                arr = lambda k: [arrays[key(k), o] for o in (0, 8, 16)]
                if i.id in launches:
                    off = at(1) - 1e7
                    out.append(("do", i, ("kernel", self.names.get(round(off) % self.step, "?")[0], round(off) // self.step), key(0)))
                elif c == "cl::CommandQueue::enqueueCopyBuffer":
                    out.append(("do", i, ("copy", at(1), at(2), [(at(3), at(4), at(5))]), key(7)))
                elif c == "cl::CommandQueue::enqueueCopyBufferRect":
                    a, q, r = arr(3), arr(4), arr(5)
                    rp, qp = at(6) or r[0], at(8) or r[0]
                    if a[2] or q[2] or r[2] != 1:
                        raise pit.Undecidable("slices")
                    out.append(("do", i, ("copy", at(1), at(2), [(a[0] + (a[1] + n) * rp, q[0] + (q[1] + n) * qp, r[0]) for n in range(V.rnd(r[1]))]), key(11)))
                elif c == "cl::CommandQueue::enqueueReadBuffer":
                    out.append(("do", i, ("copy", at(1), None, [(at(3), (key(5), S.ev(i.ops[5])), at(4))]), key(7)))
                elif c == "cl::CommandQueue::enqueueReadBufferRect":
                    a, q, r = arr(3), arr(4), arr(5)
                    rp, qp = at(6) or r[0], at(8) or r[0]
                    out.append(("do", i, ("copy", at(1), "host", [(a[0] + (a[1] + n) * rp, q[0] + (q[1] + n) * qp, r[0]) for n in range(V.rnd(r[1]))]), key(12)))
                elif c == "cl::CommandQueue::enqueueWriteBuffer":
                    out.append(("do", i, ("write", at(1), at(3), at(4), S.ev(i.ops[5])), key(7)))
                elif c.startswith("std::vector<cl::Event,") and c.rsplit("::", 1)[-1].split("<")[0] in ("push_back", "emplace_back"):
                    out.append(("push", key(0), key(1)))
                elif c == "cl::Event::waitForEvents":
                    out.append(("wait", key(0)))
                elif c in ("cl::CommandQueue::finish", "cl::Event::wait"):
                    out.append(("sync",))
                elif c.startswith(ENG + "::"):
                    out.append(("call", c[len(ENG) + 2:], i))
        V.walk(visit)
        return out

    def empty(self, f, S, vec):
        """a vector that nothing is put into"""
        me = P({((vec, Fraction(1)),): Fraction(1)})
        for i in f.all():
            if i.op == "store" and vec in S.ev(i.ops[1]).atoms():
                return False
            if i.op in ("call", "invoke") and any(o and S.ev(o) == me for o in i.ops):
                c = (self.mod.callee_short(i) if i.callee else "?").rsplit("::", 1)[-1]
                if c not in ("vector", "~vector", "waitForEvents", "print_profile_info", "reserve") and not c.startswith("llvm.") or c == "vector" and len(i.ops) != 1:
                    return False
        return True

    def batches(self, f, S, cs):
        """the commands in groups that are completed together; None for one that is never waited for"""
        out, last, pend, vec = [], {}, [], {}
        push = any(c[0] == "push" for c in cs)
        for c in cs:
            if c[0] == "do":
                pend.append(c)
                last[c[3]] = c
            elif c[0] == "push" and c[2] in last:
                vec.setdefault(c[1], []).append(last[c[2]])
            elif c[0] in ("wait", "sync"):
                done = vec.pop(c[1], []) if c[0] == "wait" and (push or self.empty(f, S, c[1])) else list(pend)
                out.append(("batch", [x for x in pend if any(x is y for y in done)]))
                pend = [x for x in pend if not any(x is y for y in done)]
            elif c[0] == "call":
                out.append(c + (list(pend),))
        return out, pend

    WAIT = ("fcompute", "fcompute_bh_impl", "data::update_tree", "clamp", "fill_buffer", "fmadd_inplace", "fmadd", "fmaddn_corr", "fmaxabs", "read_buffer", "write_buffer", "copy_buffer", "synchronize_y", "synchronize_f", "synchronize_sum")

    def flow(self, m, D, same):
        f = [x for x in self.mod.funcs.values() if x.short == ENG + "::" + m][0]
        S = Sym(f)
        warm(f, S)
        V = Flow(S, ("x", self.ctx.seed, D), limit=3000)
        V.fix.update(self.val(f, 0, 8 * D if m[:4] in ("sync", "read", "writ", "copy") else 64 * D, D).fix)
        fix = lambda p, v: V.fix.__setitem__(single_atom(p), float(v))
        n = 0
        for k, a in enumerate(f.args):
            if a["ty"] == "ptr" and k:
                fix(A[k], 1e5 * k)
                fix(ld(A[k] + self.size), 8 * 6 * 8 * D)
                fix(ld(A[k] + self.buf), 1e6 * k)
        o = self.fld.get("m_all_in_same_context")
        if o is None:
            raise pit.Undecidable("m_all_in_same_context")
        for x in f.all():
            if x.op == "load":
                a = single_atom(S.inst(x))
                if a is not None and akey(a)[0] == "ld" and akey(a)[1] == self.data + o:
                    V.fix[a] = float(same)
        if "m_f_sync" in self.fld:
            fix(ld(self.data + self.fld["m_f_sync"]), 9e5)
            V.mem = {9e5 + self.buf: 9e6}
        return f, S, V

    def waits(self, m):
        """every command that is enqueued has been waited for when the method returns"""
        for D, same in ((1, 1), (2, 1), (2, 0)):
            f, S, V = self.flow(m, D, same)
            if m == "fcompute_bh_impl":
                for a, v in ((A[6], 1.0), (A[7], 0.0), (A[5], float(D == 1))):
                    V.fix[single_atom(a)] = v
            if m == "fmaddn_corr":
                V.fix[single_atom(A[5])] = 2.0
                V.mem = {4e5: 1.5, 4e5 + 8: 2.5}
                V.fix[single_atom(ld(A[3]))], V.fix[single_atom(ld(A[3] + 8))] = 4e7, 4e7 + 8 * 5
            if m == "data::update_tree":
                V.fix[single_atom(A[2])] = 128.0
            cs = self.commands(f, S, V)
            if not any(c[0] == "do" for c in cs) and not (m in ("copy_buffer", "synchronize_y") and not same or D == 1 and m.startswith("sync")):
                raise pit.Undecidable("no command")
            bs, left = self.batches(f, S, cs)
            if left:
                return self.ctx.bad("wait", m, left[0][1].loc, "%d devices: a command is enqueued (%s) and not waited for" % (D, left[0][2][0]))
        self.ctx.ok("wait", m, f.where)

    def exchange(self, m):
        """after the exchange every device holds every device's part (sum: every device's contribution once)"""
        bad = lambda i, t: self.ctx.bad("exchange", m, i.loc if i is not None else f.where, t)
        for D in (2, 4, 8):
            for same in (1, 0):
                f, S, V = self.flow(m, D, same)
                if m == "synchronize_sum" and not same:
                    continue
                bs, left = self.batches(f, S, self.commands(f, S, V))
                U = 6 * 8 * D                       # values in the buffer
                owner = [u // (6 * 8) if m == "synchronize_y" else u % (8 * D) // 8 for u in range(U)]
                A1 = 1e6
                state = {("f", d): [{d: 1}] * U for d in range(D)}
                state.update({("s", d): [{}] * U for d in range(D)})
                state["host"] = [{}] * U

                def dev(x):
                    for n, b in (("f", A1), ("s", 9e6)):
                        k = (x - b) / 8
                        if 0 <= k < 1000:
                            if k != int(k) or k >= D:
                                raise Wrong(None, "%d devices: the buffer of device %g is used" % (D, k))
                            return n, int(k)
                    raise pit.Undecidable("buffer")
                where = "%d devices %s" % (D, "in one context" if same else "in several contexts")
                gather = False
                try:
                    for x in bs:
                        if x[0] == "call":
                            if x[1] in ("read_buffer", "write_buffer") and x[3]:
                                return bad(x[2], "%s: %s is called before the commands are complete" % (where, x[1]))
                            if x[1] == "read_buffer" and abs(V.ev(S.ev(x[2].ops[2])) - 1e5) < 1e-6:
                                state["host"] = [state["f", u // 48][u] for u in range(U)]
                            elif x[1] == "write_buffer" and abs(V.ev(S.ev(x[2].ops[1])) - 1e5) < 1e-6:
                                for d in range(D):
                                    state["f", d] = list(state["host"])
                            continue
                        new, wrote, read = {k: list(v) for k, v in state.items()}, {}, {}
                        for c in x[1]:
                            i, w = c[1], c[2]
                            if w[0] == "kernel":
                                if w[1] != "fmadd_inplace":
                                    raise pit.Undecidable(w[1])
                                bufs = []
                                for k in (4, 5):
                                    b = self.made(f, S, i, S.ev(i.ops[k]), "cl::Buffer::Buffer")
                                    if b is None:
                                        raise pit.Undecidable("buffer")
                                    bufs.append((S.ev(b.ops[1]), b))
                                rg = self.range(f, S, i)
                                if rg is None:
                                    raise pit.Undecidable("range")
                                V.fix[V.iva(inner(f, i))] = float(w[2])
                                V.memo.clear()
                                a, b = (dev(V.ev(p)) for p, _ in bufs)
                                off, co, n = V.ev(S.ev(i.ops[3])), V.ev(S.ev(i.ops[6])), V.ev(rg)
                                V.fix.pop(V.iva(inner(f, i)), None)
                                V.memo.clear()
                                if off or n != U or co != 1:
                                    return bad(i, "%s: %g elements from %g are added, times %g" % (where, n, off, co))
                                if a[1] != w[2] or b[1] != w[2]:
                                    return bad(i, "%s: device %d adds buffers of other devices" % (where, w[2]))
                                for u in range(U):
                                    t = dict(new[a][u])
                                    for k, q in state[b][u].items():
                                        t[k] = t.get(k, 0) + q
                                    new[a][u] = t
                                continue
                            if w[0] != "copy" or w[2] is None:
                                raise pit.Undecidable(w[0])
                            s, t = dev(w[1]), "host" if w[2] == "host" else dev(w[2])
                            for so, to, n in w[3]:
                                if (so % 8 or to % 8 or n % 8) or so + n > 8 * U or to + n > 8 * U:
                                    return bad(i, "%s: %g bytes are copied from %g to %g of a buffer of %d" % (where, n, so, to, 8 * U))
                                for u in range(int(n) // 8):
                                    p, q = int(so) // 8 + u, int(to) // 8 + u
                                    if (t, q) in wrote or wrote.get((s, p)) or (t, q) in read:
                                        return bad(i, "%s: commands that are not ordered use the same element" % where)
                                    wrote[t, q] = read[s, p] = True
                                    new[t][q] = state[s][p]
                        state = new
                except Wrong as e:
                    return bad(None, e.args[1])
                want = (lambda u: {k: 1 for k in range(D)}) if m == "synchronize_sum" else (lambda u: {owner[u]: 1})
                for d in range(D):
                    for u in range(U):
                        if state["f", d][u] != want(u):
                            return bad(None, "%s: device %d ends with %s at element %d of %d, not %s" % (where, d, parts(state["f", d][u]), u, U, parts(want(u))))
        self.ctx.ok("exchange", m, f.where)

    def transfers(self, m):
        """read_buffer gathers the parts, write_buffer and copy_buffer treat all of the buffer on every device"""
        for D in (1, 2, 4):
            f, S, V = self.flow(m, D, 1)
            bs, left = self.batches(f, S, self.commands(f, S, V))
            size, got = 8 * 48 * D, []
            for x in [c for b in bs if b[0] == "batch" for c in b[1]]:
                i, w = x[1], x[2]
                h = inner(f, i)
                if m == "read_buffer":
                    if w[0] != "copy" or w[2] is not None:
                        raise pit.Undecidable(w[0])
                    so, to, n = w[3][0]
                    d = (w[1] - 2e6) / 8
                    V.fix[V.iva(h)] = float(d)
                    V.memo.clear()
                    dst = V.ev(to[1]) - 1e5
                    V.fix.pop(V.iva(h), None)
                    V.memo.clear()
                    if dst != so:
                        return self.ctx.bad("exchange", m, i.loc, "%d devices: element %g of device %g is read to element %g" % (D, so / 8, d, dst / 8))
                    got.append((d, so, n))
                elif m == "write_buffer":
                    if w[0] != "write":
                        raise pit.Undecidable(w[0])
                    if abs(V.ev(w[4]) - 2e5 - w[2]) > 1e-6:
                        return self.ctx.bad("exchange", m, i.loc, "the source is shifted")
                    got.append(((w[1] - 1e6) / 8, w[2], w[3]))
                else:
                    if w[0] != "copy" or w[2] in (None, "host") or len(w[3]) != 1 or w[3][0][0] != w[3][0][1] or (w[1] - 2e6) != (w[2] - 1e6):
                        return self.ctx.bad("exchange", m, i.loc, "other elements or buffers of another device are copied")
                    got.append(((w[1] - 2e6) / 8, w[3][0][0], w[3][0][2]))
            want = [(float(d), float(d * size // D), float(size // D)) if m == "read_buffer" else (float(d), 0.0, float(size)) for d in range(D)]
            if sorted(got) != want:
                return self.ctx.bad("exchange", m, f.where, "%d devices: (device, offset, bytes) %s, not %s" % (D, sorted(got), want))
        self.ctx.ok("exchange", m, f.where)

    def levels(self):
        """the launches of UpdateNodeBH: every inner node after both of its children, no leaf"""
        f = [x for x in self.mod.funcs.values() if x.short == DATA + "::update_tree"][0]
        S = Sym(f)
        warm(f, S)
        node = [i for i in self.launches(f, S) if len(i.ops) == 3 + len(PARAMS["UpdateNodeBH"])]
        if len(node) != 1:
            raise pit.Undecidable("%d launches" % len(node))
        for N in (64, 128, 192, 256, 320, 448, 576, 704, 1024, 1344):
            V = Unroll(S, ("l", N), limit=3000)
            V.fix.update(self.val(f, 0, N, 1).fix)
            seq = []

            def visit(b):
                if b == node[0].block.id:
                    V.memo.clear()
                    seq.append(V.rnd(V.ev(S.ev(node[0].ops[3]))))
            V.walk(visit)
            new = set(range(N, 2 * N))
            for L in seq:
                for x in range(L, 2 * L):
                    if x >= N:
                        return self.ctx.bad("levels", "update_tree", node[0].loc, "%d bodies: leaf %d is overwritten by level %d" % (N, x, L))
                    if 2 * x not in new or 2 * x + 1 not in new or 2 * x < 2 * L:
                        return self.ctx.bad("levels", "update_tree", node[0].loc, "%d bodies: node %d is updated (levels %s) before its children" % (N, x, seq))
                new |= set(range(L, 2 * L))
            miss = [x for x in range(1, N) if x not in new]
            if miss:
                return self.ctx.bad("levels", "update_tree", node[0].loc, "%d bodies: node %d is never updated (levels %s)" % (N, miss[0], seq))
        self.ctx.ok("levels", "update_tree", f.where)


def before_loop(f, s, i):
    h = f.loop_chain(s.block.id)[-1]
    return f.dominates(h, i.block.id)


def parts(x):
    return "nothing" if not x else ", ".join("%sthe data of device %s" % ("" if v == 1 else "%d times " % v, k) for k, v in sorted(x.items()))


def inner(f, i):
    return max(f.loop_chain(i.block.id), key=lambda h: len(f.loop_chain(h)))


def conjuncts(c):
    return [] if c is None else [x for q in c[1] for x in conjuncts(q)] if c[0] == "and" else [c]


def polys(c):
    return [q for x in c[1] for q in polys(x)] if c[0] in ("and", "or") else [x for x in c[1:] if isinstance(x, P)]


def host(ctx, kernels):
    H = Host(ctx, ir.load("seq", nbx_args=KEEP))
    H.signatures(kernels)
    H.run()
    for m in ("fcompute", "fcompute_bh_impl"):
        ctx.guard("protocol", m, lambda: H.protocol(m), "nbody/nbody_engine_opencl.cpp")
    ctx.guard("protocol", "fmaddn_corr", H.terms, "nbody/nbody_engine_opencl.cpp")
    ctx.guard("protocol", "nbody_engine_opencl_bh::fcompute", H.options, "nbody/nbody_engine_opencl_bh.cpp")
    ctx.guard("upload", "data::rebuild_tree", H.upload, "nbody/nbody_engine_opencl.cpp")
    ctx.guard("upload", "fmaxabs", H.biggest, "nbody/nbody_engine_opencl.cpp")
    ctx.guard("upload", "fill_buffer", H.filled, "nbody/nbody_engine_opencl.cpp")
    for m in H.WAIT:
        ctx.guard("wait", m, lambda: H.waits(m), "nbody/nbody_engine_opencl.cpp")
    for m in ("synchronize_y", "synchronize_f", "synchronize_sum"):
        ctx.guard("exchange", m, lambda: H.exchange(m), "nbody/nbody_engine_opencl.cpp")
    for m in ("read_buffer", "write_buffer", "copy_buffer"):
        ctx.guard("exchange", m, lambda: H.transfers(m), "nbody/nbody_engine_opencl.cpp")
    ctx.guard("levels", "update_tree", H.levels, "nbody/nbody_engine_opencl.cpp")


def run(ctx):
    ctx.rule("element", "a work item of fill, fmadd, fmadd_inplace, fmadd_inplace_corr, ClampCoord, UpdateLeafBH, UpdateNodeBH writes the specified elements with the specified values and nothing else")
    ctx.rule("maximum", "work item i of fmaxabs writes the largest absolute value of its block of the range, reading nothing outside the range, and nothing if the block is empty")
    ctx.rule("barrier", "between a write and a read of the local tile, in either order, every path passes a barrier, which all work items reach")
    ctx.rule("direct", "ComputeBlockLocal writes the velocities and the sum of the softened attraction of all bodies")
    ctx.rule("force", "one pass of a tree traversal adds the node's softened attraction if the body is farther than the critical radius and nothing otherwise; the totals and the velocity are the result")
    ctx.rule("visit", "a traversal starts at the root, goes on to both children of a near node, skips the subtree of a far one, and ends when no node is left")
    ctx.rule("launch", "the engine binds every kernel with the parameters it has, launches it on every device with that device's buffers, in the kernel's order, with offset and number of work items that make the devices share the elements")
    ctx.rule("protocol", "before the launches of a force kernel the devices exchange the state and the tree is rebuilt or updated, for the heap traversal the result is cleared; afterwards the parts are collected, or summed; a sum launches one kernel per device for every coefficient that is not zero")
    ctx.rule("upload", "the tree is built from the state and the masses and every device buffer of the tree receives its own array of it; fmaxabs returns the biggest of the values the kernel leaves; a buffer is filled completely")
    ctx.rule("wait", "every command that a method of the engine enqueues has been waited for when it returns")
    ctx.rule("exchange", "after synchronize_y and synchronize_f every device holds the part of every device, after synchronize_sum the sum of every device's contribution, by copies that are ordered (2, 4, 8 devices, one or several contexts); read_buffer gathers every device's part, write_buffer and copy_buffer treat the whole buffer on every device")
    ctx.rule("levels", "update_tree launches UpdateNodeBH for every inner node after both of its children, and for no leaf (64 to 1344 bodies)")
    for std in ("CL1.2", "CL2.0"):
        mod = ir.Module(build.kernels(std))
        for n, want in PARAMS.items():
            f = mod.funcs.get(n)
            if f is None:
                ctx.bad("element", n, "nbody/nbody_engine_opencl.cl", "there is no kernel %s" % n)
                continue
            if not matches(f, want):
                ctx.undecided("element", n, f.where, "parameters %s" % [a["ty"] for a in f.args])
                continue
            f.mod = mod
            ctx.saw("kernels", n + " (%s)" % std)
            if n.startswith("Compute") and n.endswith(("BH", "BHSL")):
                ctx.guard("force", n, lambda: traverse(ctx, f), f.where)
            elif n == "ComputeBlockLocal":
                ctx.guard("direct", n, lambda: direct(ctx, f, Sym(f)), f.where)
            elif n == "fmaxabs":
                ctx.guard("maximum", n, lambda: maximum(ctx, f, Sym(f)), f.where)
            else:
                ctx.guard("element", n, lambda: elementwise(ctx, f, Sym(f)), f.where)
    ctx.guard("launch", "host", lambda: host(ctx, mod.funcs), "nbody/nbody_engine_opencl.cpp")
