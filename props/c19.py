"""C19: Barnes-Hut trees (pointer tree and heap) and the engines that use them."""
import ir, sym, pit, cells
from unroll import Unroll
from poly import *
from sym import Sym
from cells import Cell

TREE, NODE, HEAP, SL = "nbody_space_tree", "nbody_space_tree::node", "nbody_space_heap", "nbody_space_heap_stackless"
KEEP = ("--keep=" + ",".join("%s::%s" % (c, m) for c in (TREE, HEAP, SL) for m in ("build", "rebuild", "traverse")),)
A = [atom("arg", k) for k in range(12)]
HALF = topoly(Fraction(1, 2))


def ld(a, sz=8):
    return atom("ld", topoly(a), sz, 0)


def plain(p):
    """loads that a store to another node might have changed are read as unchanged: a node is not its own child"""
    while True:
        mp = {}
        for a in p.atoms(deep=True):
            k = akey(a)
            if k[0] == "ld" and len(k) > 3 and k[3] != 0:
                mp[a] = ld(k[1], k[2])
        if not mp:
            return p
        q = subst(p, mp)
        if q == p:
            return p
        p = q


class Layout:
    def __init__(self, mod):
        self.mod = mod
        fl = lambda c: {n: o for o, n, *_ in self.flat(mod, c)}
        self.node, self.heap = fl(NODE), fl(HEAP)

    @staticmethod
    def flat(mod, c):
        out = []
        for x in mod.fields_flat(c):
            out.append(x)
        return out


class TNode:
    F = {"mc": "m_mass_center", "mass": "m_mass", "r2": "m_radius_sqr", "bmin": "m_bmin", "bmax": "m_bmax", "body": "m_body_n", "left": "m_left", "right": "m_right"}

    def __init__(self, lay, p):
        self.lay, self.p = lay, topoly(p)

    def at(self, f, k=0):
        return self.p + self.lay.node[self.F[f]] + 8 * k

    def __call__(self, f, k=0):
        return ld(self.at(f, k))


class HNode:
    F = {"mc": ("m_mass_center", 24), "mass": ("m_mass", 8), "r2": ("m_radius_sqr", 8), "bmin": ("m_box_min", 24), "bmax": ("m_box_max", 24), "body": ("m_body_n", 8)}

    def __init__(self, lay, this, i):
        self.lay, self.this, self.i = lay, topoly(this), topoly(i)

    def at(self, f, k=0):
        n, s = self.F[f]
        return ld(self.this + self.lay.heap[n]) + self.i * s + 8 * k

    def __call__(self, f, k=0):
        return ld(self.at(f, k))


def inner(N, L, R, ratio2):
    """cells of an inner node N with children L and R"""
    m = L("mass") + R("mass")
    out = [Cell(N.at("mass"), ONE, m, label="mass of an inner node")]
    c = [(L("mc", k) * L("mass") + R("mc", k) * R("mass")) * power(m, -1) for k in range(3)]
    lo = [minmax("min", [L("bmin", k), R("bmin", k)]) for k in range(3)]
    hi = [minmax("max", [L("bmax", k), R("bmax", k)]) for k in range(3)]
    d2, o2 = ZERO, ZERO
    for k in range(3):
        out += [Cell(N.at("mc", k), ONE, c[k], label="mass centre of an inner node"), Cell(N.at("bmin", k), ONE, lo[k], label="lower corner of an inner node"),
                Cell(N.at("bmax", k), ONE, hi[k], label="upper corner of an inner node")]
        d2 = d2 + (hi[k] - lo[k]) * (hi[k] - lo[k])
        o = (hi[k] + lo[k]) * HALF - c[k]
        o2 = o2 + o * o
    r = power(d2, Fraction(1, 2)) * HALF + power(o2, Fraction(1, 2))
    out.append(Cell(N.at("r2"), ONE, r * r * ratio2, label="squared opening radius of an inner node"))
    return out


def leaf(N, b, r, mass=None, whole=True):
    out = []
    for k in range(3):
        v = ld(r[k] + b * 8)
        out += [Cell(N.at(f, k), ONE, v, label="%s of a leaf" % t) for f, t in (("mc", "mass centre"), ("bmin", "lower corner"), ("bmax", "upper corner"))]
    if mass is not None:
        out += [Cell(N.at("mass"), ONE, ld(mass + b * 8), label="mass of a leaf"), Cell(N.at("body"), ONE, b, label="body of a leaf")]
    return out


def recursive(f):
    return [i for i in f.all() if i.op == "call" and i.callee == f.name]


def summary(S):
    effs, bad = cells.all_effects(S)
    for e in effs:
        e.base, e.value = plain(topoly(e.base)), plain(e.value)
    return effs, bad


def active(S, i, V):
    c = S.pathcond(i.block.id)
    if c is None:
        raise pit.Undecidable("path to %s" % i.loc)
    V.memo.clear()
    return V.cond(c)


def reads_before(f, S, calls, child):
    """a read of a child's data from where one of the recursive calls can still be reached"""
    for i in f.all():
        if i.op != "load":
            continue
        if not child(plain(S.load_addr(i))):
            continue
        for c in calls:
            if c.block.id == i.block.id and c.idx > i.idx or c.block.id != i.block.id and c.block.id in f.reach(i.block.id):
                return i, c
    return None


def val(S, seed, **fix):
    V = Unroll(S, (19, seed))
    for k, v in fix.items():
        V.fix[single_atom(A[int(k[1:])])] = float(v)
    return V


def split(ctx, f, S, P, kind, rpos, body):
    """the two recursive calls cover the bodies of the node, each once; P: positions of the arguments"""
    calls = recursive(f)
    through = [k for k in range(len(f.args)) if k not in P.values() and not (k == 0)]
    name = f.short
    for n in (2, 3, 5, 64, 65, 66, 130):
        for d in (0, 1, 2):
            fx = {"a%d" % P["count"]: n}
            if "dim" in P:
                fx["a%d" % P["dim"]] = d
            if "idx" in P:
                fx["a%d" % P["idx"]] = 5
            V = val(S, (n, d), **fx)
            if kind == "rebuild":
                V.fix[single_atom(ld(A[0] + body))] = -1.0
            act = [c for c in calls if active(S, c, V)]
            where = "%s with %d bodies" % (name, n)
            if len(act) != 2:
                ctx.bad("split", where, f.where, "%d recursive calls are made for the two halves" % len(act))
                return
            a, b = act
            ev = lambda c, k: V.ev(S.ev(c.ops[k]))
            try:
                if "ind" in P:
                    if ev(a, P["ind"]) > ev(b, P["ind"]):
                        a, b = b, a
                    na, nb = S.ev(a.ops[P["count"]]), S.ev(b.ops[P["count"]])
                    pa, pb = S.ev(a.ops[P["ind"]]), S.ev(b.ops[P["ind"]])
                    g = lambda q: V.rnd(V.ev(q))
                    if g(na) + g(nb) != n or abs(V.ev(pa) - V.ev(A[P["ind"]])) > 1e-6 or abs(V.ev(pb) - V.ev(pa) - 8 * g(na)) > 1e-6 or g(na) < 1 or g(nb) < 1:
                        ctx.bad("split", where, a.loc, "the recursive calls get %d bodies from %s on and %d from %s on" % (g(na), show(pa), g(nb), show(pb)))
                        return
                for c in act:
                    for k in through:
                        if k < len(c.ops) and pit.equal(S.ev(c.ops[k]), A[k]) == "different":
                            ctx.bad("split", where, c.loc, "argument %d of the recursive call is %s" % (k, show(S.ev(c.ops[k]))))
                            return
                    if "dim" in P:
                        q = V.ev(S.ev(c.ops[P["dim"]]))
                        if abs(q - (d + 1) % 3) > 1e-9:
                            ctx.bad("split", where, c.loc, "the halves of a node split along coordinate %d are split along %g" % (d, q))
                            return
                if "idx" in P:
                    got = sorted(V.rnd(ev(c, P["idx"])) for c in act)
                    if got != [10, 11]:
                        ctx.bad("split", where, act[0].loc, "the children of node 5 are %s" % got)
                        return
                if "dim" in P:
                    parts = [i for i in f.all() if i.op == "call" and (f.mod.callee_short(i) or "").startswith(("std::nth_element<", "std::sort<", "std::stable_sort<"))]
                    pact = [c for c in parts if active(S, c, V)]
                    if len(pact) != 1:
                        if parts:
                            ctx.bad("split", where, f.where, "the bodies are ordered %d times along coordinate %d" % (len(pact), d))
                        else:
                            ctx.undecided("split", where, f.where, "no partition along a coordinate found")
                        return
                    c = pact[0]
                    if (f.mod.callee_short(c) or "").startswith("std::nth_element<"):
                        z = [S.ev(o) for o in c.ops[:3]]
                        if abs(V.ev(z[0]) - V.ev(pa)) > 1e-6 or abs(V.ev(z[1]) - V.ev(pb)) > 1e-6 or abs(V.ev(z[2]) - V.ev(pa) - 8 * n) > 1e-6:
                            ctx.bad("split", where, c.loc, "the partition is of %s, %s, %s" % tuple(show(q) for q in z))
                            return
                        co = S.ev(c.ops[3]) if len(c.ops) > 3 else None
                        if co is not None and co in A and A.index(co) in rpos and A.index(co) != rpos[d]:
                            ctx.bad("split", where, c.loc, "a node to be split along coordinate %d is split along coordinate %d" % (d, rpos.index(A.index(co))))
                            return
            except ZeroDivisionError:
                ctx.undecided("split", where, f.where, "sizes not resolved")
                return
    ctx.ok("split", name, f.where)
    if "idx" in P:
        placement(ctx, f, S, P)


def placement(ctx, f, S, P):
    """the leaves of a heap with n bodies are the nodes n .. 2n - 1"""
    memo = {}

    def halves(n):
        if n not in memo:
            V = val(S, n, **{"a%d" % P["count"]: n, "a%d" % P["idx"]: 5, "a%d" % P["dim"]: 1})
            memo[n] = {V.rnd(V.ev(S.ev(c.ops[P["idx"]]))) - 10: V.rnd(V.ev(S.ev(c.ops[P["count"]]))) for c in recursive(f) if active(S, c, V)}
        return memo[n]
    for n in range(2, 70):
        lv, todo = [], [(1, n)]
        while todo:
            i, k = todo.pop()
            if k == 1:
                lv.append(i)
            else:
                h = halves(k)
                todo += [(2 * i, h[0]), (2 * i + 1, h[1])]
        if sorted(lv) != list(range(n, 2 * n)):
            x = sorted(set(lv) - set(range(n, 2 * n)))
            ctx.bad("split", "%s: leaves of a heap with %d bodies" % (f.short, n), f.where, "%s are the leaves, not %d .. %d" % (x, n, 2 * n - 1))
            return
    ctx.ok("split", f.short + ": places of the leaves", f.where)


def nodes(ctx, mod, lay):
    for c, short in ((NODE, NODE + "::build"), (NODE, NODE + "::rebuild"), (HEAP, HEAP + "::build_p")):
        fs = [f for f in mod.by_short(short) if f.blocks]
        if len(fs) != 1:
            ctx.undecided("inner", short, "", "not found")
            continue
        ctx.guard("inner", short, lambda: node(ctx, mod, lay, fs[0], short.rsplit("::")[-1]), fs[0].where)


def node(ctx, mod, lay, f, m):
    ctx.saw("functions", f.short)
    S = Sym(f)
    names = [a.get("name") for a in f.args]
    ix = lambda n: names.index(n) if n in names else None
    if m == "build":
        P = dict(count=1, ind=2, rx=3, mass=6, dim=7, ratio=8)
        if len(f.args) != 9:
            return ctx.undecided("inner", f.short, f.where, "unexpected arguments")
        N, ratio = TNode(lay, A[0]), A[8]
    elif m == "rebuild":
        P = dict(count=1, rx=2, ratio=5)
        if len(f.args) != 6:
            return ctx.undecided("inner", f.short, f.where, "unexpected arguments")
        N, ratio = TNode(lay, A[0]), A[5]
    else:
        P = dict(count=1, ind=2, rx=3, mass=6, idx=7, dim=8)
        if len(f.args) != 9:
            return ctx.undecided("inner", f.short, f.where, "unexpected arguments")
        N, ratio = HNode(lay, A[0], A[7]), ld(A[0] + lay.heap["m_distance_to_node_radius_ratio_sqr"])
    r = [A[P["rx"] + k] for k in range(3)]
    calls = recursive(f)
    effs, bad = summary(S)
    mine = lambda e: single_atom(A[0]) not in topoly(e.base).atoms(deep=True)
    own = lambda fs: [Cell(N.at(x), ONE, N(x)) for x in fs]
    # children
    if m == "build_p":
        L, R = HNode(lay, A[0], A[7] * 2), HNode(lay, A[0], A[7] * 2 + 1)
    else:
        ch = []
        for c in calls:
            v = plain(S.ev(c.ops[0]))
            if v not in ch:
                ch.append(v)
        if len(ch) != 2:
            return ctx.undecided("inner", f.short, f.where, "%d different children" % len(ch))
        L, R = TNode(lay, ch[0]), TNode(lay, ch[1])
    fin, flf = {}, {}
    if m == "rebuild":
        ba = single_atom(N("body"))
        fin[ba], flf[ba] = -1.0, 3.0
        fin[single_atom(A[1])] = flf[single_atom(A[1])] = 7.0
    else:
        fin[single_atom(A[1])], flf[single_atom(A[1])] = 7.0, 1.0
        if m == "build_p":
            fin[single_atom(A[7])] = flf[single_atom(A[7])] = 5.0
    want = inner(N, L, R, ratio) + own(["body"] if m != "rebuild" else [])
    if m == "build":
        ws = [("left", ch[0]), ("right", ch[1])]
        lv = [e for e in effs if topoly(e.base) == N.at("left")]
        if lv:
            V = pit.Valuation(seed=1, sizes=(), extra=fin)
            if abs(V.ev(lv[0].value) - V.ev(ch[1])) < 1e-9:
                ws = [("left", ch[1]), ("right", ch[0])]
        want += [Cell(N.at(x), ONE, v, label=x + " child") for x, v in ws]
    v, det, loc = cells.compare(effs, bad, want, fix=fin, ignore=mine, seed=ctx.seed, trials=8)
    ctx.decide(v, "inner", f.short, loc or f.where, det)
    b = ld(A[P["ind"]]) if "ind" in P else N("body")
    want = leaf(N, b, r, A[P["mass"]] if "mass" in P else None)
    if m == "build_p":
        want.append(Cell(N.at("r2"), ONE, ZERO, label="squared radius of a leaf"))
    else:
        want += own(["r2"] + (["left", "right"] if m == "build" else ["mass"]))
    v, det, loc = cells.compare(effs, bad, want, fix=flf, ignore=mine, seed=ctx.seed, trials=8)
    ctx.decide(v, "leaf", f.short, loc or f.where, det)
    # no recursion at a leaf, the children before the node
    V = pit.Valuation(seed=2, sizes=(), extra=flf)
    on = [c for c in calls if active(S, c, V)]
    ctx.decide(not on, "leaf", f.short + " ends the recursion", on[0].loc if on else f.where, "a leaf has children")
    if m == "build_p":
        child = lambda a: any(single_atom(ld(A[0] + lay.heap[n])) in a.atoms() for n, s in HNode.F.values())
    else:
        child = lambda a: any(q.p in (a - o for o in lay.node.values()) for q in (L, R))
    x = reads_before(f, S, calls, child)
    ctx.decide(x is None, "order", f.short, x[0].loc if x else f.where, "data of a child are read before the recursive call at %s" % (x[1].loc if x else ""))
    P2 = {k: v for k, v in P.items() if k in ("count", "ind", "idx", "dim")}
    ctx.guard("split", f.short, lambda: split(ctx, f, S, P2, m, [P["rx"] + k for k in range(3)], lay.node["m_body_n"]), f.where)


def roots(ctx, mod, lay):
    """build from scratch: all bodies, root node, squared ratio"""
    for cls in (TREE, HEAP):
        for m in ("build", "rebuild"):
            fs = [f for f in mod.by_short("%s::%s" % (cls, m)) if f.blocks]
            if len(fs) != 1:
                ctx.undecided("root", "%s::%s" % (cls, m), "", "not found")
                continue
            ctx.guard("root", fs[0].short, lambda: root(ctx, mod, lay, fs[0], cls, m), fs[0].where)


def root(ctx, mod, lay, f, cls, m):
    ctx.saw("functions", f.short)
    S = Sym(f)
    n = len(f.args)
    ratio = A[n - 1]
    effs, bad = summary(S)
    where = f.where
    if cls == HEAP:
        e = [x for x in effs if topoly(x.base) == A[0] + lay.heap["m_distance_to_node_radius_ratio_sqr"]]
        if not e:
            ctx.bad("root", f.short + ": ratio", where, "the ratio is not set")
        else:
            ctx.decide(pit.equal(e[0].value, ratio * ratio), "root", f.short + ": ratio", e[0].loc, "the squared ratio is %s" % show(e[0].value))
    if cls == HEAP and m == "rebuild":
        return ctx.guard("levels", f.short, lambda: heap_rebuild(ctx, lay, f, S), f.where)
    tgt = {(TREE, "build"): NODE + "::build", (TREE, "rebuild"): NODE + "::rebuild", (HEAP, "build"): HEAP + "::build_p"}[cls, m]
    cs = [i for i in f.all() if i.op == "call" and mod.callee_short(i) == tgt]
    if len(cs) != 1:
        return ctx.undecided("root", f.short, where, "%d calls of %s" % (len(cs), tgt))
    c = cs[0]
    a = [S.ev(o) for o in c.ops]
    always = S.pathcond(c.block.id)
    if m == "build":
        want = {1: A[1], 3: A[2], 4: A[3], 5: A[4], 6: A[5]}
        if cls == TREE:
            want[8] = ratio * ratio
        else:
            want[0], want[7] = A[0], ONE
    else:
        want = {0: ld(A[0]), 1: A[1], 2: A[2], 3: A[3], 4: A[4], 5: ratio * ratio}
    for k, w in want.items():
        ctx.decide(pit.equal(a[k], w), "root", "%s: argument %d of %s" % (f.short, k, tgt), c.loc, "it is %s" % show(a[k]))
    dim = 8 if cls == HEAP else 7
    if m == "build":
        d = a[dim].const()
        ctx.decide("undecided" if d is None else d in (0, 1, 2), "root", f.short + ": first coordinate", c.loc, "%s" % show(a[dim]))
        # the index list is 0 .. count-1
        e = [x for x in effs if topoly(x.base) == a[2]]
        if e:
            v, det, loc = cells.compare(e, [], [Cell(a[2], A[1], sym.IDX, label="list of the bodies")], seed=ctx.seed, trials=6)
            ctx.decide(v, "root", f.short + ": bodies", loc or where, det)
        else:
            ctx.undecided("root", f.short + ": bodies", where, "list of bodies not found")
        # vectors big enough
        if cls == HEAP:
            for nm in ("m_mass_center", "m_mass", "m_radius_sqr", "m_box_min", "m_box_max", "m_body_n"):
                rs = [i for i in f.all() if i.op == "call" and (mod.callee_short(i) or "").endswith(("::resize", "::assign")) and S.ev(i.ops[0]) == A[0] + lay.heap[nm]]
                if len(rs) != 1:
                    ctx.undecided("root", f.short + ": size of " + nm, where, "%d resizes" % len(rs))
                    continue
                ctx.decide(pit.equal(S.ev(rs[0].ops[1]), A[1] * 2), "root", f.short + ": size of " + nm, rs[0].loc, "%s elements" % show(S.ev(rs[0].ops[1])))
        else:
            e = [x for x in effs if topoly(x.base) == A[0]]
            ctx.decide(bool(e) and pit.equal(e[-1].value, a[0]) == "equal", "root", f.short + ": root", where, "the root built is not the root of the tree")


def writes(S):
    """(instruction, address, value) of every 8 byte write"""
    for i in S.f.all():
        if i.op == "store":
            yield i, S.store_addr(i), lambda i=i: S.stored(i)
        elif i.op == "call" and (i.callee or "").startswith(("llvm.memcpy", "llvm.memmove")):
            n = S.ev(i.ops[2]).const()
            if n is None or n % 8 or n > 64:
                raise pit.Undecidable("copy at %s" % i.loc)
            rk = S.ev(S.root(i.ops[1]))
            for k in range(int(n) // 8):
                yield i, S.ev(i.ops[0]) + 8 * k, lambda i=i, k=k: S.mem_at(i.block.id, i.idx, S.ev(i.ops[1]) + 8 * k, 8, rk)


def heap_rebuild(ctx, lay, f, S):
    r = [A[2], A[3], A[4]]
    ops = {}
    table = []
    for i, a, v in writes(S):
        a = plain(a)
        rt = S.root(i.ops[1] if i.op == "store" else i.ops[0])
        if rt[0] == "i" and f.insts[rt[1]].op == "alloca" or a == A[0] + lay.heap["m_distance_to_node_radius_ratio_sqr"]:
            continue
        for fld, (nm, sz) in HNode.F.items():
            b = ld(A[0] + lay.heap[nm])
            if single_atom(b) in a.atoms():
                d = a - b
                k = int(d.t.get((), 0) % sz) // 8
                ops.setdefault(i.block.id, []).append(len(table))
                table.append((i, a, b, fld, k, sz, v))
                break
        else:
            raise pit.Undecidable("write to %s at %s" % (show(a), i.loc))
    kinds = {}
    need = {True: {(x, k) for x in ("mc", "bmin", "bmax") for k in range(3)} | {("r2", 0)}, False: {(x, k) for x in ("mc", "bmin", "bmax") for k in range(3)}}
    for n in range(1, 41):
        V = Unroll(S, (19, n), {single_atom(A[1]): float(n)})
        done = {}
        err = []

        def visit(b):
            for t in ops.get(b, ()):
                i, a, base, fld, k, sz, v = table[t]
                I = (V.ev(a) - V.ev(base) - 8 * k) / sz
                if abs(I - round(I)) > 1e-6:
                    err.append((i, "address %s" % show(a)))
                    return
                I = round(I)
                if not 1 <= I < 2 * n:
                    err.append((i, "with %d bodies, node %d is written" % (n, I)))
                    return
                kinds.setdefault((t, I < n), I)
                if I < n:
                    for c in (2 * I, 2 * I + 1):
                        if not need[c < n] <= done.get(c, set()):
                            err.append((i, "with %d bodies, node %d is computed before its child %d" % (n, I, c)))
                            return
                done.setdefault(I, set()).add((fld, k))
        V.walk(visit)
        if err:
            return ctx.bad("levels", f.short, err[0][0].loc, err[0][1])
        miss = [I for I in range(1, 2 * n) if not need[I < n] <= done.get(I, set())]
        if miss:
            return ctx.bad("levels", f.short, f.where, "with %d bodies, node %d is not updated (%s)" % (n, miss[0], ", ".join(sorted({x for x, k in need[miss[0] < n] - done.get(miss[0], set())}))))
    ctx.ok("levels", f.short, f.where)
    for (t, isin), I0 in kinds.items():
        i, a, base, fld, k, sz, v = table[t]
        I = (a - base - 8 * k) * Fraction(1, sz)
        N = HNode(lay, A[0], I)
        if isin:
            cl = inner(N, HNode(lay, A[0], I * 2), HNode(lay, A[0], I * 2 + 1), ld(A[0] + lay.heap["m_distance_to_node_radius_ratio_sqr"]))
        else:
            cl = leaf(N, ld(N.at("body")), r)
        w = [c for c in cl if c.base == a]
        what = "%s: %s of %s" % (f.short, fld, "an inner node" if isin else "a leaf")
        if not w:
            if fld == "r2":
                w = [Cell(a, ONE, ZERO)]
            elif fld in ("mass", "body"):
                ctx.bad("inner" if isin else "leaf", what, i.loc, "it is changed by rebuild")
                continue
        x, y = flat(S, plain(v())), flat(S, w[0].value)
        y = subst(y, {single_atom(ld(A[0] + lay.heap["m_distance_to_node_radius_ratio_sqr"])): A[5] * A[5]})
        x = subst(x, {single_atom(ld(A[0] + lay.heap["m_distance_to_node_radius_ratio_sqr"])): A[5] * A[5]})
        ctx.decide(pit.equal(x, y, seed=ctx.seed), "inner" if isin else "leaf", what, i.loc, "it is set to %s" % show(x)[:200])


def traverses(ctx, mod, lay):
    for cls in (TREE, HEAP, SL):
        fs = [f for f in mod.by_short(cls + "::traverse") if f.blocks]
        if len(fs) != 1:
            ctx.undecided("visit", cls + "::traverse", "", "not found")
            continue
        ctx.guard("visit", fs[0].short, lambda: Traverse(ctx, lay, fs[0], cls).run(), fs[0].where)


class Traverse:
    """one pass of the traversal loop, for every kind of node: v1 is A[3], mass1 A[4], the result goes to A[0]"""
    entry = 8.0

    def __init__(self, ctx, lay, f, cls):
        self.ctx, self.lay, self.f, self.cls, self.S = ctx, lay, f, cls, Sym(f)
        self.name = f.short
        ctx.saw("functions", f.short)

    def run(self):
        ctx, f, S = self.ctx, self.f, self.S
        if len(f.args) != self.nargs():
            raise pit.Undecidable("arguments of %s" % f.short)
        tops = [h for h in f.loops if len(f.loop_chain(h)) == 1]
        if len(tops) != 1:
            raise pit.Undecidable("%d loops" % len(tops))
        self.h = h = tops[0]
        L = f.loops[h]
        for i in f.blocks[h].insts:
            if i.op == "phi":
                [S.ev(v) for p, v in i.d["in"]]
        # the current node: what the radius compared with is read from
        cur = set()
        for i in f.all():
            if i.op == "load" and i.block.id in L.blocks:
                q = self.current(i)
                if q is not None and akey(q)[0] in ("acc", "macc", "ld"):
                    cur.add(q)
        if len(cur) != 1:
            raise pit.Undecidable("%d candidates for the current node" % len(cur))
        self.cur = cur.pop()
        k = akey(self.cur)
        self.stack = k[0] == "macc" or k[0] == "ld" and any(akey(a)[0] == "alloca" for a in k[1].atoms())
        if not self.stack and k[0] != "acc":
            raise pit.Undecidable("current node is %s" % show_atom(self.cur))
        U = Unroll(S, 0)
        self.ph = U.phis(h)
        for i, (ini, nxt) in self.ph.items():
            if len(ini) != 1:
                raise pit.Undecidable("loop with several entries")
        self.force = {i for i in self.ph if f.insts[i].ty == "double"}
        self.sp = None
        if self.stack:
            slot = k[3] if k[0] == "macc" else k[1]
            al = [a for a in slot.atoms() if akey(a)[0] == "acc"]
            if len(al) != 1 or akey(al[0])[2] not in self.ph:
                raise pit.Undecidable("stack pointer not found")
            self.sp, self.slot = akey(al[0])[2], slot
        rest = set(self.ph) - self.force - {self.sp} - ({k[2]} if not self.stack else set())
        if rest:
            raise pit.Undecidable("other loop variables")
        self.export()
        self.classes()
        self.seeds()
        self.steps()

    def nargs(self):
        return 5

    def current(self, i):
        """the node whose radius is loaded"""
        a = plain(self.S.load_addr(i))
        if self.cls == TREE:
            return single_atom(a - self.lay.node["m_radius_sqr"])
        b = ld(A[1] + self.lay.heap["m_radius_sqr"])
        return single_atom((a - b) * Fraction(1, 8)) if single_atom(b) in a.atoms() else None

    def pos(self):
        return [ld(A[3] + 8 * k) for k in range(3)]

    def factor(self, V):
        return V.ev(A[4])

    def sizes(self, V, cur, size):
        """a heap of this size"""
        V.fix[self.cur] = float(cur)
        for n, sz in HNode.F.values():
            b = ld(A[1] + self.lay.heap[n])
            V.fix[single_atom(ld(A[1] + self.lay.heap[n] + 8))] = V.ev(b) + sz * size

    def local(self, a):
        return any(akey(x)[0] == "alloca" or self.sp is not None and x == intern(("acc", self.S.uid, self.sp)) for x in a.atoms())

    def export(self):
        """the totals: what is written to the result"""
        S, f = self.S, self.f
        self.out = {}
        for i, a, v in writes(S):
            k = (a - A[0]).const()
            if k is None:
                if self.local(a):
                    continue
                raise pit.Undecidable("write to %s" % show(a))
            if f.loop_chain(i.block.id):
                raise pit.Undecidable("result written in the loop")
            # the last write on the way counts
            if k in self.out and not (i.block.id != self.out[k][0].block.id and i.block.id in f.reach(self.out[k][0].block.id) or i.block.id == self.out[k][0].block.id and i.idx > self.out[k][0].idx):
                continue
            self.out[k] = (i, v())
        if sorted(self.out) != [0, 8, 16]:
            raise pit.Undecidable("results at %s" % sorted(self.out))

    def node(self):
        c = topoly(P({((self.cur, Fraction(1)),): Fraction(1)}))
        return TNode(self.lay, c) if self.cls == TREE else HNode(self.lay, A[1], c)

    def scenario(self, seed, far, kids, cur=None, size=None, close=False):
        """a valuation: far or near node, which children it has"""
        V = Unroll(self.S, (19, "t", seed))
        V.close = close
        if close:
            V.tol = 1e-13
        N = self.node()
        fix = lambda p, v: V.fix.__setitem__(single_atom(p), float(v))
        v1 = self.pos()
        if self.cls == TREE:
            V.fix[self.cur] = 1000.0
            fix(N("left"), 2000 if "l" in kids else 0)
            fix(N("right"), 3000 if "r" in kids else 0)
        else:
            self.sizes(V, cur, size)
        if not self.stack:
            V.env[akey(self.cur)[2]] = V.fix.pop(self.cur)
        for k in range(3):
            if close:
                V.mem[V.rnd(V.ev(N.at("mc", k)) * 4096), 8] = V.ev(v1[k]) + 3e-5 * V.h("close", k)
        V.memo.clear()
        d = [V.ev(N("mc", k)) - V.ev(v1[k]) for k in range(3)]
        d2 = sum(x * x for x in d)
        V.mem[V.rnd(V.ev(N.at("r2")) * 4096), 8] = d2 * (V.rng.choice([0.01, 0.5, 0.97]) if far else V.rng.choice([1.03, 2.0, 50.0]))
        V.memo.clear()
        c = max(d2, 1e-8)
        g = self.factor(V) * V.ev(N("mass")) / c ** 1.5
        V.delta = [g * x if far else 0.0 for x in d]
        for i in self.force:
            V.env[i] = V.h("T", self.cls_of[i])
        if self.stack:
            V.env[self.sp] = V.given({}, self.S.ev(self.ph[self.sp][0][0]))
        return V

    def heap_cases(self):
        for n in (2, 3, 4, 5, 7, 8, 12):
            for c in range(1, 2 * n):
                yield n, c, "lr" if c < n else ""

    def cases(self):
        if self.cls == TREE:
            for s in range(6):
                for far in (True, False):
                    for kids in ("lr", ""):
                        yield self.scenario((s, far, kids), far, kids, close=s % 3 == 2), far, kids, None, None
        else:
            for n, c, kids in self.heap_cases():
                for far in (True, False):
                    yield self.scenario((n, c, far), far, kids, c, 2 * n, close=c % 3 == 2), far, kids, c, n

    def classes(self):
        """totals that always hold the same value are one"""
        S = self.S
        self.cls_of = {}
        for i in self.force:
            v = S.ev(self.ph[i][0][0]).const()
            if v != 0:
                raise pit.Undecidable("total starts with %s" % show(S.ev(self.ph[i][0][0])))
            self.cls_of[i] = 0
        # results of the first steps tell the coordinates apart
        for _ in range(8):
            sig = {}
            for V, far, kids, c, n in list(self.cases())[:8]:
                seen, out, nx = V.step(self.h, dict(V.env))
                for i in self.force:
                    try:
                        v = nx[i] if nx else V.given(V.env, S.ev(next(iter(self.ph[i][1].values()))))
                    except pit.Undecidable:
                        v = 0.0
                    sig.setdefault(i, []).append(round(v, 6))
            new, names = {}, {}
            for i in sorted(self.force):
                new[i] = names.setdefault((self.cls_of[i], tuple(sig[i])), len(names))
            if new == self.cls_of:
                return
            self.cls_of = new

    def seeds(self):
        S, f, ctx = self.S, self.f, self.ctx
        root = self.root if hasattr(self, "root") else ld(A[1]) if self.cls == TREE else ONE
        name = self.name + ": start"
        if self.stack:
            ini = S.ev(self.ph[self.sp][0][0])
            want = subst(self.slot, {intern(("acc", S.uid, self.sp)): ini})
            st = [i for i in f.all() if i.op == "store" and not f.loop_chain(i.block.id) and pit.equal(S.store_addr(i), want) == "equal"]
            if len(st) != 1:
                raise pit.Undecidable("%d writes of the first node" % len(st))
            v, loc = S.stored(st[0]), st[0].loc
        else:
            v, loc = S.ev(self.ph[akey(self.cur)[2]][0][0]), f.where
        ctx.decide(pit.equal(plain(v), root), "visit", name, loc, "the traversal starts at %s" % show(v))

    def skip(self, c):
        while c & 1:
            c >>= 1
            if c == 0:
                return 1
        return c + 1 if c else 1

    def steps(self):
        S, f, ctx, h = self.S, self.f, self.ctx, self.h
        for V, far, kids, c, n in self.cases():
            what = "%s node%s" % ("far" if far else "near", "" if c is None else " %d of a heap with %d bodies" % (c, n)) + (" with children" if kids else " without children")
            env = dict(V.env)
            seen, left, nx = V.step(h, env)
            if left and left[0] == h:
                raise pit.Undecidable("the loop is left at once")
            for k in range(3):
                i, v = self.out[8 * k]
                t0, got = self.total(V, env, nx, v, left)
                w = V.delta[k]
                if abs(got - t0 - w) > (1e-3 if V.close else 1e-7) * max(1, abs(w), abs(got)):
                    return ctx.bad("force", f.short, i.loc, "%s: the force along coordinate %d grows by %g, not %g" % (what, k, got - t0, w))
            # the nodes to come
            if self.stack:
                a = self.after_stack(V, env, seen, left, nx, far, kids, what)
            else:
                a = self.after_index(V, env, left, nx, far, kids, c, n, what)
            if a:
                return ctx.bad("visit", f.short, a[0], a[1])
        ctx.ok("force", f.short, f.where)
        ctx.ok("visit", f.short, f.where)
        if self.stack:
            self.ends()

    def total(self, V, env, nx, v, left=None):
        """a result before and after the step"""
        S, f = self.S, self.f
        one = list(v.t.items())
        if len(one) != 1 or len(one[0][0]) != 1 or one[0][0][0][1] != 1:
            raise pit.Undecidable("result %s" % show(v)[:80])
        c, top = float(one[0][1]), one[0][0][0][0]
        leaves, todo, done = set(), [top], set()
        while todo:
            a = todo.pop()
            if a in done:
                continue
            done.add(a)
            k = akey(a)
            if k[0] == "phi" and k[1] == S.uid and not f.loop_chain(f.insts[k[2]].block.id):
                for p, x in f.insts[k[2]].d["in"]:
                    q = single_atom(S.ev(x))
                    if q is None:
                        raise pit.Undecidable("result %s" % show(v)[:80])
                    todo.append(q)
            elif k[0] in ("fin", "acc", "phi") and k[1] == S.uid:
                leaves.add(k[2])
            else:
                raise pit.Undecidable("result %s" % show(v)[:80])
        js = {j for i in leaves for j, (ini, nxt) in self.ph.items() if i == j or any(tuple(x) == ("i", i) for x in nxt.values())}
        if len({self.cls_of.get(j) for j in js}) != 1:
            raise pit.Undecidable("result %s" % show(v)[:80])
        j = min(js)
        if nx:
            return c * env[j], c * nx[j]
        if akey(top)[0] != "phi" or f.loop_chain(f.insts[akey(top)[2]].block.id):
            i = akey(top)[2]
            return c * env[j], c * (env[i] if i in self.ph else V.given(env, S.inst(f.insts[i])))
        # the way from the loop to the end
        if not left:
            raise pit.Undecidable("result %s" % show(v)[:80])
        x, came = left[1], {left[1]: left[0]}
        while f.blocks[x].succ:
            n = V.succ(x)
            came[n] = x
            x = n
        a = top
        while akey(a)[0] == "phi" and not f.loop_chain(f.insts[akey(a)[2]].block.id):
            i = f.insts[akey(a)[2]]
            q = [y for p, y in i.d["in"] if p == came.get(i.block.id)]
            if len(q) != 1:
                raise pit.Undecidable("result %s" % show(v)[:80])
            a = single_atom(S.ev(q[0]))
        i = akey(a)[2]
        return c * env[j], c * (env[i] if i in self.ph else V.given(env, S.inst(f.insts[i])))

    def after_index(self, V, env, left, nx, far, kids, c, n, what):
        i = akey(self.cur)[2]
        nxt = self.ph[i][1]
        latch = not left or left[0] in nxt
        got = round(nx[i] if nx else V.given(env, self.S.ev(next(iter(nxt.values()))))) if latch else None
        want = self.skip(c) if far or not kids else 2 * c
        if want == 1 or want >= 2 * n and want & (want - 1) == 0:
            want = 1
        if not latch:
            # left in the middle
            return None if want == 1 else (self.f.where, "%s: the traversal ends, the next node would be %d" % (what, want))
        if got != want:
            return self.f.insts[i].loc or self.f.where, "%s: the next node is %d, not %d" % (what, got, want)
        ended = bool(left)
        if not ended:
            V2 = self.scenario((n, c, far), far, "", max(1, min(got, 2 * n - 1)), 2 * n)
            e2 = dict(V2.env)
            e2[i] = float(got)
            s2, l2, n2 = V2.step(self.h, e2)
            ended = bool(l2) and l2[0] == self.h
        if ended != (want == 1):
            return self.f.where, "%s: the traversal %s" % (what, "ends too early" if ended else "does not end")

    def after_stack(self, V, env, seen, left, nx, far, kids, what):
        S, f = self.S, self.f
        sp0 = env[self.sp]
        lt = self.ph[self.sp][1]
        sp1 = nx[self.sp] if nx else V.given(env, S.ev(next(iter(lt.values()))))
        slot = lambda sp: V.given({self.sp: sp}, self.slot)
        pushed = {}
        for b in seen:
            for i in f.blocks[b].insts:
                if i.op == "store":
                    if self.local(S.store_addr(i)):
                        pushed[round(V.given(env, S.store_addr(i)), 6)] = (V.given(env, S.stored(i)), i)
        u = self.unit(V, env)
        if self.cls == TREE:
            ch = [2000.0, 3000.0]
        else:
            c = V.fix[self.cur]
            ch = [2 * c, 2 * c + 1]
        n = 2 if kids and not far else 0
        if abs(sp1 - sp0 - u * (n - 1)) > 1e-6:
            return f.where, "%s: the number of nodes waiting changes by %g, not %d" % (what, (sp1 - sp0) / u, n - 1)
        if n:
            got = []
            for s in (sp1, sp1 - u):
                q = pushed.pop(round(slot(s), 6), None)
                got.append(q[0] if q else None)
            if None in got or sorted(got) != ch:
                return f.where, "%s: the nodes put on the stack are %s" % (what, [{2000.0: "left", 3000.0: "right", 1000.0: "the node itself"}.get(x, x) for x in got])
        top = slot(sp1)
        lost = [q for a, q in pushed.items() if (a - top) * (1 if slot(sp1 + u) > top else -1) < 1e-6]
        if lost:
            return lost[0][1].loc, "%s: a node waiting on the stack is overwritten" % what
        return None

    def unit(self, V, env):
        """by how much the stack pointer moves per node"""
        if not hasattr(self, "_u"):
            a = V.given({self.sp: 64.0}, self.slot) - V.given({self.sp: 63.0}, self.slot)
            self._u = self.entry / a
        return self._u

    def ends(self):
        """the loop ends exactly when the stack is empty"""
        S, f, ctx, h = self.S, self.f, self.ctx, self.h
        for V, far, kids, c, n in self.cases():
            if not far:
                continue
            u = self.unit(V, V.env)
            sp0 = V.env[self.sp]
            for depth in (1, 2, 3, 9):
                env = dict(V.env)
                env[self.sp] = sp0 + u * (depth - 1)
                seen, left, nx = V.step(h, env)
                if left and left[0] == h:
                    return ctx.bad("visit", self.name + ": end", f.where, "the traversal ends with %d nodes waiting" % depth)
                ended = bool(left)
                if not ended:
                    s2, l2, n2 = V.step(h, nx)
                    ended = bool(l2) and l2[0] == h
                if ended != (depth == 1):
                    return ctx.bad("visit", self.name + ": end", f.where, "the traversal %s with %d nodes waiting" % ("ends" if ended else "goes on", depth - 1))
        ctx.ok("visit", self.name + ": end", f.where)


# ---- adjacent bodies

class Ah:
    """nbody_engine_ah: forces of far bodies are kept from the last full evaluation, those of adjacent ones computed anew"""

    def __init__(self, ctx, mod, f):
        self.ctx, self.mod, self.f, self.S = ctx, mod, f, Sym(f)
        ctx.saw("functions", f.short)
        o = self.o = offsets(mod, "nbody_engine_ah")
        if o.get("m_mass") != 24 or o.get("m_data") != 40:
            raise pit.Undecidable("layout")
        self.adj, self.uni = ld(A[0] + o["m_adjacent_body"]), ld(A[0] + o["m_univerce_force"])
        self.uend, self.rate = ld(A[0] + o["m_univerce_force"] + 8), ld(A[0] + o["m_full_recompute_rate"])
        self.maxd, self.minf = ld(A[0] + o["m_max_dist_sqr"]), ld(A[0] + o["m_min_force_sqr"])

    def val(self, seed, rate=3, step=4, n=4, kept=4):
        V = Unroll(self.S, (19, "a", seed))
        fix = lambda p, v: V.fix.__setitem__(single_atom(p), float(v))
        fix(A[2], 100)
        fix(A[3], 200)
        fix(COUNT, n)
        fix(STEP, step)
        fix(self.rate, rate)
        fix(self.uend, V.ev(self.uni) + 24 * kept)
        fix(ld(A[0] + self.o["m_adjacent_body"] + 8), V.ev(self.adj) + 24 * kept)
        return V

    def run(self):
        ctx, f, S = self.ctx, self.f, self.S
        sh = lambda i: self.mod.callee_short(i) or ""
        push = [i for i in f.all() if i.op == "call" and sh(i).endswith(("::push_back", "::emplace_back")) and "unsigned long" in sh(i)]
        groups = {}
        for i, a, v in writes(S):
            if single_atom(F) in a.atoms():
                ch = f.loop_chain(i.block.id)
                groups.setdefault(ch[0] if ch else None, []).append((i, a, v))
        if len(push) != 1 or len(groups) != 2 or None in groups:
            raise pit.Undecidable("the two evaluations were not found")
        full = [h for h in groups if push[0].block.id in f.loops[h].blocks]
        if len(full) != 1:
            raise pit.Undecidable("full evaluation not found")
        full = full[0]
        sparse = [h for h in groups if h != full][0]
        err = None
        for rate in (0, 1, 2, 3, 7):
            for step in range(9):
                for kept in (0, 4):
                    V = self.val((rate, step, kept), rate, step, 4, kept)
                    try:
                        got = [V.cond(S.pathcond(h)) for h in (full, sparse)]
                    except ZeroDivisionError:
                        err = err or "with rate %d the step is divided by 0" % rate
                        continue
                    want = rate == 0 or kept != 4 or step % rate == 0
                    if got != [want, not want] and not err:
                        err = "with rate %d at step %d and forces kept for %d of 4 bodies: %s" % (rate, step, kept, {(True, True): "both evaluations", (True, False): "full evaluation", (False, True): "sparse evaluation", (False, False): "no evaluation"}[tuple(got)])
        ctx.decide(err is None, "adjacent", f.short + ": when everything is computed", f.where, err or "")
        ctx.guard("adjacent", f.short + ": full", lambda: self.full(full, groups[full], push[0]), f.where)
        ctx.guard("adjacent", f.short + ": sparse", lambda: self.sparse(sparse, groups[sparse]), f.where)

    def comps(self, h, ws):
        """component -> write, for the body with the number of the pass"""
        S = self.S
        out = {}
        b = S.iv(h)
        for i, a, v in ws:
            d = subst(plain(a), {single_atom(self.uend): self.uni + COUNT * 24}) - F - b * 8
            k = None
            for c in range(6):
                if pit.equal(d, COUNT * (8 * c)) == "equal":
                    k = c
            if k is None:
                self.ctx.bad("adjacent", self.f.short, i.loc, "a result goes to %s" % show(a)[:150])
                return None
            if k in out:
                raise pit.Undecidable("result written twice")
            out[k] = (i, v())
        if sorted(out) != list(range(6)):
            self.ctx.bad("adjacent", self.f.short, ws[0][0].loc, "component %s of the result is not written" % sorted(set(range(6)) - set(out)))
            return None
        T = subst(S.trip(h), {single_atom(self.uend): self.uni + COUNT * 24})
        self.ctx.decide(pit.equal(T, COUNT), "adjacent", "%s: bodies of the loop at %s" % (self.f.short, ws[0][0].loc.rsplit("/")[-1].split(":")[0]), ws[0][0].loc, "the loop visits %s bodies" % show(T))
        return out

    def r(self, k, b):
        return ld(Y + COUNT * (8 * k) + b * 8)

    def force(self, b1, b2):
        d = [self.r(k, b2) - self.r(k, b1) for k in range(3)]
        r2 = minmax("max", [d[0] * d[0] + d[1] * d[1] + d[2] * d[2], topoly(Fraction(1, 10 ** 8))])
        g = ld(MASS + b1 * 8) * ld(MASS + b2 * 8) * power(r2, Fraction(-3, 2))
        return [g * x for x in d]

    def sparse(self, h, ws):
        ctx, S = self.ctx, self.S
        out = self.comps(h, ws)
        if out is None:
            return
        b = S.iv(h)
        lst = self.adj + b * 24
        iva = intern(("iv", "c19", 0))
        n = topoly(P({((iva, Fraction(1)),): Fraction(1)}))
        F3 = self.force(b, ld(ld(lst) + n * 8))
        T = udiv(ld(lst + 8) - ld(lst), topoly(8))
        b1 = atom("sym", "b1")

        def choose(V):
            q = single_atom(subst(ld(lst + 8), {single_atom(b): b1}))
            V.fix[q] = V.ev(subst(ld(lst), {single_atom(b): b1})) + 8 * V.rng.choice([0, 1, 2, 3])
        for k, (i, v) in sorted(out.items()):
            w = ld(Y + COUNT * (8 * (3 + k)) + b * 8) if k < 3 else (ld(self.uni + b * 24 + 8 * (k - 3)) + sym.mk_sum(T, F3[k - 3], iva)) * power(ld(MASS + b * 8), -1)
            v = subst(plain(v), {single_atom(self.uend): self.uni + COUNT * 24})
            v, w = subst(v, {single_atom(b): b1}), subst(w, {single_atom(b): b1})
            ctx.decide(pit.equal(v, w, choose=choose, fix={single_atom(COUNT): 5.0}), "adjacent", "%s: component %d between full evaluations" % (self.f.short, k), i.loc, "it is %s" % show(v)[:200])

    def full(self, h, ws, push):
        ctx, S, f = self.ctx, self.S, self.f
        out = self.comps(h, ws)
        if out is None:
            return
        b = S.iv(h)
        ins = [x for x in f.loops if x != h and x in f.loops[h].blocks]
        if len(ins) != 1:
            raise pit.Undecidable("%d inner loops" % len(ins))
        h2 = ins[0]
        U = Unroll(S, 0)
        ph = U.phis(h2)
        dbl = {i for i in ph if f.insts[i].ty == "double"}
        oth = [i for i in ph if i not in dbl]
        for n in (5, 2, 1):
            V = self.val(("all", n), rate=1, step=3, n=n, kept=n)
            V.fix[single_atom(b)] = 0.0
            got = len(V.run(h2)) - 1
            if got != n:
                return ctx.bad("adjacent", f.short + ": other bodies", f.where, "with %d bodies %d are looked at" % (n, got))
        if len(oth) > 1 or any(S.ev(ph[i][0][0]).const() != 0 for i in ph):
            raise pit.Undecidable("loop over the other bodies")
        # results: totals
        tot, uni = {}, {}
        for k, (i, v) in out.items():
            if k < 3:
                w = ld(Y + COUNT * (8 * (3 + k)) + b * 8)
                ctx.decide(pit.equal(flat(S, plain(v)), flat(S, w)), "adjacent", "%s: component %d of a full evaluation" % (f.short, k), i.loc, "it is %s" % show(v)[:200])
            else:
                at = [a for a in v.atoms() if akey(a)[0] in ("fin", "acc")]
                if len(at) != 1:
                    raise pit.Undecidable("total %s" % show(v)[:100])
                z = topoly(P({((at[0], Fraction(1)),): Fraction(1)}))
                r = pit.equal(flat(S, plain(subst(v, {at[0]: atom("sym", "t")}))), flat(S, atom("sym", "t") * power(ld(MASS + b * 8), -1)))
                ctx.decide(r, "adjacent", "%s: component %d of a full evaluation" % (f.short, k), i.loc, "it is %s" % show(v)[:200])
                tot[k - 3] = akey(at[0])[2]
        for i, a, v in writes(S):
            d = (plain(a) - self.uni - b * 24).const()
            if d is not None and f.loop_chain(i.block.id)[:1] == [h] and len(f.loop_chain(i.block.id)) == 1:
                at = single_atom(v())
                if v().const() is not None:
                    return ctx.bad("adjacent", f.short + ": kept force", i.loc, "it is set to %s, whatever the forces are" % show(v()))
                if at is None or akey(at)[0] not in ("fin", "acc"):
                    raise pit.Undecidable("force kept: %s" % show(v())[:100])
                uni[int(d) // 8] = akey(at)[2]
        if not uni and not any(single_atom(self.uni) in a.atoms() and v().const() is None for i, a, v in writes(S)) and not any(
                i.op == "call" and i.ops and any(o and single_atom(self.uni) in S.ev(o).atoms() for o in i.ops) for i in f.all()):
            return ctx.bad("adjacent", f.short + ": kept force", f.where, "the kept forces are never set")
        if sorted(uni) != [0, 1, 2]:
            raise pit.Undecidable("forces kept: %s" % sorted(uni))
        if any(x not in ph for x in list(tot.values()) + list(uni.values())):
            raise pit.Undecidable("totals are not loop variables")
        # one other body
        j = oth[0] if oth else None
        sh = S.ev(push.ops[0])
        for s in range(4):
            for b1, b2, close, strong in [(2, x, c, g) for x in (0, 1, 2, 3) for c in (True, False) for g in (True, False)]:
                V = self.val((s, b1, b2, close, strong), rate=1, step=3)
                V.fix[single_atom(b)] = float(b1)
                fo = [V.ev(q) for q in self.force(topoly(b1), topoly(b2))]
                d2 = sum((V.ev(self.r(k, topoly(b1))) - V.ev(self.r(k, topoly(b2)))) ** 2 for k in range(3))
                f2 = sum(q * q for q in fo)
                V.fix[single_atom(self.maxd)] = d2 * (1.1 if close else 0.9)
                V.fix[single_atom(self.minf)] = f2 * (0.9 if strong else 1.1)
                env = {i: V.h("T", i) for i in dbl}
                if j is not None:
                    env[j] = float(b2)
                V.memo.clear()
                seen, left, nx = V.step(h2, env, it=b2)
                if nx is None:
                    raise pit.Undecidable("loop is left at once")
                what = "body %s, %s%s" % ("itself" if b1 == b2 else "other", "close" if close else "far", ", strong force" if strong else ", weak force")
                near = b1 != b2 and (close or strong)
                for k in range(3):
                    for nm, m, w in (("total force", tot, fo[k] if b1 != b2 else 0.0), ("kept force", uni, fo[k] if b1 != b2 and not near else 0.0)):
                        g = nx[m[k]] - env[m[k]]
                        if abs(g - w) > (1e-7 if b1 != b2 else 1e-2) * max(1, abs(w)):
                            return ctx.bad("adjacent", f.short + ": " + nm, out[3][0].loc, "%s: the %s grows by %g, not %g" % (what, nm, g, w))
                if (push.block.id in seen) != near:
                    return ctx.bad("adjacent", f.short + ": list of adjacent bodies", push.loc, "%s: the body is %sput into the list" % (what, "not " if near else ""))
                if near:
                    a = V.given(env, sh) - V.ev(self.adj) - 24 * b1
                    if abs(a) > 1e-6:
                        return ctx.bad("adjacent", f.short + ": list of adjacent bodies", push.loc, "the list of another body is changed")
                    q = single_atom(S.ev(push.ops[1]))
                    if q is not None and akey(q)[0] == "alloca":
                        x = S.mem_at(push.block.id, push.idx, S.ev(push.ops[1]), 8, S.ev(S.root(push.ops[1])))
                        x = subst(x, {single_atom(S.iv(h2)): topoly(b2)}) if j is None else x
                        if abs(V.given(dict(env), x) - b2) > 1e-6:
                            return ctx.bad("adjacent", f.short + ": list of adjacent bodies", push.loc, "%s is put into the list" % show(x))
                if j is not None and nx[j] != b2 + 1:
                    return ctx.bad("adjacent", f.short + ": other bodies", f.where, "after body %d comes %g" % (b2, nx[j]))
        # the lists and forces start empty
        ctx.ok("adjacent", f.short + ": totals and lists", f.where)
        self.empty(h)

    def empty(self, h):
        """before the loop every list is emptied"""
        ctx, S, f = self.ctx, self.S, self.f
        for i in f.all():
            sh = self.mod.callee_short(i) if i.op == "call" else None
            if not sh or "unsigned long" not in sh or not sh.endswith(("::resize", "::clear")) or i.block.id in [x for x in f.loops[h].blocks] and len(f.loop_chain(i.block.id)) > 1:
                continue
            if sh.startswith("std::vector<std::vector"):
                continue
            a = plain(S.ev(i.ops[0]))
            ch = f.loop_chain(i.block.id)
            if len(ch) == 1 and (a - self.adj - S.iv(ch[0]) * 24).iszero() and (sh.endswith("clear") or S.ev(i.ops[1]).const() == 0) and (ch[0] == h or h in f.reach(ch[0])) and pit.equal(S.trip(ch[0]), COUNT) == "equal":
                return ctx.ok("adjacent", f.short + ": lists start empty", i.loc)
        if not any(i.op == "store" and single_atom(self.adj) in plain(S.store_addr(i)).atoms() for i in f.all()):
            ctx.bad("adjacent", f.short + ": lists start empty", f.where, "the lists of adjacent bodies of the last full evaluation are kept")
        else:
            ctx.undecided("adjacent", f.short + ": lists start empty", f.where, "not found")


# ---- engines

COUNT, STEP = ld(ld(A[0] + 40)), ld(ld(A[0] + 40) + 16)
Y, F, MASS = ld(A[2] + 8), ld(A[3] + 8), ld(ld(A[0] + 24) + 8)
ENGINES = (("nbody_engine_simple_bh_tree", TREE), ("nbody_engine_simple_bh_heap", HEAP), ("nbody_engine_simple_bh_heap_stackless", SL))


def offsets(mod, cls):
    """positions of the members used above, from the current declarations"""
    fl = {n: o for o, n, *_ in mod.fields_flat(cls)}
    return fl


def engines(ctx, mod, lay):
    for cls, tree in ENGINES:
        fs = [f for f in mod.by_short(cls + "::fcompute") if f.blocks]
        if len(fs) != 1:
            ctx.undecided("engine", cls + "::fcompute", "", "not found")
            continue
        ctx.guard("engine", fs[0].short, lambda: Engine(ctx, mod, lay, fs[0], cls, tree).run(), fs[0].where)


class Engine:
    def __init__(self, ctx, mod, lay, f, cls, tree):
        self.ctx, self.mod, self.lay, self.f, self.cls, self.tree, self.S = ctx, mod, lay, f, cls, tree, Sym(f)
        ctx.saw("functions", f.short)
        o = self.o = offsets(mod, cls)
        for n, w in (("m_mass", 24), ("m_data", 40)):
            if o.get(n) != w:
                raise pit.Undecidable("layout of %s" % cls)
        T = self.T = A[0] + min(v for k, v in o.items() if v > o["m_tree_build_rate"])
        self.rate, self.ratio, self.tt = ld(A[0] + o["m_tree_build_rate"]), ld(A[0] + o["m_distance_to_node_radius_ratio"]), ld(A[0] + o["m_traverse_type"], 4)
        self.vec = lambda n: ld(T + lay.heap[n])

    def val(self, seed, rate=3, step=4, empty=False, tt=0, n=4):
        V = Unroll(self.S, (19, "e", seed))
        fix = lambda p, v: V.fix.__setitem__(single_atom(p), float(v))
        fix(A[2], 100)
        fix(A[3], 200)
        fix(COUNT, n)
        fix(STEP, step)
        fix(self.rate, rate)
        for w in (4, 8):
            fix(ld(A[0] + self.o["m_traverse_type"], w), tt)
        if self.tree == TREE:
            fix(ld(self.T), 0 if empty else 5000)
        else:
            for nm, sz in HNode.F.values():
                b = self.vec(nm)
                fix(ld(self.T + self.lay.heap[nm] + 8), V.ev(b) + (0 if empty else sz * 2 * n))
        return V

    def run(self):
        ctx, f, S = self.ctx, self.f, self.S
        for h in f.loops:
            for i in f.blocks[h].insts:
                if i.op == "phi":
                    [S.ev(v) for p, v in i.d["in"]]
        sh = lambda i: self.mod.callee_short(i) or ""
        get = lambda m: [i for i in f.all() if i.op == "call" and sh(i).rsplit("::", 1)[-1] == m and sh(i).rsplit("::", 1)[0] in (TREE, HEAP, SL)]
        B, R, T = get("build"), get("rebuild"), get("traverse")
        if not B or not R or not T:
            raise pit.Undecidable("calls of the tree not found")
        # which of build and rebuild
        err = None
        for rate in (0, 1, 2, 3, 7):
            for step in range(9):
                for empty in (False, True):
                    V = self.val((rate, step, empty), rate, step, empty)
                    try:
                        b, r = sum(active(S, i, V) for i in B), sum(active(S, i, V) for i in R)
                    except ZeroDivisionError:
                        err = err or "with build rate %d the step is divided by 0" % rate
                        continue
                    want = rate == 0 or empty or step % rate == 0
                    if (b, r) != ((1, 0) if want else (0, 1)) and not err:
                        err = "with build rate %d at step %d and %s tree: %d builds and %d rebuilds" % (rate, step, "no" if empty else "a", b, r)
        if err:
            ctx.bad("engine", f.short + ": building", B[0].loc, err)
        else:
            ctx.ok("engine", f.short + ": building", B[0].loc)
        for i in B + R:
            m = sh(i).rsplit("::", 1)[-1]
            want = [self.T, COUNT, Y, Y + COUNT * 8, Y + COUNT * 16] + ([MASS] if m == "build" else []) + [self.ratio]
            got = [S.ev(o) for o in i.ops]
            bad = [k for k in range(len(want)) if pit.equal(got[k], want[k]) == "different"] if len(got) == len(want) else None
            ctx.decide("undecided" if bad is None else not bad, "engine", "%s: arguments of %s" % (f.short, m), i.loc, "argument %s is %s" % (bad and bad[0], show(got[bad[0]]) if bad else ""))
            for t in T:
                if t.block.id == i.block.id and t.idx < i.idx or t.block.id != i.block.id and i.block.id in f.reach(t.block.id):
                    ctx.bad("engine", f.short + ": order", t.loc, "the tree is traversed before it is built at %s" % i.loc)
        # results
        groups = {}
        for i, a, v in writes(S):
            if single_atom(F) in a.atoms():
                ch = f.loop_chain(i.block.id)
                groups.setdefault(ch[-1] if ch else None, []).append((i, a, v))
        if not groups:
            raise pit.Undecidable("no results found")
        kinds = {}
        for h, ws in groups.items():
            if h is None:
                raise pit.Undecidable("results outside of loops")
            kinds[h] = self.group(h, ws, [t for t in T if f.loop_chain(t.block.id) and f.loop_chain(t.block.id)[-1] == h])
        for tt in (0, 1):
            V = self.val(("tt", tt), tt=tt)
            on = [h for h in groups if V.cond(S.pathcond(h))]
            ctx.decide(len(on) == 1, "engine", "%s: traverse type %d" % (f.short, tt), f.where, "%d loops compute the forces" % len(on))

    def group(self, h, ws, T):
        """one body: velocities, force of the traverse / mass"""
        ctx, f, S = self.ctx, self.f, self.S
        name = "%s: loop at %s" % (f.short, f.blocks[h].insts[0].loc or f.blocks[h].insts[-1].loc)
        name = f.short + (": nested traverse" if T and self.nested(T[0]) else ": cycle")
        if len(T) != 1:
            raise pit.Undecidable("%d traverses in a loop" % len(T))
        t = T[0]
        res = single_atom(S.ev(t.ops[0]))
        if res is None or akey(res)[0] != "alloca":
            raise pit.Undecidable("result of the traverse")
        for i, a, v in writes(S):
            if res in a.atoms():
                raise pit.Undecidable("result of the traverse is written at %s" % i.loc)
        bodies, have = [], {}
        coef = lambda d: d.t.get(((single_atom(COUNT), Fraction(1)),), Fraction(0)) / 8
        low = min(coef(plain(a) - F) for i, a, v in ws)
        for i, a, v in ws:
            d = plain(a) - F
            k = coef(d) - low
            B = (d - COUNT * (k * 8)) * Fraction(1, 8)
            if not any(B == x for x in bodies):
                bodies.append(B)
            if k in have:
                raise pit.Undecidable("result written twice")
            have[k] = (i, v())
        if len(bodies) != 1:
            ctx.bad("engine", name, ws[0][0].loc, "the parts of one result go to different bodies: %s" % ", ".join(show(b)[:60] for b in bodies))
            return
        B = bodies[0]
        miss = sorted(set(range(6)) - set(have))
        if miss or len(have) != 6:
            ctx.bad("engine", name, ws[0][0].loc, "component %s of the result is not written" % miss)
            return
        for k, (i, v) in sorted(have.items()):
            k = int(k)
            mp = {}
            for x in v.atoms(deep=True):
                q = akey(x)
                if q[0] == "ld" and res in q[1].atoms():
                    c = (q[1] - S.ev(t.ops[0])).const()
                    mp[x] = atom("sym", "force", int(c))
            if mp and not (t.block.id == i.block.id and t.idx < i.idx or f.dominates(t.block.id, i.block.id)):
                raise pit.Undecidable("result used before the traverse")
            v = flat(S, plain(subst(v, mp)))
            w = flat(S, ld(Y + COUNT * (8 * (3 + k)) + B * 8) if k < 3 else atom("sym", "force", 8 * (k - 3)) * power(ld(MASS + B * 8), -1))
            w2 = flat(S, atom("sym", "force", 8 * (k - 3)) * power(self.node_mass(B), -1)) if k >= 3 and self.node_mass(B) is not None else None
            r = pit.equal(v, w)
            if r == "different" and w2 is not None:
                r = pit.equal(v, w2)
            ctx.decide(r, "engine", "%s: component %d" % (name, k), i.loc, "it is %s" % show(v)[:200])
        # what is passed to the traverse
        v1 = S.ev(t.ops[3])
        for k in range(3):
            at = single_atom(v1)
            x = S.mem_at(t.block.id, t.idx, v1 + 8 * k, 8, S.ev(S.root(t.ops[3]))) if at is not None and akey(at)[0] == "alloca" else ld(plain(v1) + 8 * k)
            self.same(ctx, name + ": place, coordinate %d" % k, t, x, ld(Y + COUNT * (8 * k) + B * 8), self.node_mc(B, k))
        self.same(ctx, name + ": mass", t, S.ev(t.ops[4]), ld(MASS + B * 8), self.node_mass(B))
        # every body
        I = self.heap_index(B)
        if I is not None or all(akey(a)[0] == "iv" or a == single_atom(COUNT) for a in B.atoms()):
            for n in (1, 2, 3, 5, 8):
                V = self.val(("leaf", n), n=n, tt=0 if I is None else 1)
                out = []

                def visit(x):
                    if x == t.block.id:
                        out.append(V.rnd(V.ev(B if I is None else I)))
                V.visit = visit
                V.run(h)
                V.visit = None
                if I is None and sorted(out) != list(range(n)):
                    return ctx.bad("engine", name + ": bodies", t.loc, "with %d bodies, the forces on bodies %s are computed" % (n, sorted(out)))
                if I is not None and sorted(out) != list(range(n, 2 * n)):
                    return ctx.bad("engine", name + ": bodies", t.loc, "with %d bodies, nodes %s are visited, not the leaves %d .. %d" % (n, sorted(out), n, 2 * n - 1))
            return ctx.ok("engine", name + ": bodies", t.loc)
        if self.tree_node(B) is not None:
            return Nested(ctx, self.lay, f, S, h, t, self.tree_node(B), ld(self.T), name).run()
        raise pit.Undecidable("bodies of the loop: %s" % show(B)[:80])

    def same(self, ctx, name, t, x, *wants):
        rs = [pit.equal(flat(self.S, plain(x)), flat(self.S, w)) for w in wants if w is not None]
        r = "equal" if "equal" in rs else "undecided" if "undecided" in rs else "different"
        ctx.decide(r, "engine", name, t.loc, "the traverse gets %s" % show(x)[:200])

    def nested(self, t):
        at = single_atom(self.S.ev(t.ops[3]))
        return at is None or akey(at)[0] != "alloca"

    def heap_index(self, B):
        b = single_atom(B)
        if self.tree == TREE or b is None or akey(b)[0] != "ld":
            return None
        v = self.vec("m_body_n")
        return (akey(b)[1] - v) * Fraction(1, 8) if single_atom(v) in akey(b)[1].atoms() else None

    def tree_node(self, B):
        b = single_atom(B)
        if self.tree != TREE or b is None or akey(b)[0] != "ld":
            return None
        return akey(b)[1] - self.lay.node["m_body_n"]

    def node_mass(self, B):
        I, n = self.heap_index(B), self.tree_node(B)
        return HNode(self.lay, self.T, I)("mass") if I is not None else TNode(self.lay, n)("mass") if n is not None else None

    def node_mc(self, B, k):
        I, n = self.heap_index(B), self.tree_node(B)
        return HNode(self.lay, self.T, I)("mc", k) if I is not None else TNode(self.lay, n)("mc", k) if n is not None else None


class Nested(Traverse):
    """the traversal that visits every leaf of a tree"""

    def __init__(self, ctx, lay, f, S, h, t, cur, root, name):
        self.ctx, self.lay, self.f, self.S, self.h, self.t, self.root, self.name = ctx, lay, f, S, h, t, root, name
        self.cls, self.force, self.cls_of = TREE, set(), {}
        self.cur = single_atom(cur)

    def run(self):
        S, f, h = self.S, self.f, self.h
        if self.cur is None or akey(self.cur)[0] != "macc":
            raise pit.Undecidable("current node %s" % show_atom(self.cur))
        self.stack = True
        self.ph = Unroll(S, 0).phis(h)
        al = [a for a in akey(self.cur)[3].atoms() if akey(a)[0] == "acc"]
        if len(al) != 1 or list(self.ph) != [akey(al[0])[2]]:
            raise pit.Undecidable("stack pointer not found")
        self.sp, self.slot = akey(al[0])[2], akey(self.cur)[3]
        self.seeds()
        self.steps()

    def scenario(self, seed, far, kids, cur=None, size=None, close=False):
        V = Unroll(self.S, (19, "n", seed))
        N = self.node()
        fix = lambda p, v: V.fix.__setitem__(single_atom(p), float(v))
        V.fix[self.cur] = 1000.0
        fix(N("left"), 2000 if kids else 0)
        fix(N("right"), 3000 if kids else 0)
        fix(N("body"), -1 if kids else 7)
        fix(A[2], 100)
        fix(A[3], 200)
        V.fix[single_atom(N("r2"))] = V.rng.choice([0.0, 1.5]) if kids else 0.0
        V.env[self.sp] = V.given({}, self.S.ev(self.ph[self.sp][0][0]))
        return V

    def cases(self):
        for s in range(6):
            for kids in ("lr", ""):
                yield self.scenario((s, kids), not kids, kids), not kids, kids, None, None

    def steps(self):
        S, f, ctx, h = self.S, self.f, self.ctx, self.h
        for V, far, kids, c, n in self.cases():
            what = "inner node" if kids else "leaf"
            env = dict(V.env)
            seen, left, nx = V.step(h, env)
            if left and left[0] == h:
                raise pit.Undecidable("the loop is left at once")
            if (self.t.block.id in seen) != (not kids):
                return ctx.bad("visit", self.name, self.t.loc, "%s: the force is %scomputed" % (what, "" if kids else "not "))
            a = self.after_stack(V, env, seen, left, nx, far, kids, what)
            if a:
                return ctx.bad("visit", self.name, a[0], a[1])
        ctx.ok("visit", self.name, f.where)
        self.ends()


def flat(S, p):
    """loop variables as unknowns"""
    mp = {a: atom("sym", akey(a)[0], akey(a)[2]) for a in p.atoms(deep=True) if akey(a)[0] in ("acc", "iv", "macc") and akey(a)[1] == S.uid}
    return subst(p, mp) if mp else p


def run(ctx):
    mod = ir.load("seq", nbx_args=KEEP)
    lay = Layout(mod)
    ctx.rule("inner", "an inner node has the sum of its children's masses, their weighted mean as mass centre, the joint box, and (half diagonal + distance of box centre and mass centre)^2 times the squared ratio as squared radius")
    ctx.rule("leaf", "a leaf has position, mass and number of its body, a box of that point and radius 0, and no children")
    ctx.rule("order", "the data of a node are computed after those of its children")
    ctx.rule("split", "the two children of a node get all of its bodies, each body once, split at the median of the coordinate whose turn it is; the leaves of a heap of n bodies are nodes n .. 2n - 1")
    ctx.rule("levels", "the rebuild of a heap updates every leaf, then every inner node after both of its children, and no other node (sizes 1 to 40)")
    ctx.rule("root", "building starts from the list of all bodies, positions and masses as given, and the squared ratio")
    nodes(ctx, mod, lay)
    roots(ctx, mod, lay)
