"""C15: the extrapolators compute their documented tables, weights and error estimates."""
from solvers import *
from famflow import FamFlow, FamVal
import vecflow

NEV, BER = "nbody_extrapolator_neville", "nbody_extrapolator_berrut"
A1, A2 = atom("arg", 1), atom("arg", 2)


class ExFlow(FamFlow):
    """lists of buffers are values of the members that hold them, so that exchanging two lists exchanges two values"""

    def run(self):
        self.sizes = {}
        return super().run()

    def other(self, st, i):
        n = self.mod.callee_short(i) or ""
        o = i.ops
        off = lambda k: (lambda c: int(c) if c is not None else None)((self.S.ev(o[k]) - A0).const())
        if len(o) == 2 and (n.startswith("std::swap<") or n.startswith("std::vector<nbody_engine::memory*") and n.endswith("::swap")):
            a, b = ("fam", off(0)), ("fam", off(1))
            if a in st and b in st:
                st[a], st[b] = st[b], st[a]
                self.written |= {a, b}
                return
        if len(o) == 2 and n.startswith("std::vector<nbody_engine::memory*") and n.endswith("::operator="):
            raise vecflow.Unhandled("list of buffers assigned at %s" % i.loc)
        super().other(st, i)

    def direct(self, st, i, rec):
        raise vecflow.Unhandled("call of %s at %s" % (rec.method, i.loc))


class ExVal(FamVal):
    steps = None

    def _atom(self, a):
        k = akey(a)
        if k[0] == "ld" and self.steps is not None and k[3] == 0:
            d = k[1] - self.steps
            if single_atom(self.steps) in k[1].atoms() and single_atom(self.steps) not in d.atoms(deep=True):
                n = self.rnd(self.ev(d) / 8)
                return self.num(SEQ(self, n))
        return super()._atom(a)


def SEQ(V, n):
    """an increasing sequence of substep counts"""
    if n < 0 or n > 60:
        raise ZeroDivisionError
    s = 1
    for k in range(n + 1):
        s += 1 + V.rnd(abs(V.h("gap", k)) * 3) % 3
    return s


def run(ctx):
    mod = ir.load("seq")
    ctx.rule("order", "the substep counts are raised to the order of the error expansion, once, at construction")
    ctx.rule("neville", "entering a result builds the Neville table: T[k][0] = y, T[k][j+1] = (n_k T[k][j] - n_(k-j-1) T[k-1][j]) / (n_k - n_(k-j-1)), where T[k-1] is the row entered before")
    ctx.rule("berrut", "entering a result keeps it under its level")
    ctx.rule("result", "the extrapolated state is the last entry of the current row (Neville), the weighted mean of the kept results with weights (-1)^(n+1) n_n (Berrut)")
    ctx.rule("error", "the error estimate is the largest absolute difference between the extrapolations of this level and the one before; at level 0 it is never small")
    ctx.rule("reads", "an estimate or extrapolation changes neither the table nor the state it is estimated for")
    ctx.guard("order", "nbody_extrapolator", lambda: order(ctx, mod))
    ctx.guard("neville", NEV, lambda: neville(ctx, mod))
    ctx.guard("berrut", BER, lambda: berrut(ctx, mod))


def steps_of(mod, cls, f):
    o = member(mod, "nbody_extrapolator", "m_sub_steps_count")
    b = 0
    return atom("ld", A0 + o, 8, 0)


def member(mod, cls, name):
    x = field(mod, cls, name)
    if x is None:
        raise vecflow.Unhandled("member %s of %s" % (name, cls))
    return x[0]


def flow(ctx, mod, cls, m, n):
    f = impl(mod, cls, m, n)
    if f is None:
        raise vecflow.Unhandled("%s::%s not found" % (cls, m))
    fl = ExFlow(mod, cls, f, None)
    fl.run()
    ctx.saw("functions", "%s (%s)" % (f.short, f.where))
    if fl.exit is None:
        raise vecflow.Unhandled("no single exit of %s" % f.short)
    for c in fl.final_calls.values():
        if c.cls:
            ctx.saw("call sites", "%s.%s at %s" % (c.cls, c.method, c.inst.loc))
    return f, fl


def lists(mod, cls):
    return [o for o, n, t, sz in mod.fields_flat(cls) if "vector" in t and "memory" in t]


def neville(ctx, mod):
    f, fl = flow(ctx, mod, NEV, "update_table", 3)
    fe, ee = flow(ctx, mod, NEV, "extrapolate", 3)
    # the member that holds the current row is the one extrapolation reads
    got = ee.read(ee.exit, A2)
    fams = sorted(lists(mod, NEV))
    cur = [o for o in fams if atom("arr0", o) in [atom(*akey(a)) for a in got.atoms(deep=True) if akey(a)[0] == "arr0"]]
    if len(cur) != 1 or len(fams) != 2:
        raise vecflow.Unhandled("the list that holds the current row")
    cur = cur[0]
    prev = [o for o in fams if o != cur][0]
    ExVal.steps = steps_of(mod, NEV, f)
    fix = {single_atom(ExVal.steps): 65536.0}
    lev = {single_atom(A1): lambda V: V.rng.choice([1, 2, 3, 5, 8])}
    E = lambda V, o, i: V.elem((("arr0", o), {}), i)

    def row(V, k):
        T = [V.ev(fl.read({("fam", o): atom("arr0", o) for o in fams}, A2))]
        n = [V.num(SEQ(V, i)) for i in range(k + 1)]
        for j in range(k):
            T.append((n[k] * T[j] - n[k - j - 1] * E(V, cur, j)) / (n[k] - n[k - j - 1]))
        return T
    trials = 16 if ctx.tier == "quick" else 60
    for k in (0, 1, 2, 3, 4, 7):
        fx = dict(fix)
        fx[single_atom(A1)] = float(k)
        for j in range(k + 1):
            form = atom("sel", fl.exit[("fam", cur)], topoly(j))
            same.why = ""
            v = same(fl, form, lambda V: row(V, k)[j], seed=ctx.seed, fix=fx, klass=ExVal, trials=trials)
            ctx.decide(v, "neville", "row %d, entry %d" % (k, j), f.where, same.why or "entry %d of row %d is not the Neville entry" % (j, k))
        # the other list keeps the row entered before, which the next call turns over
        if k:
            for j in range(k):
                form = atom("sel", fl.exit[("fam", prev)], topoly(j))
                v = same(fl, form, lambda V: E(V, cur, j), seed=ctx.seed, fix=fx, klass=ExVal, trials=6)
                ctx.decide(v, "neville", "row %d keeps entry %d of the row before" % (k, j), f.where, same.why or "the row before is lost")
    v = same(fl, fl.read(fl.exit, A2), fl.read({("fam", o): atom("arr0", o) for o in fams}, A2), seed=ctx.seed, fix={**fix, **lev}, klass=ExVal)
    ctx.decide(v, "reads", "%s leaves the entered state alone" % f.short, f.where, "the entered state is changed")
    # extrapolate
    v = same(ee, got, lambda V: E(V, cur, V.rnd(V.ev(A1))), seed=ctx.seed, fix={**fix, **lev}, klass=ExVal)
    ctx.decide(v, "result", NEV, fe.where, "extrapolated state is %s" % show(got)[:200])
    unchanged(ctx, ee, fe, fams, [A2])
    error(ctx, mod, NEV, fams, fix, lambda V, k: E(V, cur, k) - E(V, cur, k - 1))


def unchanged(ctx, fl, f, fams, out):
    ctx.decide(all(fl.exit[("fam", o)] == atom("arr0", o) for o in fams), "reads", "%s leaves the table alone" % f.short, f.where, "the table is changed")


def error(ctx, mod, cls, fams, fix, diff):
    f, fl = flow(ctx, mod, cls, "estimate_error", 2)
    rets = [(b, f.blocks[b].term) for b in f.blocks if f.blocks[b].term.op == "ret"] if isinstance(f.blocks, dict) else [(b.id, b.term) for b in f.blocks if b.term.op == "ret"]
    if len(rets) != 1:
        raise vecflow.Unhandled("estimate_error with several returns")
    r = fl.norm(fl.S.ev(rets[0][1].ops[0]))
    ctx.saw("returns", "%s: %s" % (f.short, show(r)[:300]))
    for k in (1, 2, 3, 4, 7):
        fx = dict(fix)
        fx[single_atom(A1)] = float(k)
        same.why = ""
        v = same(fl, r, lambda V: abs(diff(V, k)), seed=ctx.seed, fix=fx, klass=ExVal, trials=16)
        ctx.decide(v, "error", "%s level %d" % (cls, k), f.where, same.why or "the error estimate is %s" % show(r)[:200])
    c = subst(r, {single_atom(A1): ZERO}).const()
    ctx.decide(None if c is None else c > Fraction(10) ** 300, "error", "%s level 0" % cls, f.where, "the error estimate at level 0 is %s" % show(r)[:200])
    unchanged(ctx, fl, f, fams, [])


def berrut(ctx, mod):
    fams = sorted(lists(mod, BER))
    if len(fams) != 1:
        raise vecflow.Unhandled("the list of results")
    tab = fams[0]
    E = lambda V, i: V.elem((("arr0", tab), {}), i)
    f, fl = flow(ctx, mod, BER, "update_table", 3)
    ExVal.steps = steps_of(mod, BER, f)
    fix = {single_atom(ExVal.steps): 65536.0}
    for k in (0, 1, 3, 6):
        fx = dict(fix)
        fx[single_atom(A1)] = float(k)
        for j in range(k + 2):
            form = atom("sel", fl.exit[("fam", tab)], topoly(j))
            v = same(fl, form, lambda V: V.ev(fl.read({("fam", tab): atom("arr0", tab)}, A2)) if j == k else E(V, j), seed=ctx.seed, fix=fx, klass=ExVal, trials=6)
            ctx.decide(v, "berrut", "level %d, result %d" % (k, j), f.where, "entering level %d changes result %d" % (k, j) if j != k else "the result is not kept")

    def ext(V, k):
        w = [V.num((-1) ** (n + 1) * SEQ(V, n)) for n in range(k)]
        s = sum(w[1:], w[0])
        return sum((w[n] / s * E(V, n) for n in range(k)), V.num(0))
    fe, ee = flow(ctx, mod, BER, "extrapolate", 3)
    got = ee.read(ee.exit, A2)
    for k in (1, 2, 3, 5):
        fx = dict(fix)
        fx[single_atom(A1)] = float(k)
        same.why = ""
        v = same(ee, got, lambda V: ext(V, k), seed=ctx.seed, fix=fx, klass=ExVal)
        ctx.decide(v, "result", "%s level %d" % (BER, k), fe.where, same.why or "extrapolated state is %s" % show(got)[:200])
    unchanged(ctx, ee, fe, fams, [A2])
    error(ctx, mod, BER, fams, fix, lambda V, k: ext(V, k) - (ext(V, k - 1) if k > 1 else V.num(0)))


class NOFLOW:
    loops, calls, accs, recs = {}, {}, {}, {}


def until(S, h):
    """iterations of a loop that runs a pointer from one end of an array to the other"""
    f = S.f
    L = f.loops[h]
    if len(L.exiting) != 1 or L.exiting[0] != h:
        return None
    c = f.insts.get(f.blocks[h].term.ops[0][1]) if f.blocks[h].term.ops and f.blocks[h].term.ops[0][0] == "i" else None
    if c is None or c.op != "icmp" or c.d["pred"] not in ("eq", "ne"):
        return None
    ia = intern(("iv", S.uid, h))
    d = S.ev(c.ops[0]) - S.ev(c.ops[1])
    k = d.t.get(((ia, Fraction(1)),))
    if not k:
        return None
    rest = d - P({((ia, Fraction(1)),): k})
    if ia in rest.atoms(deep=True):
        return None
    return rest.scale(-1 / k)


def order(ctx, mod):
    fs = [g for g in mod.funcs.values() if g.short == "nbody_extrapolator::nbody_extrapolator" and len(g.args) == 4]
    o = member(mod, "nbody_extrapolator", "m_sub_steps_count")
    if not fs:
        raise vecflow.Unhandled("constructor not found")
    for f in fs:
        ctx.saw("functions", "%s (%s)" % (f.short, f.where))
        S = sym.Sym(f)
        for h in f.loops:
            if any(akey(a)[0] in ("trip", "early") for a in S.trip(h).atoms()):
                t = until(S, h)
                if t is not None:
                    S._tmemo[h] = t
        beg, end = atom("ld", A0 + o, 8, 0), atom("ld", A0 + o + 8, 8, 0)
        rets = [b for b in f.blocks.values() if b.term.op == "ret"] if isinstance(f.blocks, dict) else [b for b in f.blocks if b.term.op == "ret"]
        if len(rets) != 1:
            raise vecflow.Unhandled("constructor with several returns")
        copied = [i for i in f.all() if i.op == "call" and i.callee and (mod.callee_short(i) or "").startswith("std::vector<unsigned long") and S.ev(i.ops[0]) == A0 + o]
        ctx.decide(True if len(copied) == 1 and len(copied[0].ops) > 1 and S.ev(copied[0].ops[1]) == atom("arg", 3) else None, "order", "the counts are copied from the argument", f.where, "")
        addr = beg + topoly(8) * sym.IDX
        got = S.mem_out(rets[0].id, addr, 8, beg)
        ctx.saw("stores", "substep count idx = %s" % show(got)[:200])
        ExVal.steps = beg
        for n in (1, 2, 3, 4):
            fix = {single_atom(beg): 65536.0, single_atom(end): 65536.0 + 80, single_atom(atom("arg", 2)): float(n),
                   single_atom(sym.IDX): lambda V: V.rng.choice(list(range(10)))}
            same.why = ""
            v = same(NOFLOW, got, lambda V: V.num(SEQ(V, V.rnd(V.ev(sym.IDX)))) ** n, seed=ctx.seed, fix=fix, klass=ExVal, trials=12)
            ctx.decide(v, "order", "order %d" % n, f.where, same.why or "the substep count used with order %d is %s" % (n, show(got)[:200]))
