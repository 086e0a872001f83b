"""C01: vector primitives of every engine compute exactly their documented result for every vector length."""
from hosteng import *
from solvers import RecVal, same, Flow, V0


def run(ctx):
    mod = ir.load("seq")
    R = roles.EngineRoles(mod)
    ctx.rule("host", "effect summary of the method (all stores, closed over its loops) equals the documented formula for every index below the vector length and touches nothing else")
    n6 = R.count() * 6
    seen = set()
    a, b, c = A[1], A[2], A[3]
    D = R.data
    for cls in host_engines(mod):
        run_cells(ctx, mod, R, "host", cls, "copy_buffer", 3, lambda S: [Cell(D(a), n6, ld(D(b) + IDX * 8), label="a")], [a, b], seen=seen)
        run_cells(ctx, mod, R, "host", cls, "fill_buffer", 3, lambda S: [Cell(D(a), n6, ld(A[2]), label="a")], [a], seen=seen)
        run_cells(ctx, mod, R, "host", cls, "fmadd_inplace", 4, lambda S: [Cell(D(a), n6, ld(D(a) + IDX * 8) + ld(D(b) + IDX * 8) * ld(A[3]), label="a")], [a, b], seen=seen)
        run_cells(ctx, mod, R, "host", cls, "fmadd", 5, lambda S: [Cell(D(a), n6, ld(D(b) + IDX * 8) + ld(D(c) + IDX * 8) * ld(A[4]), label="a")], [a, b, c], seen=seen)

        def mx(S):
            j = atom("specj", 0)
            return [Cell(A[2], ONE, sym.bind("redmax", n6, atom("fn", "fabs", ld(D(a) + j * 8)), single_atom(j)), label="result")]
        run_cells(ctx, mod, R, "host", cls, "fmaxabs", 3, mx, [a], seen=seen)
        run_cells(ctx, mod, R, "host", cls, "clamp", 3, lambda S: [Cell(D(a), R.count() * 3, wrap(ld(D(a) + IDX * 8), A[2]), label="y")], [a], seen=seen,
                  extra_fix={single_atom(A[2]): lambda V: V.rng.choice([0.5, 1.0, 2.0] if V.small else [0.7, 1.3, 2.0])})
        rw(ctx, mod, R, cls, seen)
    linear(ctx, mod, R, host_engines(mod) + ["nbody_engine"])


def wrap(x, b):
    """one wrap into [-b, b] per side"""
    y = ite(cmp("lt", b - x), x - b * 2, x)
    return ite(cmp("lt", y + b), y + b * 2, y)


def rw(ctx, mod, R, cls, seen):
    a, b = A[1], A[2]
    D = R.data
    n6 = R.count() * 6
    run_cells(ctx, mod, R, "host", cls, "write_buffer", 3, lambda S: [Cell(D(a), n6, ld(A[2] + IDX * 8), label="buffer")], [a, b], seen=seen)
    run_cells(ctx, mod, R, "host", cls, "read_buffer", 3, lambda S: [Cell(A[1], n6, ld(D(b) + IDX * 8), label="destination")], [a, b], seen=seen)


# ---- linear combinations ----------------------------------------------------------------------
LIN = {"fmaddn_inplace": (5, 1, None, 2, 3, 4), "fmaddn_corr": (6, 1, None, 3, 4, 5), "fmaddn": (6, 1, 2, 3, 4, 5)}   # args, destination, base, vectors, coefficients, number


def linear(ctx, mod, R, classes):
    """methods written as a loop over other engine operations: dataflow of whole vectors; direct loops: effect summary"""
    ctx.rule("linear", "a linear combination adds coefficient times vector for every listed term, on top of the documented base, including zero coefficients and zero terms")
    seen = set()
    for cls in classes:
        for m, (na, *_) in LIN.items():
            f = impl(mod, cls, m, na)
            if f is None:
                ctx.undecided("linear", "%s::%s" % (cls, m), "", "no implementation found")
                continue
            if f.name in seen:
                ctx.saw("shared implementations", "%s::%s -> %s" % (cls, m, f.short))
                continue
            seen.add(f.name)
            ctx.saw("functions", "%s (%s)" % (f.short, f.where))
            if any(i.op == "store" and Sym(f, this_class=cls).root(i.ops[1])[0] != "i" for i in f.all()) or m == "fmaddn_corr" and not is_flow(mod, cls, f):
                ctx.guard("linear", f.short, lambda: corr(ctx, mod, R, cls, f), f.where)
                continue
            for nul in ((False, True) if m == "fmaddn" else (False,)):
                ctx.guard("linear", f.short, lambda: flowlin(ctx, mod, cls, f, m, nul), f.where)


def is_flow(mod, cls, f):
    S = Sym(f, this_class=cls, inline_virtual=False)
    return not any(x.op == "store" and S.root(x.ops[1])[0] == "i" and f.insts[S.root(x.ops[1])[1]].op != "alloca" for x in f.all())


def flowlin(ctx, mod, cls, f, m, nul):
    na, ia, ib, iv, ic, n = LIN[m]
    owner = f.short.rsplit("::", 1)[0]

    def dec(c):
        if c[0] in ("eq", "ne", "b", "nb"):
            for q in (c[1], -c[1]):
                a = single_atom(q)
                if a is not None and akey(a)[0] == "arg":
                    null = nul and akey(a)[1] == ib
                    return (c[0] in ("eq", "nb")) == null
        if c[0] in ("lt", "le") and any(akey(a)[0] == "udiv" for a in c[1].atoms()):
            # list long enough
            return {1: False, -1: None}.get(1 if c[1].t.get(((single_atom(A[n]), Fraction(1)),), 0) < 0 else -1)
        return None
    fl = Flow(mod, owner, f, dec, sizes={}).run()
    label = f.short + (" without base vector" if nul else "")
    if fl.exit is None:
        ctx.undecided("linear", label, f.where, "no single exit")
        return
    others = [k for k in fl.exit if isinstance(k, P) and k not in (A[ia],) and not (m == "fmaddn_corr" and k == A[2])]
    if others:
        ctx.bad("linear", label + " writes only its destination", f.where, "also writes %s" % [show(k) for k in others])
        return
    got = fl.exit.get(A[ia], V0(A[ia]))
    bad = {}
    forms = [x for L in fl.loops.values() for d in L["latch"].values() for x in d.values()]
    th = pit.thresholds(forms)
    lists = [[0.0 if mask >> k & 1 else (0.37 + 0.81 * k) if t is None else t * (0.45 + k) for k in range(N)] for N in range(0, 4) for mask in range(1 << N) for t in [None] + th]
    # constants that coefficients are compared with, and units
    special = sorted({float(z) for z in pit.compared(forms)} | {1.0, -1.0})[:8]
    lists += [[x] for x in special] + [[0.37, x] for x in special] + [[x, -0.81] for x in special]
    for co in lists:
        N = len(co)
        if 1:

            class CV(RecVal):
                def _atom(self, a):
                    k = akey(a)
                    if k[0] == "ld":
                        o = k[1] - A[ic]
                        if single_atom(A[ic]) not in o.atoms(deep=True):
                            q = self.ev(o) / 8
                            if abs(q - round(q)) < 1e-9 and 0 <= q < N:
                                return co[int(round(q))]
                            raise pit.Undecidable("coefficient outside the list")
                    if k[0] == "lincomb" and k[2] == A[iv]:
                        r = 0.0
                        for j in range(int(round(self.ev(k[1])))):
                            r += self.ev(subst(k[3], {single_atom(IDX): topoly(j)})) * self.ev(V0(ld(ld(A[iv]) + 8 * j)))
                        return r
                    return RecVal._atom(self, a)

            def want(V):
                r = V.ev(V0(A[ib if ib is not None else ia])) if not (nul or False) else 0.0
                for k in range(N):
                    r += co[k] * V.ev(V0(ld(ld(A[iv]) + 8 * k)))
                return r
            v = same(fl, got, want, seed=ctx.seed, fix={single_atom(A[n]): float(N)}, trials=4, klass=CV)
            if v != "equal":
                zero = all(x == 0 for x in co)
                bad.setdefault(zero, (v, N, co))
    for zero in (False, True):
        inst = label + (" with every coefficient zero" if zero else "")
        if zero in bad:
            v, N, co = bad[zero]
            ctx.decide(v, "linear", inst, f.where, "for coefficients %s the destination is not base + sum of coefficient times vector: %s" % (co, show(got)[:300]))
        else:
            ctx.ok("linear", inst, f.where)


def corr(ctx, mod, R, cls, f):
    """per element: the terms are added one after the other, the compensation being consumed by the next addition"""
    S = Sym(f, this_class=cls)
    D = R.data
    n6 = R.count() * 6
    a0, c0 = D(A[1]), D(A[2])
    e, b = cells.all_effects(S)
    for x in e:
        if x.base not in (a0, c0):
            ctx.bad("linear", f.short, x.loc, "writes to %s" % show(x.base))
            return
        v = pit.equal(x.count, n6, choose=lambda V: [V.fix.__setitem__(k, q(V) if callable(q) else q) for k, q in valid(R, [A[1], A[2]]).items()], seed=ctx.seed)
        if v != "equal" or topoly(x.stride) != topoly(8):
            ctx.decide(v if topoly(x.stride) == topoly(8) else "undecided", "linear", f.short, x.loc, "covers %s elements of %s" % (show(x.count), show(x.base)))
            return
    st = [s for s in S.stores() if not (S.root(s.ops[1])[0] == "i" and f.insts[S.root(s.ops[1])[1]].op == "alloca")]
    ch = {tuple(f.loop_chain(s.block.id)) for s in st}
    if b or len(ch) != 1 or len(next(iter(ch))) != 2:
        ctx.undecided("linear", f.short, f.where, "not one loop over terms inside one loop over elements")
        return
    chain = list(next(iter(ch)))
    inner = max(chain, key=lambda h: len(f.loop_chain(h)))
    outer = [h for h in chain if h != inner][0]
    L = f.loops[inner]
    ivo, ivi = S.iv(outer), S.iv(inner)
    aa, ac = a0 + ivo * 8, c0 + ivo * 8
    if {S.store_addr(s) for s in st} != {aa, ac} or len(L.latches) != 1:
        ctx.undecided("linear", f.short, f.where, "stores at %s" % sorted(show(S.store_addr(s)) for s in st))
        return
    v = pit.equal(S.trip(inner), A[5], seed=ctx.seed, trials=6)
    if v != "equal":
        ctx.decide(v, "linear", f.short, f.where, "adds %s terms" % show(S.trip(inner)))
        return
    rk = {S.store_addr(s): S.ev(S.root(s.ops[1])) for s in st}
    ga = S.mem_out(L.latches[0], aa, 8, rk[aa])
    gc = S.mem_out(L.latches[0], ac, 8, rk[ac])
    ta, tc = atom("macc", S.uid, inner, aa, 8), atom("macc", S.uid, inner, ac, 8)
    co = ld(A[4] + ivi * 8)
    term = co * ld(D(ld(ld(A[3]) + ivi * 8)) + ivo * 8)
    nz = ind(cmp("ne", co))

    def eq(x, y):
        # loop-carried contents as free variables
        free = {single_atom(ta): atom("free", 1), single_atom(tc): atom("free", 2), single_atom(ivo): atom("free", 3), single_atom(ivi): atom("free", 4)}
        return pit.equal(subst(x, free), subst(y, free), seed=ctx.seed, choose=lambda V: None if V.exact else V.fix.update({single_atom(subst(co, free)): V.rng.choice([0.0, 0.0, 0.7, -1.3])}))
    inst = f.short
    ctx.decide(eq(ga, ta + nz * (term - tc)), "linear", inst + " sum", f.where, "element after one term is %s" % show(ga)[:300])
    ctx.decide(eq(gc, tc - nz * tc), "linear", inst + " compensation is consumed", f.where, "compensation after one term is %s" % show(gc)[:300])
    # the compensation is the part of the addend the sum did not absorb: cut the dataflow at the new sum
    sa = [s for s in st if S.store_addr(s) == aa]
    sc = [s for s in st if S.store_addr(s) == ac]
    if len(sa) != 1 or len(sc) != 1:
        ctx.undecided("linear", inst + " compensation", f.where, "several stores")
        return
    N = origin(S, sa[0].ops[0])
    if N is None:
        ctx.undecided("linear", inst + " compensation", f.where, "new sum not found")
        return
    S2 = Sym(f, this_class=cls)
    S2.memo[N.id] = atom("newsum")
    S2.cut[N.id] = atom("newsum")
    got = S2.ev(sc[0].ops[0])
    re = {intern(("macc", S2.uid, inner, subst(aa, {single_atom(ivo): S2.iv(outer)}), 8)): atom("free", 1),
          intern(("macc", S2.uid, inner, subst(ac, {single_atom(ivo): S2.iv(outer)}), 8)): atom("free", 2),
          single_atom(S2.iv(outer)): atom("free", 3), single_atom(S2.iv(inner)): atom("free", 4)}
    tr = subst(term, {single_atom(ivo): atom("free", 3), single_atom(ivi): atom("free", 4)})
    ctx.decide(pit.equal(subst(got, re), atom("newsum") - atom("free", 1) - (tr - atom("free", 2)), seed=ctx.seed), "linear", inst + " compensation", f.where,
               "the kept compensation is %s, not (new sum - old sum) - addend" % show(got)[:300])


def origin(S, op):
    """the floating addition behind a stored value, through volatile temporaries"""
    f = S.f
    for _ in range(6):
        if op[0] != "i":
            return None
        i = f.insts[op[1]]
        if i.op in ("fadd", "fsub"):
            return i
        if i.op == "load":
            r = S.root(i.ops[0])
            st = [s for s in S.stores() if S.root(s.ops[1]) == r]
            if r[0] == "i" and f.insts[r[1]].op == "alloca" and len(st) == 1:
                op = st[0].ops[0]
                continue
        return None
    return None
