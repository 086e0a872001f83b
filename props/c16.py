"""C16: the conserved quantities that are reported are those of the bodies."""
import ir, sym, roles, pit
from poly import *
from fractions import Fraction
from streams import Bodies, A0, A1, ld
from c08 import Agg
from hosteng import sumi

MIN = 1e-8


class Unknown(Exception):
    pass


def run(ctx):
    mod = ir.load("seq")
    ctx.rule("totals", "impulse = sum m v, angular momentum = sum r x m v, mass centre = sum m r / sum m, energies = half of sum m v^2 and of the sum over ordered pairs of -m m'/r")
    ctx.rule("listed", "a quantity is updated exactly when its letter (P, L, V, E) is in the check list")
    ctx.rule("initial", "the initial values are the totals of the first call and are not changed by later calls")
    ctx.rule("errors", "each relative error is 100 |last - initial| / |initial| of that quantity")
    ctx.rule("fetch", "with an engine given the bodies are fetched from it before anything is summed")
    ctx.rule("pair", "the force and the potential energy of two bodies are the softened Newtonian ones")
    ctx.rule("compensate", "where a sum carries a correction, sum - correction grows by exactly the addend in every pass, whatever the rounding of the new sum")
    A = Agg(ctx)
    ctx.guard("totals", "nbody_data::print_statistics", lambda: stats(ctx, A, mod))
    ctx.guard("errors", "nbody_data::get_*_err", lambda: errors(ctx, A, mod))
    ctx.guard("pair", "nbody_data::force", lambda: pair(ctx, A, mod))
    A.done()


def fn(mod, name, nargs=None):
    fs = [f for f in mod.by_short("nbody_data::" + name) if nargs is None or len(f.args) == nargs]
    if len(fs) != 1:
        raise Unknown("nbody_data::%s not found" % name)
    return fs[0]


def last(S):
    rets = [i for i in S.f.all() if i.op == "ret"]
    if len(rets) != 1:
        raise Unknown("%s has several returns" % S.f.short)
    return rets[0]


def vector(mod, name):
    """the three components that a getter of a vector returns, for the object A0"""
    f = fn(mod, name, 2)
    S = sym.Sym(f, args=[A1, A0])
    r = last(S)
    cp = [i for i in f.all() if i.op == "call" and (i.callee or "").startswith("llvm.memcpy") and S.ev(i.ops[0]) == A1 and S.ev(i.ops[2]).const() == 24]
    if len(cp) == 1 and not [i for i in f.all() if i.op == "store"]:
        return [ld(S.ev(cp[0].ops[1]) + topoly(8 * k)) for k in range(3)]
    return [S.mem_at(r.block.id, r.idx, A1 + topoly(8 * k), 8, A1) for k in range(3)]


def scalar(mod, name):
    v = roles.accessor(mod, "nbody_data::" + name, A0)
    if v is None:
        raise Unknown("%s not recognised" % name)
    return v


def members(mod):
    """quantity -> (addresses of the last value, addresses of the initial value)"""
    out = {}
    for q, l, i in (("P", "get_last_total_impulce", "get_initial_impulce"), ("L", "get_last_total_impulce_moment", "get_initial_impulce_moment"), ("V", "get_last_mass_center", "get_initial_mass_center")):
        a, b = vector(mod, l), vector(mod, i)
        out[q] = ([addr(x) for x in a], [addr(x) for x in b])
    return out


def addr(x):
    a = single_atom(x)
    if a is None or akey(a)[0] != "ld" or akey(a)[3] != 0:
        raise Unknown("%s is not a member" % show(x)[:80])
    return akey(a)[1]


def text(mod, S, i):
    """the letter that a contains() call looks for"""
    o = i.ops[1]
    if o[0] == "c":
        return chr(int(o[1])) if 0 < int(o[1]) < 128 else None
    want = S.ev(o)
    b, k = i.block, i.idx
    for _ in range(40):
        for j in reversed(b.insts[:k]):
            if j.op in ("call", "invoke") and j.ops and S.ev(j.ops[0]) == want and (mod.callee_short(j) or "").startswith("QString::QString") and len(j.ops) > 1:
                g = S.ev(j.ops[1])
                a = single_atom(g)
                if a is not None and akey(a)[0] == "g":
                    return mod.globals.get(akey(a)[1], {}).get("str")
                return None
        if len(b.pred) != 1:
            return None
        b = i.func.blocks[b.pred[0]] if not hasattr(b.pred[0], "insts") else b.pred[0]
        k = len(b.insts)
    return None


def stats(ctx, A, mod):
    f = fn(mod, "print_statistics", 2)
    S = sym.Sym(f)
    b = Bodies(mod, A0)
    r = last(S)
    ctx.saw("functions", "%s (%s)" % (f.short, f.where))
    letters = {}
    for i in f.all():
        if i.op in ("call", "invoke") and (mod.callee_short(i) or "").endswith("QString::contains"):
            t = text(mod, S, i)
            letters[single_atom(S.inst(i))] = t
    if not letters or None in letters.values():
        raise Unknown("check list tests not recognised")
    for q in "PLVE":
        if q not in letters.values():
            A.put("listed", q, f.where, False, "the letter %s is not looked for in the check list" % q)
    n = b.count
    pos = lambda i, k: ld(b.pos + topoly(i) * 24 + topoly(8 * k))
    vel = lambda i, k: ld(b.vel + topoly(i) * 24 + topoly(8 * k))
    m = lambda i: ld(b.mass + topoly(i) * 8)
    tm = sumi(n, m)

    def pot(i):
        j = atom("specj", 1)
        d = [pos(i, k) - pos(j, k) for k in range(3)]
        r2 = d[0] * d[0] + d[1] * d[1] + d[2] * d[2]
        t = ite(cmp("lt", r2 - topoly(Fraction(MIN))), topoly(0), -(m(i) * m(j) * power(minmax("max", [r2, topoly(Fraction(MIN))]), Fraction(-1, 2))))
        return sym.mk_sum(n, t, single_atom(j))
    want = {"P": [sumi(n, lambda i, k=k: m(i) * vel(i, k)) for k in range(3)],
            "L": [sumi(n, lambda i, k=k: m(i) * (pos(i, (k + 1) % 3) * vel(i, (k + 2) % 3) - pos(i, (k + 2) % 3) * vel(i, (k + 1) % 3))) for k in range(3)],
            "V": [sumi(n, lambda i, k=k: m(i) * pos(i, k)) * power(tm, Fraction(-1)) for k in range(3)]}
    mem = members(mod)
    at_end = lambda a, sz=8: S.mem_at(r.block.id, r.idx, a, sz, A0)
    le, ie = scalar(mod, "get_last_total_energy"), scalar(mod, "get_initial_energy")
    energy = sumi(n, lambda i: m(i) * (vel(i, 0) * vel(i, 0) + vel(i, 1) * vel(i, 1) + vel(i, 2) * vel(i, 2))).scale(Fraction(1, 2)) + sumi(n, pot).scale(Fraction(1, 2))
    todo = []
    for q, (la, ia) in mem.items():
        for k in range(3):
            todo.append((q, "xyz"[k], at_end(la[k]), ld(la[k]), want[q][k], at_end(ia[k]), ld(ia[k])))
    todo.append(("E", "", subst(le, {x: at_end(akey(x)[1]) for x in le.atoms()}), le, energy, subst(ie, {x: at_end(akey(x)[1]) for x in ie.atoms()}), ie))
    flags = {x for t in todo for p in (t[5],) for x in p.atoms(deep=True) if akey(x)[0] == "ld" and akey(x)[2] == 1 and akey(x)[3] == 0}
    name = {"P": "impulse", "L": "angular momentum", "V": "mass centre", "E": "energy"}
    fixed = {single_atom(A0): 1000.25, single_atom(A1): 5000.25}
    for base in (b.pos, b.vel, b.mass):
        fixed[single_atom(base)] = 20000.25 + 10000 * len(fixed)
    for q, c, lv, lo, w, iv, io in todo:
        label = (name[q] + " " + c).strip()

        def cfg(on, computed):
            d = dict(fixed)
            for a, t in letters.items():
                d[a] = (on if t == q else None)
                if d[a] is None:
                    d[a] = lambda V: V.choice([0.0, 1.0])
            for x in flags:
                d[x] = 1.0 if computed else 0.0
            return d
        both(A, "totals", label, f.where, lv, w, [cfg(1.0, c2) for c2 in (False, True)], ctx, n)
        both(A, "listed", label, f.where, lv, lo, [cfg(0.0, c2) for c2 in (False, True)], ctx, n)
        if flags:
            both(A, "initial", label + ", first call", f.where, iv, w, [cfg(1.0, False)], ctx, n)
            both(A, "initial", label + ", later calls", f.where, iv, io, [cfg(1.0, True), cfg(0.0, True)], ctx, n)
        else:
            A.put("initial", label, f.where, None if pit.opaque_atoms(iv) else False, "no flag guards the initial value")
    for x in flags:
        v = at_end(akey(x)[1], 1)
        both(A, "initial", "first call is remembered", f.where, v, topoly(1), [dict({x: z}, **{}) for z in (0.0, 1.0)], ctx, n)
    fetch(A, mod, S, f, b)
    compensate(A, S, f)


def compensate(A, S, f):
    """Kahan sums: the dataflow is cut at the new sum, which may be any rounding of its operands"""
    N = atom("newsum")
    for h, L in f.loops.items():
        if len(L.latches) != 1:
            continue
        acc = []
        for ph in f.blocks[h].insts:
            if ph.op != "phi" or single_atom(S.inst(ph)) != intern(("acc", S.uid, ph.id)):
                continue
            nx = [v for p, v in ph.d["in"] if p in L.blocks]
            if len(nx) == 1 and nx[0][0] == "i":
                acc.append((ph, nx[0]))
        for s, nx in acc:
            i = f.insts[nx[1]]
            if i.op not in ("fadd", "fsub"):
                continue
            S2 = sym.Sym(f)
            S2.memo[i.id] = N
            S2.cut[i.id] = N
            for c, cx in acc:
                if c is s:
                    continue
                g = S2.ev(cx)
                if single_atom(N) not in g.atoms(deep=True):
                    continue
                sv, cv = S2.inst(s), S2.inst(c)
                d = N - g - sv + cv
                dirty = [x for x in (N, sv, cv) if single_atom(x) in d.atoms(deep=True)]
                e = subst(S.inst(i) - S.inst(s) + S.inst(c), {single_atom(S.iv(h)): S2.iv(h), single_atom(S.inst(s)): sv, single_atom(S.inst(c)): cv})
                A.put("compensate", "sum of loop at line %s" % i.loc.split(":")[-1], i.loc, not dirty and (e == d or pit.equal(e, d, seed=1) != "different"),
                      "after one pass sum - correction is not the old sum - correction plus the addend: correction becomes %s" % show(g)[:200])


def both(A, rule, inst, where, got, want, cfgs, ctx, n):
    vs = []
    # members that are compared with constants also take those values
    for a in sorted(got.atoms(deep=True)):
        if akey(a)[0] == "ind":
            for x in akey(a)[1][1].atoms() if len(akey(a)[1]) > 1 and isinstance(akey(a)[1][1], P) else ():
                if akey(x)[0] == "ld" and akey(x)[3] == 0 and not any(x in c for c in cfgs) and x not in got.atoms():
                    k = (akey(a)[1][1] - P({((x, Fraction(1)),): Fraction(1)})).const()
                    if k is not None and k <= 0:
                        cfgs = cfgs + [dict(c, **{}) | {x: float(-k)} for c in cfgs]
    for fix in cfgs:
        v = pit.equal(got, want, fix=fix, seed=ctx.seed, trials=8 if ctx.tier == "quick" else 30, reg=True)
        vs.append({"equal": True, "different": False}.get(v))
    A.put(rule, inst, where, False if False in vs else None if None in vs else True, "%s is %s" % (inst, show(got)[:300]))


def fetch(A, mod, S, f, b):
    hit = []
    for i in f.all():
        if i.op not in ("call", "invoke") or i.callee:
            continue
        v = S.vcall(i)
        if v and v[1] == "get_data" and S.ev(v[2]) == A1 and any(S.ev(o) == A0 for o in i.ops):
            hit.append(i)
    if not hit:
        virt = [i for i in f.all() if i.op in ("call", "invoke") and not i.callee]
        other = [i for i in f.all() if i.op in ("call", "invoke") and i.callee and any(S.ev(o) == A1 for o in i.ops if o and o[0] in ("i", "a"))]
        A.put("fetch", f.short, f.where, None if other or any(S.vcall(i) is None for i in virt) else False, "the bodies are not fetched from the engine")
        return
    V = pit.Valuation(seed=3, sizes=())
    ok = True
    for val in (0.0, 7.25):
        V = pit.Valuation(seed=3, sizes=())
        V.fix[single_atom(A1)] = val
        try:
            on = any(V.cond(S.pathcond(i.block.id)) for i in hit)
        except pit.Undecidable:
            A.put("fetch", f.short, f.where, None, "condition not recognised")
            return
        ok &= on == bool(val)
    A.put("fetch", f.short, f.where, ok, "the bodies are not fetched exactly when there is an engine")
    # no element of a body array is read before
    after = {hit[0].block.id}
    before = set()
    seen, st = set(), [hit[0].block.id]
    pred = {}
    for bl in (f.blocks.values() if isinstance(f.blocks, dict) else f.blocks):
        for s in bl.succ:
            pred.setdefault(s, []).append(bl.id)
    while st:
        x = st.pop()
        for p in pred.get(x, []):
            if p not in seen:
                seen.add(p)
                st.append(p)
    early = []
    for i in f.all():
        if i.op == "load" and (i.block.id in seen or i.block.id == hit[0].block.id and i.idx < hit[0].idx):
            a = S.ev(i.ops[0])
            if any(x in a.atoms() for q in (b.pos, b.vel, b.mass) for x in q.atoms()):
                early.append(i)
    A.put("fetch", "order", early[0].loc if early else f.where, not early, "a body is read before it is fetched")


def errors(ctx, A, mod):
    half = Fraction(1, 2)
    for name, l, i in (("get_impulce_err", "get_last_total_impulce", "get_initial_impulce"), ("get_impulce_moment_err", "get_last_total_impulce_moment", "get_initial_impulce_moment")):
        f = fn(mod, name, 1)
        ctx.saw("functions", "%s (%s)" % (f.short, f.where))
        v = scalar(mod, name)
        a, c = vector(mod, l), vector(mod, i)
        for x in a + c:
            addr(x)
        num = sum(((a[k] - c[k]) * (a[k] - c[k]) for k in range(1, 3)), (a[0] - c[0]) * (a[0] - c[0]))
        den = c[0] * c[0] + c[1] * c[1] + c[2] * c[2]
        w = power(num, half) * power(den, -half) * topoly(100)
        both(A, "errors", name, f.where, v, w, [{}], ctx, None)
    f = fn(mod, "get_energy_err", 1)
    a, c = scalar(mod, "get_last_total_energy"), scalar(mod, "get_initial_energy")
    ctx.saw("functions", "%s (%s)" % (f.short, f.where))
    both(A, "errors", "get_energy_err", f.where, scalar(mod, "get_energy_err"), atom("fn", "fabs", (a - c) * topoly(100) * power(c, Fraction(-1))), [{}], ctx, None)
    # kinetic and potential part: two different members each, not shared between last and initial
    A.put("errors", "energies", f.where, len(a.atoms()) == 2 and len(c.atoms()) == 2 and not (set(a.atoms()) & set(c.atoms())) if all(akey(x)[0] == "ld" for x in list(a.atoms()) + list(c.atoms())) else None, "the energies are %s and %s" % (show(a), show(c)))


def pair(ctx, A, mod):
    f = fn(mod, "force")
    ctx.saw("functions", "%s (%s)" % (f.short, f.where))
    S = sym.Sym(f)
    r = last(S)
    # sret, this, v1, v2, mass1, mass2
    a = [atom("arg", k) for k in range(6)]
    d = [ld(a[2] + topoly(8 * k)) - ld(a[3] + topoly(8 * k)) for k in range(3)]
    r2 = d[0] * d[0] + d[1] * d[1] + d[2] * d[2]
    s = minmax("max", [r2, topoly(Fraction(MIN))])
    for k in range(3):
        got = S.mem_at(r.block.id, r.idx, a[0] + topoly(8 * k), 8, a[0])
        w = -(a[4] * a[5] * d[k] * power(s, Fraction(-3, 2)))
        both(A, "pair", "force " + "xyz"[k], f.where, got, w, [{}], ctx, None)
    f = fn(mod, "potential_energy", 4)
    ctx.saw("functions", "%s (%s)" % (f.short, f.where))
    S = sym.Sym(f)
    r = last(S)
    b = Bodies(mod, A0)
    d = [ld(a[1] + a[2].scale(24) + topoly(8 * k)) - ld(a[1] + a[3].scale(24) + topoly(8 * k)) for k in range(3)]
    r2 = d[0] * d[0] + d[1] * d[1] + d[2] * d[2]
    m = lambda i: ld(b.mass + i.scale(8))
    w = ite(cmp("lt", r2 - topoly(Fraction(MIN))), topoly(0), -(m(a[2]) * m(a[3]) * power(r2, Fraction(-1, 2))))
    both(A, "pair", "potential energy", f.where, S.ev(r.ops[0]), w, [{}], ctx, None)
