"""C03: bodies -> engine state -> bodies is the identity, and the clock of the engine is the clock of the bodies."""
from hosteng import *

COMP = ["x", "y", "z"]


class Bodies:
    """how nbody_data exposes its arrays (taken from its accessors)"""

    def __init__(self, mod):
        self.x = atom("bodies_of")
        self.a = single_atom(self.x)
        g = lambda n: roles.need(roles.accessor(mod, "nbody_data::" + n, self.x), "nbody_data::%s()" % n)
        self.pos, self.vel, self.m, self.cnt = g("get_vertites"), g("get_velosites"), g("get_mass"), g("get_count")
        self.tm, self.st = g("get_time"), g("get_step")

    def of(self, what, d):
        return subst(getattr(self, what), {self.a: d})


def engines(mod):
    return [c for c in ["nbody_engine"] + mod.derived("nbody_engine") if mod.vtable(c) and impl(mod, c, "init", 2) and impl(mod, c, "get_y", 1)]


def rets(f):
    return [x for x in f.all() if x.op == "ret" and x.ops]


def stored(effs, obj):
    """members of the engine (directly or through its private part) and the value stored there"""
    out = {}
    for e in effs:
        if e.stride == 0 or e.stride == ZERO:
            out[e.base] = e
    return out


def run(ctx):
    mod = ir.load("seq")
    B = Bodies(mod)
    ctx.rule("load", "initialising an engine stores component c of body i at element c*count+i of the state (positions, then velocities) and its mass at element i of the mass vector, for every count")
    ctx.rule("size", "the state buffer requested holds exactly six numbers per body, the mass buffer one, and problem_size() says so")
    ctx.rule("unload", "reading the engine back stores element c*count+i of the state into component c of body i, for every count, and touches nothing else")
    ctx.rule("clock", "time and step number of the engine are those of the bodies; advancing adds the step to the time and one to the step number")
    seen = set()
    for cls in engines(mod):
        for m, n, fn in (("init", 2, load), ("get_data", 2, unload), ("problem_size", 1, psize), ("advise_time", 2, clock), ("get_time", 1, clock), ("set_time", 2, clock),
                         ("get_step", 1, clock), ("set_step", 2, clock)):
            f = impl(mod, cls, m, n)
            if f is None:
                ctx.undecided({"init": "load", "get_data": "unload", "problem_size": "size"}.get(m, "clock"), "%s::%s" % (cls, m), "", "no implementation found")
                continue
            if f.name in seen:
                ctx.saw("shared implementations", "%s::%s -> %s" % (cls, m, f.short))
                continue
            seen.add(f.name)
            ctx.saw("functions", "%s (%s)" % (f.short, f.where))
            ctx.guard({"init": "load", "get_data": "unload", "problem_size": "size"}.get(m, "clock"), f.short, lambda: fn(ctx, mod, B, cls, f, m), f.where)


def members(mod, cls):
    """(address of the pointer to the bodies, of the state handle) relative to arg0"""
    y = roles.accessor(mod, impl(mod, cls, "get_y", 1).short, A[0])
    k = akey(single_atom(y))
    return k[1]


def bodies_member(mod, cls, effs):
    for e in effs:
        if (e.stride == 0 or e.stride == ZERO) and A[1].atoms() <= e.value.atoms() and subst(e.value, {a: (ONE if akey(a)[0] == "zz" else ZERO) for a in e.value.atoms() if akey(a)[0] == "ind"}) == A[1]:
            return e.base
    return None


def drop_refusal(v, old):
    """value stored on the path that accepts the data (indicators of the refusal condition set to 0)"""
    return subst(v, {a: ZERO for a in v.atoms() if akey(a)[0] == "ind"})


def vinst(S, v):
    a = single_atom(v)
    if a is None or akey(a)[0] not in ("vcall", "call"):
        return None
    k = akey(a)
    if S.uid not in k:
        return None
    return S.f.insts[k[-1]]


def fixes(count, ptrs):
    ca = single_atom(count)
    d = {ca: lambda V: float(V.rng.choice([1, 2, 3] if V.exact else [1, 2, 3, 5, 66]))}
    for n, p in enumerate(ptrs):
        a = single_atom(p)
        if a is not None:
            d[a] = lambda V, n=n: 1.0e5 * (n + 1) + 8 * int(V.rng.random() * 100)
    return d


def load(ctx, mod, B, cls, f, m):
    S = Sym(f, this_class=cls)
    effs, bad = cells.all_effects(S)
    n = B.of("cnt", A[1])
    yaddr = members(mod, cls)
    st = stored(effs, None)
    bm = bodies_member(mod, cls, effs)
    if bm is None or yaddr not in st:
        ctx.undecided("load", f.short, f.where, "state or bodies member not found")
        return
    yv = drop_refusal(st[yaddr].value, None)
    others = [(e.base, drop_refusal(e.value, None)) for e in st.values() if e.base != yaddr and vinst(S, drop_refusal(e.value, None)) is not None]
    yi = vinst(S, yv)
    if yi is None or not others:
        ctx.undecided("load", f.short, f.where, "creation of the buffers not recognised")
        return
    sz = lambda i: refresh(S, S.ev(i.ops[1]), bm, n, B)
    ctx.decide(pit.equal(sz(yi), n * 48), "size", f.short + " requests the state buffer", yi.loc, "requests %s bytes instead of 6 numbers per body" % show(sz(yi)))
    # direct stores or a staging vector handed to write_buffer
    host = any(single_atom(yv) in e.base.atoms(deep=True) for e in effs if e.stride != 0)
    want, ok = [], True
    E = [e for e in effs if not (e.stride == 0 or e.stride == ZERO)] + [e for e in effs if (e.stride == 0 or e.stride == ZERO) and (e.base not in st)]
    vtype = mod
    if host:
        R = roles.EngineRoles(mod)
        ybase = R.data(yv)
        mh = [(b, v) for b, v in others if any(e.base == R.data(v) for e in E) or True]
        mb = [v for b, v in mh if any(single_atom(v) in e.base.atoms(deep=True) for e in E)]
        if len(mb) != 1:
            ctx.undecided("load", f.short, f.where, "mass buffer not recognised")
            return
        mv = mb[0]
        mbase = R.data(mv)
        want.append(Cell(mbase, n, ld(B.of("m", A[1]) + IDX * 8), label="mass"))
    else:
        w = []
        for x in f.all():
            if x.op == "call" and x.callee is None and S.vcall(x) and S.vcall(x)[1] == "write_buffer" or x.op == "call" and x.callee and (mod.callee_short(x) or "").endswith("::write_buffer"):
                w.append((x, drop_refusal(S.ev(x.ops[1]), None), drop_refusal(S.ev(x.ops[2]), None)))
        wy = [t for t in w if t[1] == yv]
        wm = [t for t in w if t[1] in [v for b, v in others]]
        if len(wy) != 1:
            (ctx.bad if not wy and w else ctx.undecided)("load", f.short, f.where, "the state buffer is not filled exactly once")
            return
        if len(wm) != 1:
            (ctx.bad if not wm and w else ctx.undecided)("load", f.short + " masses", f.where, "the mass buffer is not filled exactly once")
            return
        ybase, mv = wy[0][2], wm[0][1]
        ctx.decide(pit.equal(wm[0][2], B.of("m", A[1])), "load", f.short + " masses", wm[0][0].loc, "mass buffer filled from %s" % show(wm[0][2]))
        late = [e for e in E if getattr(e, "block", None) is not None and not f.dominates(e.block, wy[0][0].block.id) and e.block != wy[0][0].block.id and wy[0][0].block.id in f.blocks and f.dominates(wy[0][0].block.id, e.block)]
        if late:
            ctx.bad("load", f.short + " order", late[0].loc, "the staging vector is filled after it was written to the state buffer")
            return
    mi = vinst(S, mv)
    ctx.decide(pit.equal(sz(mi), n * 8), "size", f.short + " requests the mass buffer", mi.loc, "requests %s bytes instead of 1 number per body" % show(sz(mi)))
    for c in range(6):
        src = B.of("pos" if c < 3 else "vel", A[1]) + IDX * 24 + 8 * (c % 3)
        want.append(Cell(ybase + n * (8 * c), n, ld(src), label="%s%s of the state" % ("rv"[c // 3], COMP[c % 3])))
    bases = {single_atom(ybase), single_atom(yv), single_atom(mv)} | ({single_atom(mbase)} if host else set())
    rel = lambda e: bool(e.base.atoms(deep=True) & bases)
    fx = fixes(n, [yv, mv, ybase] + ([mbase] if host else []) + [B.of("pos", A[1]), B.of("vel", A[1]), B.of("m", A[1])])
    accept(S, fx, effs)
    E2 = [e for e in effs if e.base not in st and rel(e)]
    for e in E2:
        # content a fresh buffer had before (an element that is skipped keeps it)
        old = {a: atom("oldcontent", akey(a)[1]) for a in e.value.atoms(deep=True) if akey(a)[0] == "ld" and akey(a)[3] != 0 and akey(a)[1].atoms(deep=True) & bases}
        if old:
            e.value = subst(e.value, old)
    v, det, loc = cells.compare(E2, [b for b in bad], want, fix=fx, seed=ctx.seed, trials=8)
    ctx.decide(v, "load", f.short, loc or f.where, det)


def accept(S, fx, effs):
    """valuations on the accepting path: begin/end pointers of containers tested for emptiness differ, handles are non-null (pseudo-random values satisfy both)"""


def refresh(S, p, bm, n, B):
    """a size computed through the engine's own bodies pointer, which by now is the argument"""
    q = p
    for _ in range(3):
        mp = {}
        for a in q.atoms(deep=True):
            k = akey(a)
            if k[0] == "ld" and k[1] == bm:
                mp[a] = A[1]
        if not mp:
            break
        q = subst(q, mp)
    return subst(q, {a: ZERO for a in q.atoms() if akey(a)[0] == "ind"})


def unload(ctx, mod, B, cls, f, m):
    S = Sym(f, this_class=cls)
    effs, bad = cells.all_effects(S)
    yaddr = members(mod, cls)
    # number of bodies: of the destination or of the engine's own bodies (the same count when used as intended)
    nd = B.of("cnt", A[1])
    counts = {single_atom(nd)}
    for e in effs:
        for p in [topoly(e.count)]:
            counts |= {a for a in p.atoms(deep=True) if akey(a)[0] == "ld" and akey(a)[1] != A[1]}
    own = None
    fi = impl(mod, cls, "init", 2)
    ei, _ = cells.all_effects(Sym(fi, this_class=cls))
    bm = bodies_member(mod, cls, ei)
    fix = fixes(nd, [])
    if bm is not None:
        own = B.of("cnt", ld(bm))
        if single_atom(own) != single_atom(nd):
            fix[single_atom(own)] = lambda V: V.fix[single_atom(nd)]
    direct = any(single_atom(ld(yaddr)) in e.value.atoms(deep=True) for e in effs)
    if direct:
        base = roles.EngineRoles(mod).data(ld(yaddr))
    else:
        r = [x for x in f.all() if x.op == "call" and (x.callee is None and S.vcall(x) and S.vcall(x)[1] == "read_buffer" or x.callee and (mod.callee_short(x) or "").endswith("::read_buffer"))]
        if len(r) != 1:
            (ctx.bad if not r and not bad and effs else ctx.undecided)("unload", f.short, f.where, "the state is not read back from its buffer exactly once")
            return
        if S.ev(r[0].ops[2]) != ld(yaddr):
            ctx.decide(pit.equal(S.ev(r[0].ops[2]), ld(yaddr)), "unload", f.short + " reads the state buffer", r[0].loc, "reads %s" % show(S.ev(r[0].ops[2])))
            return
        base = S.ev(r[0].ops[1])
        early = [e for e in effs if getattr(e, "block", None) is not None and e.block != r[0].block.id and f.dominates(e.block, r[0].block.id) and single_atom(base) in e.value.atoms(deep=True)]
        if early:
            ctx.bad("unload", f.short + " order", early[0].loc, "the staging vector is used before it was read")
            return
    want = []
    for c in range(6):
        want.append(Cell(B.of("pos" if c < 3 else "vel", A[1]) + 8 * (c % 3), nd, ld(base + nd * (8 * c) + IDX * 8), stride=24, label="%s.%s of the bodies" % ("position velocity".split()[c // 3], COMP[c % 3])))
    for n, p in enumerate([base, B.of("pos", A[1]), B.of("vel", A[1])]):
        a = single_atom(p)
        if a is not None:
            fix[a] = lambda V, n=n: 1.0e5 * (n + 1) + 8 * int(V.rng.random() * 100)
    loc_ = {a for a in base.atoms(deep=True)}
    v, det, loc = cells.compare([e for e in effs if not (akey(next(iter(e.base.atoms()), single_atom(A[0])))[0] == "alloca")], bad, want, fix=fix, seed=ctx.seed, trials=8)
    ctx.decide(v, "unload", f.short, loc or f.where, det)


def owned(mod, cls):
    fi = impl(mod, cls, "init", 2)
    ei, _ = cells.all_effects(Sym(fi, this_class=cls))
    return ld(roles.need(bodies_member(mod, cls, ei), "bodies member of " + cls))


def psize(ctx, mod, B, cls, f, m):
    S = Sym(f, this_class=cls)
    r = rets(f)
    v = S.ev(r[0].ops[0]) if len(r) == 1 else None
    if v is None:
        ctx.undecided("size", f.short, f.where, "several returns")
        return
    o = owned(mod, cls)
    v = on_bodies(v, o)
    ctx.decide(pit.equal(v, B.of("cnt", o) * 6, fix={single_atom(o): 4096.0}), "size", f.short, f.where, "returns %s" % show(v))


def on_bodies(v, o):
    """with bodies present: comparisons of the bodies pointer with null are false"""
    mp = {}
    for a in v.atoms(deep=True):
        k = akey(a)
        if k[0] == "ind" and k[1][0] in ("eq", "ne") and single_atom(k[1][1]) == single_atom(o):
            mp[a] = ZERO if k[1][0] == "eq" else ONE
    return subst(v, mp) if mp else v


def clock(ctx, mod, B, cls, f, m):
    S = Sym(f, this_class=cls)
    o = owned(mod, cls)
    T, N = B.of("tm", o), B.of("st", o)
    ta, na = akey(single_atom(T))[1], akey(single_atom(N))[1]
    effs, bad = cells.all_effects(S)
    want = {"advise_time": [Cell(ta, ONE, T + ld(A[1])), Cell(na, ONE, N + 1)], "set_time": [Cell(ta, ONE, A[1])], "set_step": [Cell(na, ONE, A[1])]}.get(m, [])
    for c, nm in zip(want, {"advise_time": ("time", "step number"), "set_time": ("time",), "set_step": ("step number",)}.get(m, ())):
        c.label = nm
    fix = {single_atom(o): 4096.0}
    v, det, loc = cells.compare(effs, bad, want, fix=fix, seed=ctx.seed, trials=8)
    if want or effs or bad:
        ctx.decide(v, "clock", f.short, loc or f.where, det)
    if m.startswith("get"):
        r = rets(f)
        if len(r) != 1:
            ctx.undecided("clock", f.short, f.where, "several returns")
            return
        g = on_bodies(S.ev(r[0].ops[0]), o)
        w = T if m == "get_time" else N
        ctx.decide(pit.equal(g, w, fix=fix), "clock", f.short, f.where, "returns %s" % show(g))
