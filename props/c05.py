"""C05: one step of every fixed-formula solver is its textbook formula, and advances the time exactly once by dt."""
from solvers import *
import consts


def y0():
    return V0(Y)


def euler():
    return y0() + DT * F(T0, y0())


def midpoint():
    return y0() + DT * F(T0 + DT * half, y0() + DT * half * F(T0, y0()))


def rk4():
    h = DT * half
    k1 = F(T0, y0())
    k2 = F(T0 + h, y0() + h * k1)
    k3 = F(T0 + h, y0() + h * k2)
    k4 = F(T0 + DT, y0() + DT * k3)
    return y0() + (k1 + k2 * 2 + k3 * 2 + k4) * DT * Fraction(1, 6)


SIMPLE = {"nbody_solver_euler": euler, "nbody_solver_midpoint": midpoint, "nbody_solver_rk4": rk4}


def run(ctx):
    mod = ir.load("seq")
    ctx.rule("formula", "the new state is the textbook one-step formula of the old state, with every derivative evaluated at its own stage time")
    ctx.rule("time", "simulation time grows by exactly the step, once")
    ctx.rule("history", "the multistep formula combines the derivatives of the last consecutive steps with the Adams-Bashforth weights of the configured rank")
    for cls, spec in SIMPLE.items():
        simple(ctx, mod, cls, spec())
    trapeze(ctx, mod)
    stetter(ctx, mod)
    adams(ctx, mod)
    starter(ctx, mod)


def each(ctx, mod, cls, rule, fn, **kw):
    f = impl(mod, cls, "advise", 2)
    if f is None:
        ctx.undecided(rule, cls, "", "no step function")
        return
    ctx.saw("step functions", "%s (%s)" % (f.short, f.where))
    for cfg in configs(mod, cls, f, **kw):
        inst = "%s::advise (%s)" % (cls, cfg)

        def go():
            fl = flow(mod, cls, f, cfg)
            if fl.exit is None:
                ctx.undecided(rule, inst, f.where, "no single exit")
                return
            ctx.saw("configurations", inst)
            for c in fl.final_calls.values():
                if c.cls:
                    ctx.saw("call sites", "%s.%s at %s" % (c.cls, c.method, c.inst.loc))
            fn(cfg, fl, inst, f)
        ctx.guard(rule, inst, go, f.where)


def time_rule(ctx, fl, inst, f):
    v = same(fl, fl.exit[TIME], T0 + DT, seed=ctx.seed)
    ctx.decide(v, "time", inst, f.where, "time after the step is %s" % show(fl.exit[TIME]))
    ctx.decide(same(fl, fl.exit[STEP], S0 + 1, seed=ctx.seed), "time", inst + " step number", f.where, "step number after the step is %s" % show(fl.exit[STEP]))


def simple(ctx, mod, cls, spec):
    def chk(cfg, fl, inst, f):
        got = fl.exit.get(Y, V0(Y))
        ctx.decide(same(fl, got, spec, seed=ctx.seed), "formula", inst, f.where, "new state is %s; the method is %s" % (show(got)[:500], show(spec)[:300]))
        time_rule(ctx, fl, inst, f)
    each(ctx, mod, cls, "formula", chk)


def trapeze(ctx, mod):
    cls = "nbody_solver_trapeze"
    fr = field(mod, cls, "m_refine_steps_count")
    if not fr:
        ctx.undecided("formula", cls, "", "refinement count not found")
        return
    R = single_atom(atom("ld", A0 + fr[0], 8, 0))

    def chk(cfg, fl, inst, f):
        got = fl.exit.get(Y, V0(Y))
        bad = None
        for r in (0, 1, 2, 3):
            f0 = F(T0, y0())
            p = y0() + DT * f0
            for _ in range(r + 1):
                p = y0() + DT * half * (f0 + F(T0 + DT, p))
            v = same(fl, got, p, seed=ctx.seed, fix={R: float(r)}, trials=6)
            if v != "equal":
                bad = (v, r)
                break
        if bad:
            ctx.decide(bad[0], "formula", inst, f.where, "with %d refinements the new state is not y + dt/2 (f(t,y) + f(t+dt,y')); loop: %s" % (bad[1], show(got)[:300]))
        else:
            ctx.ok("formula", inst, f.where)
        time_rule(ctx, fl, inst, f)
    each(ctx, mod, cls, "formula", chk)


def stetter(ctx, mod):
    """u, v recurrences of Stetter's midpoint rule; the warm step is checked against the invariant the step itself re-establishes"""
    cls = "nbody_solver_midpoint_stetter"
    f = impl(mod, cls, "advise", 2)
    if f is None:
        ctx.undecided("formula", cls, "", "no step function")
        return
    fresh, warm = [], []

    def chk(cfg, fl, inst, f):
        got = fl.exit.get(Y, V0(Y))
        # steps that read no persistent buffer start afresh from y
        slots = sorted({akey(a)[1] for a in got.atoms(deep=True) if akey(a)[0] == "v0"} - {Y}, key=show)
        time_rule(ctx, fl, inst, f)
        if not slots:
            u1, v1, _ = step(y0(), y0(), F(T0, y0()))
            ctx.decide(same(fl, got, (u1 + v1) * half, seed=ctx.seed), "formula", inst, f.where, "first step of the pair (u,v) is %s" % show(got)[:400])
            fresh.append((fl, inst))
            return
        warm.append((fl, inst))
        if len(slots) != 3:
            ctx.undecided("formula", inst, f.where, "state kept in %d buffers" % len(slots))
            return
        res = []
        for pu, pv, pf in itertools.permutations(slots):
            u, v = V0(pu), V0(pv)
            inv = {single_atom(V0(pf)): F(T0, u)}
            u1, v1, f1 = step(u, v, F(T0, u))
            g = same(fl, subst(got, inv), (u1 + v1) * half, seed=ctx.seed)
            if g != "equal":
                res.append(g)
                continue
            ends = []
            for slot, want in ((pu, u1), (pv, v1), (pf, f1)):
                h = end_handle(fl, slot)
                ends.append(same(fl, subst(fl.read(fl.exit, h), inv), want, seed=ctx.seed))
            if all(e == "equal" for e in ends):
                ctx.ok("formula", inst, f.where)
                return
            res += ends
        ctx.decide("different" if "undecided" not in res else "undecided", "formula", inst, f.where,
                   "no assignment of (u, v, f(u)) to the kept buffers makes the step and the state it leaves for the next one Stetter's recurrence; new state is %s" % show(got)[:400])

    def step(u, v, fu):
        u1 = u + DT * F(T0 + DT * half, v + DT * half * fu)
        f1 = F(T0 + DT, u1)
        return u1, v + DT * half * (fu + f1), f1
    each(ctx, mod, cls, "formula", chk)
    if fresh and warm:
        # the first step must leave what later steps rely on
        fl0, inst = fresh[0]
        fl1, _ = warm[0]
        slots = sorted({akey(a)[1] for a in fl1.exit[Y].atoms(deep=True) if akey(a)[0] == "v0"} - {Y}, key=show)
        u1, v1, f1 = step(y0(), y0(), F(T0, y0()))
        for fl0, inst in fresh:
            vals = [fl0.read(fl0.exit, end_handle(fl0, s)) for s in slots]
            ok = any(all(same(fl0, v, w, seed=ctx.seed) == "equal" for v, w in zip(vals, p)) for p in itertools.permutations((u1, v1, f1))) if len(slots) == 3 else None
            ctx.decide(ok if ok is not None else "undecided", "formula", inst + " leaves (u, v, f(u))", f.where, "the first step leaves %s in the kept buffers" % [show(v)[:200] for v in vals])


def end_handle(fl, slot):
    """handle held at the end of the step by the place that held `slot` at its beginning"""
    a = single_atom(slot)
    k = akey(a)
    if k[0] != "ld":
        return slot
    addr = k[1]
    S = fl.S
    b = fl.exits[0][0]
    roots = [S.ev(S.root(s.ops[1])) for s in S.stores()]
    for rk in roots:
        if (addr - rk).const() is not None:
            return fl.norm(S.mem_out(b, addr, 8, rk))
    return slot


def ab_weights(r):
    """exact Adams-Bashforth weights of order r (weight of f at step -j)"""
    import itertools as it
    # solve sum_j w_j (-j)^q = 1/(q+1)
    M = [[Fraction((-j) ** q if not (q == 0) else 1) for j in range(r)] + [Fraction(1, q + 1)] for q in range(r)]
    for c in range(r):
        p = next(i for i in range(c, r) if M[i][c] != 0)
        M[c], M[p] = M[p], M[c]
        M[c] = [x / M[c][c] for x in M[c]]
        for i in range(r):
            if i != c:
                M[i] = [x - M[i][c] * y for x, y in zip(M[i], M[c])]
    return [M[i][r] for i in range(r)]


def adams(ctx, mod):
    cls = "nbody_solver_adams"
    f = impl(mod, cls, "advise", 2)
    fr, fs = field(mod, cls, "m_rank"), field(mod, cls, "m_step")
    if f is None or not fr or not fs:
        ctx.undecided("history", cls, "", "step function, rank or step counter not found")
        return
    ctx.saw("step functions", "%s (%s)" % (f.short, f.where))
    flags = None
    for R in range(1, 6):
        w = ab_weights(R)
        base = list(configs(mod, cls, f, firsts=(False,)))
        for b in base:
            slot = {}           # buffer -> last step that stored its derivative there
            started = None
            for s in range(0, 3 * R + 3):
                cfg = Config(mod, cls, s == 0, b.flags, {fr[0]: R, fs[0]: s})
                if s == 0:
                    for c in configs(mod, cls, f, firsts=(True,)):
                        cfg.given.update(c.given)
                inst = "%s::advise rank %d (%s)" % (cls, R, ", ".join("%s=%s" % (mod.field_at(cls, o)[0], v) for o, v in sorted(b.flags.items())))

                def go():
                    fl = flow(mod, cls, f, cfg)
                    if fl.exit is None:
                        raise Unhandled("no single exit")
                    got = fl.exit.get(Y, V0(Y))
                    if fl.exit[TIME] != T0 + DT:
                        v = same(fl, fl.exit[TIME], T0 + DT, seed=ctx.seed)
                        if v != "equal":
                            return (v, "time", "step %d: time after the step is %s" % (s, show(fl.exit[TIME])))
                    fnow = F(T0, y0())
                    stored = [h for h, v in fl.exit.items() if isinstance(h, P) and h != Y and v == fnow]
                    st = [akey(a) for a in got.atoms(deep=True) if akey(a)[0] == "STEP"]
                    nxt = end_field(fl, fs[0])
                    if nxt is not None and nxt != topoly(s + 1):
                        return ("different", "history", "step counter goes from %d to %s" % (s, show(nxt)))
                    for h in stored:
                        slot[h] = s
                    if st:
                        if got != atom(*st[0]) or st[0][2] != T0 or st[0][3] != y0() or st[0][4] != DT:
                            return ("different", "history", "starting step %d does not hand the unchanged state, time and step to the starting solver: %s" % (s, show(got)[:200]))
                        return None
                    want = y0() + DT * w[0] * fnow
                    for n in range(1, R):
                        hs = [h for h, q in slot.items() if q == s - n]
                        if not hs:
                            return ("different", "history", "step %d uses the multistep formula but the derivative of step %d was not kept" % (s, s - n))
                        want = want + DT * w[n] * V0(hs[0])
                    v = same(fl, got, want, seed=ctx.seed)
                    if v != "equal":
                        return (v, "history", "step %d: new state is %s; Adams-Bashforth of rank %d is %s" % (s, show(got)[:400], R, show(want)[:400]))
                    return None
                try:
                    r = go()
                except Exception as e:   # noqa
                    import os, traceback
                    if os.environ.get("NBSA_DEBUG"):
                        traceback.print_exc()
                    r = ("undecided", "history", "analysis failed: %s: %s" % (type(e).__name__, e))
                if r:
                    ctx.decide(r[0], r[1], inst, f.where, r[2])
                    break
            else:
                ctx.ok("history", inst, f.where)
                ctx.ok("time", inst, f.where)
                ctx.saw("configurations", inst + ": steps 0..%d" % (3 * R + 2))


def end_field(fl, off):
    S = fl.S
    if not fl.exits:
        return None
    return fl.norm(S.mem_out(fl.exits[0][0], A0 + off, 8, A0))


def starter(ctx, mod):
    pass
