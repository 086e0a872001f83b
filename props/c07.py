"""C07: a Bulirsch-Stoer step."""
from solvers import *
from famflow import FamFlow, FamVal, fl_norm
import vecflow
import constprop

CLS = "nbody_solver_bulirsch_stoer"


class BSFlow(FamFlow):
    """internal solver and extrapolation table as abstract state"""

    def region(self, order, entry, st):
        st[("table",)] = atom("tab0")
        st[("internal",)] = atom("used0")
        return super().region(order, entry, st)

    def op(self, st, i):
        v = self.S.vcall(i)
        if v is not None and "nbody_solver" in [v[0]] + self.mod.bases(v[0]):
            if v[1] == "advise":
                dt = self.norm(self.S.ev(i.ops[1]))
                y = self.read(st, Y)
                key = [st[TIME], y, dt, st[("internal",)]]
                self.write(st, Y, atom("ISTEP", *key))
                st[("internal",)] = atom("INEXT", *key)
                st[TIME] = st[TIME] + dt
                self.written |= {("internal",), TIME}
                rec = vecflow.Call(i, v[0], v[1], None, dict(st))
                self.final_calls[i.id] = rec
                return
            if v[1] == "reset":
                st[("internal",)] = atom("fresh")
                self.written.add(("internal",))
                return
        return super().op(st, i)

    def direct(self, st, i, rec):
        # objects built for the step take no part in the state
        n = (rec.method or "").split("::")
        if len(n) > 1 and n[-1] == n[-2] or n[-1] in ("set_engine", "nbody_create_extrapolator"):
            return
        super().direct(st, i, rec)


class BSVal(FamVal):
    steps = None

    def _atom(self, a):
        k = akey(a)
        if k[0] == "ld" and self.steps is not None and k[3] == 0:
            d = k[1] - self.steps
            if single_atom(self.steps) in k[1].atoms() and single_atom(self.steps) not in d.atoms(deep=True):
                return float(1 + int(3 * abs(self.h("nsteps", self.rnd(self.ev(d)))) / 3.0001) % 3 + self.rnd(self.ev(d)) // 8)
        return super()._atom(a)


def run(ctx):
    mod = ir.load("seq")
    ctx.rule("bulirsch-stoer", "every level restarts from the state and time at the beginning of the step, runs its number of substeps of dt over that number with a freshly reset inner solver, and enters its result in the "
                               "extrapolation table; from the third level on the step ends with the extrapolated state as soon as the error estimate is below the threshold or the last level is reached")
    ctx.rule("time", "the simulation time after the step is the time before it plus dt")
    ctx.rule("extrapolator", "the extrapolation is built for the same substep sequence and for an error expansion in even powers")
    ctx.rule("sequence", "the substep numbers of the levels are the Bulirsch-Stoer sequence 2, 4, 6, 8, 12, 16, 24, ...: one for every level, from the fourth on twice the last but one")
    ctx.guard("sequence", CLS + " constructor", lambda: sequence(ctx, mod))
    f = impl(mod, CLS, "advise", 2)
    if f is None:
        ctx.undecided("bulirsch-stoer", CLS, "", "no step function")
        return
    ctx.saw("functions", "%s (%s)" % (f.short, f.where))
    for cfg in configs(mod, CLS, f):
        inst = "%s::advise (%s)" % (CLS, cfg)
        ctx.guard("bulirsch-stoer", inst, lambda: one(ctx, mod, f, cfg, inst), f.where)


def sequence(ctx, mod):
    inst = CLS + " constructor"
    fs = [g for g in mod.funcs.values() if g.short == "%s::%s" % (CLS, CLS) and len(list(g.all()))]
    if len(fs) != 1:
        ctx.undecided("sequence", inst, "", "constructor not found")
        return
    g = fs[0]
    lv, vec = (roles_need(field(mod, CLS, n), n)[0] for n in ("m_max_level", "m_sub_steps_count"))
    ctx.saw("functions", "%s (%s)" % (g.short, g.where))
    bad = None
    for n in range(3, 9 if ctx.tier == "quick" else 17):
        want = [2, 4, 6]
        while len(want) < n:
            want.append(2 * want[-2])
        P = constprop.Prop(mod)
        try:
            P.run(g, [constprop.Ptr("this"), n, None])
        except constprop.Undecided as e:
            ctx.undecided("sequence", inst, g.where, str(e))
            return
        v = P.vecs.get(("this", vec))
        got = v.items if v else None
        if got is None or P.mem.get(("this", lv)) != n:
            ctx.undecided("sequence", inst, g.where, "members not set")
            return
        # a longer sequence starting with the right numbers is as good
        if got[:n] != want:
            bad = "with %d levels the substep numbers are %s, not %s" % (n, got, want)
            break
    ctx.decide(bad is None, "sequence", inst, g.where, bad or "")


def ld(a):
    return atom("ld", a, 8, 0)


def one(ctx, mod, f, cfg, inst):
    off = {n: roles_need(field(mod, CLS, n), n)[0] for n in ("m_max_level", "m_error_threshold", "m_sub_steps_count")}
    fl = BSFlow(mod, CLS, f, cfg.decide, given=cfg.given)
    fl.sizes = {}
    fl.run()
    ctx.saw("configurations", inst)
    if fl.exit is None:
        ctx.undecided("bulirsch-stoer", inst, f.where, "no single exit")
        return
    for c in fl.final_calls.values():
        if c.cls:
            ctx.saw("call sites", "%s.%s at %s" % (c.cls, c.method, c.inst.loc))
    steps = ld(A0 + off["m_sub_steps_count"])
    ml, thr = ld(A0 + off["m_max_level"]), ld(A0 + off["m_error_threshold"])
    BSVal.steps = steps
    fix = {single_atom(ml): lambda V: V.rng.choice([3, 4, 5, 9, 12]), single_atom(thr): lambda V: V.rng.choice([-1.0, 0.0, 1.0, 2.0, -4.0]), single_atom(DT): 0.75, single_atom(steps): 65536.0,
           single_atom(T0): lambda V: V.rng.random()}

    def spec(V):
        q = lambda x: V.rnd(x * 4096)
        n = V.rnd(V.ev(ml))
        y0, t0, dt = V.ev(V0(Y)), V.ev(T0), V.ev(DT)
        table = V.ev(atom("tab0"))
        fresh = V.ev(atom("fresh"))
        for level in range(n):
            y, t, s = y0, t0, fresh
            N = V.rnd(V.ev(ld(steps + 8 * level)))
            h = dt / N
            for j in range(N):
                k = [q(t), q(y), q(h), q(s)]
                y, s = V.num(V.h("ISTEP", *k)), V.num(V.h("INEXT", *k))
                t = t + h
            table = V.num(V.h("upd", q(table), q(level), q(y)))
            if level < 2:
                continue
            err = V.num(V.h("ERR", q(level), q(table)))
            if err - V.ev(thr) < -V.tol or level == n - 1:
                return V.num(V.h("EXTRAP", q(level), q(table)))
        return y
    got = fl.exit.get(Y, V0(Y))
    same.why = ""
    v = same(fl, got, spec, seed=ctx.seed, fix=fix, klass=BSVal, trials=30 if ctx.tier == "quick" else 100)
    ctx.decide(v, "bulirsch-stoer", inst, f.where, same.why or "state after the step is %s" % show(got)[:300])
    same.why = ""
    v = same(fl, fl.exit[TIME], T0 + DT, seed=ctx.seed, fix=fix, klass=BSVal)
    ctx.decide(v, "time", inst, f.where, same.why or "time after the step is %s" % show(fl.exit[TIME])[:300])
    if cfg.first:
        n = 0
        for x in f.calls():
            nm = mod.callee_short(x) if x.callee else None
            own = nm and nm.rsplit("::", 1)[0]
            ctor = nm and nm == "%s::%s" % (own, own) and "nbody_extrapolator" in [own] + mod.bases(own)
            if nm and (ctor or nm.endswith("nbody_create_extrapolator")) and len(x.ops) >= 4:
                n += 1
                ctx.decide(fl.S.ev(x.ops[2]).const() == 2 and fl.S.ev(x.ops[3]) == A0 + off["m_sub_steps_count"], "extrapolator", "%s creates its extrapolator" % f.short, x.loc,
                           "order %s, sequence %s" % (show(fl.S.ev(x.ops[2])), show(fl.S.ev(x.ops[3]))))
        if not n:
            ctx.undecided("extrapolator", f.short, f.where, "creation not recognised")


def roles_need(x, n):
    if x is None:
        raise Unhandled("member %s not found" % n)
    return x
