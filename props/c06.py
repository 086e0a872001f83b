"""C06: one (sub)step of every tabulated Runge-Kutta solver is the scheme of its table, with error-driven subdivision."""
from solvers import *
from famflow import FamFlow, FamVal
import vecflow

CLS = "nbody_solver_rk_butcher"
B_ = [atom("arg", i) for i in range(6)]


class RKFlow(FamFlow):
    def direct(self, st, i, rec):
        if rec.method != CLS + "::sub_step" or len(i.ops) != 6:
            raise Unhandled("call of %s at %s" % (rec.method, i.loc))
        a = rec.vals["args"]
        h = a[4]
        y = self.read(st, h)
        key = [a[1], a[2], a[3], a[5], y]
        for k in list(st):
            if k in self.stores0 or isinstance(k, (tuple, str)):
                continue
            if k == B_[4] or k == vecflow.Y or self.famkey(k):
                continue
            st[k] = atom("clob", k, *key)
            self.written.add(k)
        for h2 in self.shared:
            if h2 not in st:
                st[h2] = atom("clob", h2, *key)
                self.written.add(h2)
        for k in self.stores0:
            if k != (self.famkey(h) or [None])[0]:
                st[k] = atom("aclob", k[1], *key)
                self.written.add(k)
        self.write(st, h, atom("SUB", *key))
        rec.vals.update(rec_=key, handle=h)

    shared = ()


def tab(n):
    return atom("tab", n)


def ld(a):
    return atom("ld", a, 8, 0)


class Spec:
    """the scheme, evaluated under one valuation"""

    def __init__(self, V, off, first, implicit, embedded, corr, refine):
        self.V, self.off, self.first, self.imp, self.emb, self.corr, self.refine = V, off, first, implicit, embedded, corr, refine
        self.ev = V.ev
        q = lambda x: V.rnd(x * 4096)
        self.q = q
        self.s = V.rnd(V.ev(tab("get_steps")))
        self.n = V.rnd(V.ev(B_[1]))

    def F(self, t, v):
        return self.V.num(self.V.h("F", self.q(t), self.q(v)))

    def run(self):
        V, q, ev, s = self.V, self.q, self.ev, self.s
        A = [[ev(ld(ld(tab("get_a") + 8 * i) + 8 * n)) for n in range(s)] for i in range(s)]
        b1 = [ev(ld(tab("get_b1") + 8 * n)) for n in range(s)]
        b2 = [ev(ld(tab("get_b2") + 8 * n)) for n in range(s)]
        c = [ev(ld(tab("get_c") + 8 * n)) for n in range(s)]
        o = self.off
        t0, dt, lvl = ev(B_[2]), ev(B_[3]), ev(B_[5])
        y = ev(V0(B_[4]))
        K = [("arr0", o["k"]), {}]
        el = lambda i: K[1][i] if i in K[1] else V.num(V.h("elem", K[0], i))
        m = lambda n: ev(ld(A0 + o[n]))
        yc = self.V.num(0) if self.first else (ev(V0(ld(A0 + o["yc"]))) if self.corr else 0)
        self.ambig = False
        for sub in range(self.n):
            t = t0 + dt * sub
            if self.imp:
                if self.first:
                    f0 = self.F(t, y)
                    for i in range(s):
                        K[1][i] = self.F(t + c[i] * dt, y + dt * c[i] * f0)
                for it in range(self.refine):
                    for i in range(s):
                        K[1][i] = self.F(t + c[i] * dt, y + sum(dt * A[i][n] * el(n) for n in range(s)))
            else:
                for i in range(s):
                    K[1][i] = self.F(t + c[i] * dt, y + sum(dt * A[i][n] * el(n) for n in range(i)))
            err = abs(sum((b2[n] - b1[n]) * el(n) for n in range(s))) if self.emb else 0
            if self.emb and lvl < m("rec") - V.tol and m("min") - dt < -V.tol and m("thr") - err < -V.tol:
                ns = m("subdiv")
                key = (ns, t, dt / ns, lvl + 1, y)
                kk = [q(x) for x in key]
                y = V.num(V.h("SUB", *kk))
                K = [("aclob", o["k"]) + tuple(kk), {}]
                if self.corr:
                    yc = V.num(V.h("clob", q(ev(self.ych)), *kk))
            else:
                d = sum(dt * b2[n] * el(n) for n in range(s))
                if self.corr:
                    yc = V.num(V.h("KC", q(y), q(yc), q(d)))
                y = y + d
        self.yc = yc
        return y


def run(ctx):
    mod = ir.load("seq")
    ctx.rule("stages", "the new state is old state + dt*sum b2[n]*k[n], k[i] = f(t + c[i]*dt, y + dt*sum a[i][n]*k[n]) (fixed-point iterated for implicit tables), repeated for every substep at t + j*dt, "
                       "unless the embedded error estimate exceeds the threshold, the recursion limit is not reached and dt exceeds the minimal step: then the state is that of the subdivided step")
    ctx.rule("compensation", "with compensated summation the running compensation is carried only by the accepted updates")
    ctx.rule("recursion", "the subdivided step works on a buffer of its own level inside the allocated stack")
    ctx.rule("step", "a step runs one top-level substep from the current time on the state vector and advances the time once by dt")
    fs = [f for f in mod.by_short(CLS + "::sub_step") if len(f.args) == 6]
    if len(fs) != 1:
        ctx.undecided("stages", CLS + "::sub_step", "", "no recursive substep with the known signature")
    else:
        ctx.guard("stages", CLS + "::sub_step", lambda: substep(ctx, mod, fs[0]), fs[0].where)
    classes = [c for c in [CLS] + mod.derived(CLS) if mod.vtable(c)]
    seen = set()
    for cls in classes:
        f = impl(mod, cls, "advise", 2)
        if f is None or f.name in seen:
            continue
        seen.add(f.name)
        ctx.guard("step", f.short, lambda: step(ctx, mod, cls, f), f.where)


def offsets(mod):
    names = {"k": "m_k", "rec": "m_max_recursion", "subdiv": "m_substep_subdivisions", "thr": "m_error_threshold", "min": "m_min_step", "yc": "m_ycorr_data", "tc": "m_tcorr_data",
             "refine": "m_refine_steps_count", "corr": "m_correction", "stack": "m_y_stack", "t": "m_t"}
    r = {}
    for k, n in names.items():
        fl = field(mod, CLS, n)
        if fl is None:
            raise Unhandled("member %s not found" % n)
        r[k] = fl[0]
    return r


def substep(ctx, mod, f):
    off = offsets(mod)
    n = 0
    for first in (True, False):
        for imp in (False, True):
            for emb in (True, False):
                for corr in (False, True):
                    for refine in ((0, 1, 3) if imp else (1,)):
                        inst = "%s (%s, %s, %s%s%s)" % (f.short, "first step" if first else "later step", "implicit" if imp else "explicit", "embedded" if emb else "not embedded",
                                                         ", compensated" if corr else "", ", %d refinements" % refine if imp else "")
                        ctx.guard("stages", inst, lambda: one(ctx, mod, f, off, first, imp, emb, corr, refine, inst), f.where)


def cfgdecide(mod, first, imp, emb, corr, off):
    def dec(c):
        if c[0] in ("b", "nb", "eq", "ne"):
            a = single_atom(c[1])
            if a is not None and akey(a)[0] in ("vcall", "tab"):
                v = {"is_implicit": imp, "is_embedded": emb}.get(akey(a)[2] if akey(a)[0] == "vcall" else akey(a)[1])
                if v is not None:
                    return v == (c[0] in ("b", "ne"))
            m = member_load(c[1])
            if m and m[0] == off["corr"]:
                return corr == (c[0] in ("b", "ne"))
            if c[0] in ("eq", "ne"):
                k = presence(mod, CLS, c[1])
                if k:
                    return first == (c[0] == "eq")
        return None
    return dec


def flags(mod, f, first):
    """members a step sets to a constant: what the constructor gives them, or what a step leaves"""
    def consts(g):
        S, r = sym.Sym(g, this_class=CLS), {}
        for s in S.stores():
            k = (S.store_addr(s) - A0).const()
            if k is not None and int(k) > 0 and s.ops[0][0] != "null":
                r.setdefault(int(k), set()).add(S.ev(s.ops[0]).const())
        return {k: next(iter(v)) for k, v in r.items() if len(v) == 1 and None not in v}
    end = consts(f)
    cs = [c for c in mod.by_short(CLS + "::" + CLS) if "C2" in c.name and c.blocks]
    ini = consts(cs[0]) if len(cs) == 1 else {}
    names = {o: t for o, n, t, sz in mod.fields_flat(CLS)}
    return {k: int(ini[k] if first else v) for k, v in end.items() if k in ini and names.get(k) in ("bool", "int", "unsigned int", "size_t", "unsigned long", "long")}


def one(ctx, mod, f, off, first, imp, emb, corr, refine, inst):
    given = {off["refine"]: refine}
    given.update(flags(mod, f, first))
    fl = RKFlow(mod, CLS, f, cfgdecide(mod, first, imp, emb, corr, off), given=given)
    fl.sizes = {o: fl.norm(v) for o, v in vector_sizes(mod, CLS, f, fl).items()}
    ych = None
    if corr:
        for x in fl.S.f.all():
            pass
        S = fl.S
        hs = set()
        for x in f.calls():
            v = S.vcall(x) if x.callee is None else None
            if v and v[1] == "fmaddn_corr":
                hs.add((fl.norm(S.ev(x.ops[1])), fl.norm(S.ev(x.ops[2]))))
        ych = [b for a, b in hs if a == B_[4]]
        ych = ych[0] if ych else None
        fl.shared = [ych] if ych is not None else []
    fl.run()
    ctx.saw("functions", f.short)
    ctx.saw("configurations", inst)
    if fl.exit is None:
        ctx.undecided("stages", inst, f.where, "no single exit")
        return
    for c in fl.final_calls.values():
        if c.cls:
            ctx.saw("call sites", "%s.%s at %s" % (c.cls, c.method, c.inst.loc))
    got = fl.exit.get(B_[4], V0(B_[4]))
    mem = lambda n: single_atom(ld(A0 + off[n]))
    fix = {single_atom(tab("get_steps")): lambda V: V.rng.choice([1, 2, 3, 4]),
           single_atom(B_[1]): lambda V: V.rng.choice([1, 2, 3]),
           single_atom(B_[3]): lambda V: V.rng.choice([0.25, 0.5, 0.75]),
           single_atom(B_[5]): lambda V: V.rng.choice([0, 1, 2]),
           mem("rec"): lambda V: V.rng.choice([0, 1, 2, 3, 3, 3]),
           mem("min"): lambda V: V.rng.choice([0.0, 0.1, 0.25, 0.5, 1.0]),
           mem("thr"): lambda V: V.rng.choice([0.0, 1e-3, 0.3, 0.6, 1.0, 1.5, 2.5, 100.0]),
           mem("subdiv"): lambda V: V.rng.choice([2, 3, 8]),
           single_atom(B_[2]): lambda V: V.rng.random()}
    for a in ("get_a", "get_b1", "get_b2", "get_c"):
        fix[single_atom(tab(a))] = 8192.0 * (1 + ["get_a", "get_b1", "get_b2", "get_c"].index(a))
    sp = {}

    def spec(V):
        s = Spec(V, off, first, imp, emb, corr, refine)
        s.ych = ych if ych is not None else ld(A0 + off["yc"])
        r = s.run()
        V.spec = s
        return r
    tr = 40 if ctx.tier == "quick" else 80
    same.why = ""
    v = same(fl, got, spec, seed=ctx.seed, fix=fix, klass=FamVal, trials=tr)
    ctx.decide(v, "stages", inst, f.where, same.why or "the state after the substeps is not that of the scheme: %s" % show(got)[:300])
    if corr:
        if ych is None:
            ctx.undecided("compensation", inst, f.where, "compensation buffer not recognised")
        else:
            g = fl.exit.get(ych, V0(ych))

            def spc(V):
                spec(V)
                return V.spec.yc
            ctx.decide(same(fl, g, spc, seed=ctx.seed, fix=fix, klass=FamVal, trials=tr), "compensation", inst, f.where, "compensation after the substeps is %s" % show(g)[:300])
    if emb and not imp and not first and not corr:
        recursion(ctx, fl, off, inst)


def recursion(ctx, fl, off, inst):
    recs = [c for c in fl.final_calls.values() if c.vals.get("handle") is not None]
    if not recs:
        ctx.undecided("recursion", inst, "", "no subdivided step found")
        return
    for c in recs:
        k = fl.famkey(c.vals["handle"])
        if not k or k[0] != ("fam", off["stack"]):
            ctx.undecided("recursion", "%s at %s" % (inst, "recursive call"), c.inst.loc, "works on %s" % show(c.vals["handle"]))
            continue
        idx = []
        for lv in range(5):
            V = pit.Valuation(sizes=set(), seed=lv)
            V.fix[single_atom(B_[5])] = float(lv)
            V.fix[single_atom(ld(A0 + off["rec"]))] = 5.0
            idx.append(V.rnd(V.ev(k[1])))
        ok = len(set(idx)) == 5 and min(idx) >= 0 and max(idx) < 5
        n = fl.sizes.get(off["stack"])
        ctx.decide(ok, "recursion", "own buffer per level", c.inst.loc, "levels 0..4 of a limit of 5 use buffers %s" % idx)
        if n is not None:
            ctx.decide(pit.equal(n, ld(A0 + off["rec"])), "recursion", "size of the buffer stack", c.inst.loc, "allocates %s buffers" % show(n))


def step(ctx, mod, cls, f):
    ctx.saw("functions", f.short)
    fl = RKFlow(mod, cls, f)
    fl.sizes = {}
    fl.run()
    if fl.exit is None:
        ctx.undecided("step", f.short, f.where, "no single exit")
        return
    got = fl.exit.get(Y, V0(Y))
    want = atom("SUB", ONE, T0, DT, ZERO, V0(Y))
    ctx.decide(same(fl, got, want, seed=ctx.seed, klass=FamVal), "step", f.short + " state", f.where, "state after a step is %s" % show(got)[:300])
    ctx.decide(same(fl, fl.exit[TIME], T0 + DT, seed=ctx.seed, klass=FamVal), "step", f.short + " time", f.where, "time after a step is %s" % show(fl.exit[TIME])[:300])
    ctx.decide(same(fl, fl.exit[STEP], S0 + 1, seed=ctx.seed, klass=FamVal), "step", f.short + " step number", f.where, "step number after a step is %s" % show(fl.exit[STEP])[:300])
