"""C24: engines account for their buffers and for every force evaluation."""
import ir
import constprop
from constprop import Ptr, Vec, Undecided
from vecflow import Unhandled
from roles import *

KEEP = ("--keep=nbody_engine::advise_compute_count,nbody_engine_opencl::fcompute_bh_impl",)
NEW = ("operator new", "operator new[]")
DELETE = ("operator delete", "operator delete[]")


def vptr(mod, cls):
    for g in mod.globals:
        if g.startswith("_ZTV") and mod.demangle(g) == "vtable for " + cls:
            return Ptr(("g", g), 16)
    raise Unhandled("no virtual table of %s" % cls)


def virtual_impl(mod, cls, name):
    """the implementation of a virtual function in force for a class"""
    for s in mod.vtable(cls) or []:
        g = mod.funcs.get(s) if s else None
        if g is not None and g.short.rsplit("::", 1)[-1] == name:
            return g
    return None


class Alloc(constprop.Prop):
    """allocations and releases of host memory along the path"""
    VEC = ("std::vector<nbody_engine::memory*",)

    def __init__(self, mod):
        constprop.Prop.__init__(self, mod)
        self.allocs, self.freed, self.objects, self.deleted = [], [], [], []

    def hook(self, i, callee, nm, a):
        if nm in NEW:
            self.objects.append(Ptr(("obj", len(self.objects)), 0))
            self.mem_size(self.objects[-1], a[0])
            return self.objects[-1]
        if nm in DELETE:
            self.deleted.append(a[0])
            return None
        if nm in ("malloc", "calloc", "aligned_alloc"):
            n = a[0] if nm == "malloc" else a[1] if nm == "aligned_alloc" else a[0] * a[1] if all(isinstance(x, int) for x in a[:2]) else None
            self.objects.append(Ptr(("obj", len(self.objects)), 0))
            self.mem_size(self.objects[-1], n)
            return self.objects[-1]
        if nm == "free":
            self.deleted.append(a[0])
            return None
        return NotImplemented

    def mem_size(self, p, n):
        self.allocs.append((p, n))


class Arrays(constprop.Prop):
    """create_buffer and free_buffer as events; the k-th creation may fail"""
    VEC = ("std::vector<nbody_engine::memory*",)

    def __init__(self, mod, fail=None):
        constprop.Prop.__init__(self, mod)
        self.fail, self.made, self.sizes, self.freed, self.n_create = fail, [], [], [], 0

    def hook(self, i, callee, nm, a):
        m = nm.rsplit("::", 1)[-1]
        if m == "create_buffer":
            self.sizes.append(a[1])
            k = self.n_create
            self.n_create += 1
            if k == self.fail:
                return 0
            self.made.append(Ptr(("buf", k), 0))
            return self.made[-1]
        if m == "free_buffer":
            self.freed.append(a[1])
            return None
        if nm.startswith("llvm.mem"):
            return None
        return NotImplemented


def names(l):
    return ["buffer %s" % x.base[1] if isinstance(x, Ptr) and isinstance(x.base, tuple) and x.base[0] == "buf" else str(x) for x in l]


def engines(mod):
    return [c for c in mod.derived("nbody_engine") if mod.vtable(c)]


def run(ctx):
    mod = ir.load("seq", nbx_args=KEEP)
    ctx.rule("count", "on every path through a force evaluation that gets as far as computing forces the evaluation is counted exactly once")
    ctx.rule("counter", "the counter of a new engine is zero, counting adds one to it, the query returns it and nothing else changes it; the order of the equations is what was set last")
    ctx.rule("arrays", "an array of n buffers consists of n different new buffers of the wanted size; if one of them cannot be made, those made before are released once each and the array is empty; releasing an array releases "
                       "each of its buffers once and leaves the array empty")
    ctx.rule("buffer", "a host buffer made for n bytes says that its size is n and owns at least n bytes of its own, which are given back exactly once when it is released; releasing no buffer does nothing")
    impls = {}
    for c in engines(mod):
        for m, rule, fn in (("fcompute", "count", count), ("create_buffers", "arrays", create), ("free_buffers", "arrays", release), ("create_buffer", "buffer", buffer)):
            g = virtual_impl(mod, c, m)
            if g is None:
                if m != "create_buffer":
                    ctx.undecided(rule, "%s::%s" % (c, m), "", "implementation not found")
                continue
            if (m, g.name) in impls:
                continue
            impls[(m, g.name)] = c
            ctx.saw("functions", "%s (%s)" % (g.short, g.where))
            ctx.guard(rule, "%s (%s)" % (g.short, c), lambda fn=fn, g=g, c=c: fn(ctx, mod, c, g), g.where)
    ctx.guard("counter", "nbody_engine counters", lambda: counter(ctx, mod))
    ctx.rule("solver", "a solver that is given an engine works with this engine and tells it the order of its equations")
    seen = set()
    for c in mod.derived("nbody_solver"):
        if mod.vtable(c):
            f = next((f for k in [c] + mod.bases(c) for f in mod.funcs.values() if f.short == k + "::set_engine" and list(f.all())), None)
            o = virtual_impl(mod, c, "get_ode_order")
            if f is not None and o is not None and (f.name, o.name) not in seen:
                seen.add((f.name, o.name))
                ctx.guard("solver", "%s for %s" % (f.short, c), lambda f=f, c=c, o=o: given(ctx, mod, c, f, o), f.where)


# --- force evaluations -----------------------------------------------------------------------------------------------

def count(ctx, mod, cls, g):
    inst = "%s counts its force evaluation" % g.short
    heavy = {}

    def work(f, seen=()):
        """does the function do work in a loop"""
        if f.name not in heavy:
            heavy[f.name] = False
            heavy[f.name] = bool(f.loops) or any(w(x) for x in f.calls())
        return heavy[f.name]

    def w(x):
        nm = (mod.callee_short(x) or "") if x.callee else ""
        if nm.startswith("cl::") or "__kmpc_fork_call" in nm:
            return "Event" not in nm
        h = mod.funcs.get(x.callee) if x.callee else None
        return h is not None and "/repo" in (h.where or "") and bool(list(h.all())) and h.short != "nbody_engine::advise_compute_count" and work(h)

    memo = {}

    def flow(f, depth=0):
        """(work done, number of counts up to 2) that are possible at the exits, for entry (False, 0)"""
        if f.name in memo:
            return memo[f.name]
        if depth > 8:
            raise Unhandled("calls nested too deeply")
        memo[f.name] = {(True, 0)}
        first = min(b.id for b in (f.blocks.values() if isinstance(f.blocks, dict) else f.blocks))
        at = {first: {(False, 0)}}
        todo, out = [first], {}
        while todo:
            b = todo.pop()
            blk = f.blocks[b]
            sts = set(at[b])
            if f.loop_chain(b) or b in f.loops:
                sts = {(True, n) for _, n in sts}
            for i in blk.insts:
                if i.op in ("call", "invoke") and i.callee:
                    nm = mod.callee_short(i) or ""
                    if nm == "nbody_engine::advise_compute_count":
                        sts = {(wk, min(2, n + 1)) for wk, n in sts}
                        ctx.saw("call sites", "%s at %s" % (nm, i.loc))
                    else:
                        h = mod.funcs.get(i.callee)
                        if h is not None and "/repo" in (h.where or "") and list(h.all()) and counts(h):
                            sub = flow(h, depth + 1)
                            sts = {(wk or w2, min(2, n + n2)) for wk, n in sts for w2, n2 in sub}
                        elif w(i):
                            sts = {(True, n) for _, n in sts}
            if blk.insts and blk.insts[-1].op == "ret":
                out.setdefault(b, set()).update(sts)
            for s in blk.succ:
                if not sts <= at.get(s, set()):
                    at.setdefault(s, set()).update(sts)
                    todo.append(s)
        memo[f.name] = set().union(*out.values()) if out else set()
        return memo[f.name]

    cc = {}

    def counts(h):
        if h.name not in cc:
            cc[h.name] = False
            cc[h.name] = any(x.callee and ((mod.callee_short(x) or "") == "nbody_engine::advise_compute_count" or (mod.funcs.get(x.callee) is not None and "/repo" in (mod.funcs[x.callee].where or "")
                                                                                                              and counts(mod.funcs[x.callee]))) for x in h.calls())
        return cc[h.name]
    ends = flow(g)
    if not any(wk for wk, n in ends):
        ctx.undecided("count", inst, g.where, "no path does any work")
        return
    bad = sorted(n for wk, n in ends if wk and n != 1) or sorted(n for wk, n in ends if n > 1)
    ctx.decide(not bad, "count", inst, g.where, "a path computes forces and counts %s" % ", ".join({0: "nothing", 1: "once", 2: "more than once"}[n] for n in sorted(set(bad))))


def counter(ctx, mod):
    base = "nbody_engine"
    off = {x[1]: x[0] for x in mod.fields_flat(base)}

    def go(short, args, mem=None):
        fs = [f for f in mod.funcs.values() if f.short == short and list(f.all())]
        if len(fs) != 1:
            raise Unhandled("%s not found" % short)
        P = constprop.Prop(mod)
        P.mem.update(mem or {})
        try:
            return fs[0], P, P.run(fs[0], args)
        except Undecided as e:
            raise Unhandled(str(e))
    T = Ptr("this")
    # the member is found by what counting changes
    f, P, r = go(base + "::advise_compute_count", [T], {("this", o): 40 + o for o in off.values()})
    ch = {k: v for k, v in P.mem.items() if v != 40 + k[1]}
    inst = "nbody_engine::advise_compute_count"
    f2, P2, r2 = go(base + "::get_compute_count", [T], {("this", o): 40 + o for o in off.values()})
    if not isinstance(r2, int):
        raise Unhandled("get_compute_count")
    cell = r2 - 40
    ok = ch == {("this", cell): r2 + 1}
    ctx.decide(ok, "counter", "counting adds one to what the query returns", f.where, "counting changes %s, the query returns the member at offset %s" % (sorted((k[1], v - 40 - k[1]) for k, v in ch.items() if isinstance(v, int)), cell))
    f3, P3, r3 = go(base + "::get_ode_order", [T], {("this", o): 40 + o for o in off.values()})
    if not isinstance(r3, int):
        raise Unhandled("get_ode_order")
    for v in (1, 2):
        f4, P4, _ = go(base + "::set_ode_order", [T, v], {("this", o): 40 + o for o in off.values()})
        ch = {k: x for k, x in P4.mem.items() if x != 40 + k[1]}
        ctx.decide(ch == {("this", r3 - 40): v}, "counter", "set_ode_order(%d) sets what get_ode_order returns and nothing else" % v, f4.where, "it changes %s" % sorted((k[1], str(x)) for k, x in ch.items()))
    ctor = [f for f in mod.funcs.values() if f.short == base + "::" + base and list(f.all())]
    if len(ctor) == 1:
        f5, P5, _ = go(base + "::" + base, [T])
        got = (P5.mem.get(("this", cell)),)
        if ("this", cell) not in P5.mem or got[0] is not None:
            ctx.decide(("this", cell) in P5.mem and got[0] == 0, "counter", "the counter of a new engine", f5.where, "it starts with %s" % ("no value" if ("this", cell) not in P5.mem else got[0]))


def given(ctx, mod, cls, f, o):
    inst = "%s (%s)" % (f.short, cls)
    get = [g for g in mod.funcs.values() if g.short == "nbody_engine::get_ode_order" and list(g.all())]
    eng = [g for g in mod.funcs.values() if g.short == "nbody_solver::engine" and list(g.all())]
    if len(get) != 1 or len(eng) != 1:
        raise Unhandled("queries not found")
    bad = ""
    for before in (0, Ptr("old")):
        P = constprop.Prop(mod)
        T, E = Ptr("this"), Ptr("engine")
        for x in mod.fields_flat("nbody_solver"):
            P.mem[("this", x[0])] = before
        P.mem[("this", 0)] = vptr(mod, cls)
        for x in mod.fields_flat("nbody_engine"):
            P.mem[("engine", x[0])] = P.mem[("old", x[0])] = 40 + x[0]
        try:
            want = P.run(o, [T])
            P.run(f, [T, E])
            got, e = P.run(get[0], [E]), P.run(eng[0], [T])
        except Undecided as x:
            raise Unhandled(str(x))
        if not isinstance(want, int) or got is None or e is None:
            raise Unhandled("order or engine not known")
        if not (isinstance(e, Ptr) and e.key() == ("engine", 0)):
            bad = bad or "the solver does not work with the engine it is given%s" % (" when it had one before" if before else "")
        elif got != want:
            bad = bad or "the engine is not told the order %s of the solver" % want
    ctx.saw("functions", "%s (%s)" % (f.short, f.where))
    ctx.decide(not bad, "solver", inst, f.where, bad)


# --- arrays of buffers -----------------------------------------------------------------------------------------------

def create(ctx, mod, cls, g):
    inst = g.short
    bad = None
    for n in (0, 1, 2, 3, 5):
        for fail in [None] + list(range(n)):
            P = Arrays(mod, fail)
            P.mem[("this", 0)] = vptr(mod, cls)
            try:
                P.run(g, [Ptr("ret"), Ptr("this"), 328, n])
            except Undecided as e:
                ctx.undecided("arrays", inst, g.where, str(e))
                return
            v = P.vecs.get(("ret", 0))
            if v is None:
                ctx.undecided("arrays", inst, g.where, "result not tracked")
                return
            got = [x.key() if isinstance(x, Ptr) else x for x in v.items]
            made = [x.key() for x in P.made]
            freed = [x.key() for x in P.freed if isinstance(x, Ptr)]
            if any(x != 328 for x in P.sizes):
                bad = bad or "buffers of %s instead of 328 bytes are made" % sorted(set(map(str, P.sizes)))
            if fail is None and (sorted(got) != sorted(made) or len(got) != n or freed):
                bad = bad or "for %d buffers the array holds %s of %s made, released are %s" % (n, names(v.items), names(P.made), names(P.freed))
            if fail is not None and (got or sorted(freed) != sorted(made)):
                bad = bad or "with %d wanted buffers and a failure of the one numbered %d the array holds %s, made were %s, released %s" % (n, fail, names(v.items), names(P.made), names(P.freed))
            ctx.saw("paths", "%s: %d buffers, failure %s" % (g.short, n, fail))
    ctx.decide(bad is None, "arrays", inst, g.where, bad or "")


def release(ctx, mod, cls, g):
    inst = g.short
    bad = None
    for n in (0, 1, 2, 3, 5):
        P = Arrays(mod)
        P.mem[("this", 0)] = vptr(mod, cls)
        bufs = [Ptr(("buf", k), 0) for k in range(n)]
        P.vecs[("arr", 0)] = Vec(bufs)
        try:
            P.run(g, [Ptr("this"), Ptr("arr")])
        except Undecided as e:
            ctx.undecided("arrays", inst, g.where, str(e))
            return
        left = P.vecs[("arr", 0)].items
        freed = sorted(x.key() for x in P.freed if isinstance(x, Ptr))
        if freed != sorted(x.key() for x in bufs):
            bad = bad or "of %d buffers %s are released" % (n, names(P.freed))
        if left:
            bad = bad or "released buffers stay in the array"
        ctx.saw("paths", "%s: %d buffers" % (g.short, n))
    ctx.decide(bad is None, "arrays", inst, g.where, bad or "")


# --- host buffers ----------------------------------------------------------------------------------------------------

def buffer(ctx, mod, cls, g):
    inst = "%s and its release" % g.short
    if "opencl" in cls or "cuda" in cls:
        return
    fr = virtual_impl(mod, cls, "free_buffer")
    bad = None
    for n in (8, 48, 6 * 8 * 64):
        P = Alloc(mod)
        P.mem[("this", 0)] = vptr(mod, cls)
        try:
            r = P.run(g, [Ptr("this"), n])
            if not isinstance(r, Ptr) or not isinstance(P.mem.get(r.key()), Ptr):
                raise Undecided("the result is not a new object")
            vt = P.mem[r.key()]
            name = mod.demangle(vt.base[1])[len("vtable for "):]
            size = virtual_impl(mod, name, "size")
            sz = P.run(size, [r])
            data = [f for f in mod.funcs.values() if f.short == name + "::data" and list(f.all())]
            pts = [P.run(f, [r]) for f in data]
            if not isinstance(sz, int) or not pts or not all(isinstance(p, Ptr) for p in pts):
                raise Undecided("size or data of the buffer not known")
            P.run(fr, [Ptr("this"), r])
            before = list(P.deleted)
            P.run(fr, [Ptr("this"), 0])
        except Undecided as e:
            ctx.undecided("buffer", inst, g.where, str(e))
            return
        have = {p.key(): m for p, m in P.allocs}
        if sz != n:
            bad = bad or "a buffer for %d bytes says that its size is %d" % (n, sz)
        for p in pts:
            m = have.get(p.key())
            if p.key() == r.key() or m is None:
                ctx.undecided("buffer", inst, g.where, "memory of the buffer not recognised")
                return
            if m < n:
                bad = bad or "a buffer for %d bytes owns %d" % (n, m)
        if len({p.key() for p in pts}) != 1:
            bad = bad or "its two data functions give different memory"
        dead = [x.key() for x in P.deleted if isinstance(x, Ptr)]
        if sorted(dead) != sorted(have):
            bad = bad or "releasing a buffer gives back %d of its %d allocations%s" % (len(set(dead) & set(have)), len(have), ", some of them twice" if len(dead) != len(set(dead)) else "")
    ctx.decide(bad is None, "buffer", inst, g.where, bad or "")
