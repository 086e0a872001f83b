"""C17: solvers and extrapolators own the buffers they use: created before use, large enough, written before read, released once."""
import ir, sym, roles
from poly import *
from fractions import Fraction
import wsflow
from wsflow import WsFlow, St, Unhandled, A0
from c08 import Agg
import pit, random

LEVELS = atom("tabn", "levels")


def run(ctx):
    mod = ir.load("seq")
    ctx.rule("start", "a new object holds no buffer: pointers are null and lists empty")
    ctx.rule("exists", "every buffer handed to the engine exists: created before, in the first step as in later ones, and not released")
    ctx.rule("size", "every buffer has room for the whole state (problem_size numbers)")
    ctx.rule("enough", "an element of a buffer list is used only below the number of buffers the list was created with")
    ctx.rule("written", "no operation reads a buffer nothing was written to since its creation")
    ctx.rule("again", "a buffer in use is not replaced by a new one (none is created anew in later steps)")
    ctx.rule("release", "the destructor releases every buffer exactly once and destroys every object the solver owns")
    ctx.rule("zero", "a compensation starts at zero and is zero again after reset")
    ctx.rule("reset", "reset gives the members that a step changes their initial values")
    ctx.rule("engine", "a solver that makes another one advance has given it its engine")
    ctx.rule("lists", "create_buffers makes the number of buffers asked for, each of the size asked for; free_buffers releases every one")
    A = Agg(ctx)
    n = 0
    for cls in mod.derived("nbody_solver") + mod.derived("nbody_extrapolator"):
        if slots(mod, cls, own=True):
            n += 1
            ctx.guard("exists", cls, lambda: one(ctx, A, mod, cls))
    for cls in ["nbody_engine_simple"] + [c for c in mod.derived("nbody_engine_simple")]:
        if slots(mod, cls, own=True, pat="smemory*"):
            ctx.guard("release", cls, lambda: engine(ctx, A, mod, cls))
    ctx.guard("lists", "nbody_engine::create_buffers", lambda: lists(ctx, A, mod))
    A.done()


def slots(mod, cls, own=False, pat="nbody_engine::memory"):
    """[(offset, 'ptr' | 'vec', name)] of the members that hold buffers"""
    inherited = set()
    if own:
        for b in mod.bases(cls):
            if b != cls:
                inherited |= {(o, n) for o, n, t, sz in mod.fields_flat(b)}
    out = []
    for o, n, t, sz in mod.fields_flat(cls):
        if (o, n) in inherited:
            continue
        if t.startswith("std::vector<nbody_engine::memory"):
            out.append((o, "vec", n))
        elif t.endswith("memory*"):
            out.append((o, "ptr", n))
    return out


def owned(mod, cls):
    return [(o, n) for o, n, t, sz in mod.fields_flat(cls)
            if t in ("nbody_solver*", "nbody_extrapolator*", "nbody_butcher_table*") or t.endswith("*") and t[:-1] in mod.structs and any(b in ("nbody_solver", "nbody_extrapolator", "nbody_butcher_table") for b in mod.bases(t[:-1]))]


def mod_solver(mod, cls, o):
    f = mod.field_at(cls, o)
    return bool(f) and f[1].rstrip("*") in mod.structs and "nbody_solver" in mod.bases(f[1].rstrip("*"))


def ctors(mod, cls):
    return [f for f in mod.by_short(cls + "::" + cls) if "C2" in f.name and f.blocks]


def dtor(mod, cls):
    d = [f for f in mod.by_short(cls + "::~" + cls) if "D2" in f.name and f.blocks]
    return d[0] if d else None


def freshen(st, mod, cls, keep, after=False):
    """the state between two calls: unknown numbers are dropped, constructor arguments renamed"""
    s = st.copy()
    s.env, s.vecs, s.und = {}, {}, frozenset()
    s.facts = {c: t for c, t in s.facts.items() if isinstance(c[1], P) and all(akey(a)[0] == "tabn" for a in c[1].atoms())}
    ren = {}

    def rn(v):
        if not isinstance(v, P):
            return v
        mp = {a: atom("carg", akey(a)[1]) for a in v.atoms(deep=True) if akey(a)[0] == "arg" and akey(a)[1] > 0}
        return subst(v, mp) if mp else v
    s.mem = {k: rn(v) for k, v in s.mem.items() if (k in keep or after) and not any(akey(a)[0] == "wsval" for a in v.atoms(deep=True))}
    s.elem = {rn(a): rn(v) for a, v in s.elem.items() if not any(akey(x)[0] == "call" for x in a.atoms(deep=True)) or True}
    s.live = {rn(k): (v[0], rn(v[1]), rn(v[2]), v[3]) for k, v in s.live.items()}
    s.log = tuple((m, tuple(rn(x) for x in a), w) for m, a, w in s.log)
    return s


class Flow(WsFlow):
    def on_virtual(self, st, i, cls, m, args):
        if "nbody_solver" in self.mod.bases(cls) and m == "reset" and st.old:
            a = single_atom(args[0])
            o = {("solver", k) for k, v in st.mem.items() if v == args[0]}
            if a is not None and akey(a)[0] == "ld" and self.off(akey(a)[1]) is not None:
                o.add(("solver", self.off(akey(a)[1])))
            st.old = st.old - o
        if "nbody_solver" in self.mod.bases(cls) and m == "advise" and self.off(args[0]) != 0:
            e = st.elem.get(args[0] + 8)
            ok = e is not None and e == atom("ld", A0 + 8, 8, 0)
            if st.old:
                o = [k for k, v in st.mem.items() if v == args[0]]
                a = single_atom(args[0])
                if a is not None and akey(a)[0] == "ld" and self.off(akey(a)[1]) is not None:
                    o.append(self.off(akey(a)[1]))
                u = any(("solver", k) in st.old for k in o)
                self.sink("reset", i.loc, not u, "the inner solver goes on, after reset, from what the steps before it left")
                st.old = frozenset(x for x in st.old if x not in {("solver", k) for k in o})
            self.sink("engine", i.loc, ok, "%s advances without having been given the engine" % show(args[0])[:60])


def written_members(mod, cls, fs, skip):
    out = {}
    for f in fs:
        S = sym.Sym(f, this_class=cls)
        for s in S.stores():
            k = (S.store_addr(s) - A0).const()
            if k is not None and int(k) not in skip and int(k) > 0:
                out[int(k)] = s.loc
    return out


def one(ctx, A, mod, cls):
    sl = slots(mod, cls)
    cs = ctors(mod, cls)
    if not cs:
        raise Unhandled("no constructor of %s" % cls)
    solver = "nbody_solver" in mod.bases(cls)
    names = ("advise",) if solver else ("update_table", "estimate_error", "extrapolate")
    steps = [roles.impl(mod, cls, n) for n in names]
    if solver and steps[0] is None or not any(steps):
        return
    steps = [s for s in steps if s is not None]
    reset = roles.impl(mod, cls, "reset")
    D = dtor(mod, cls)
    offs = {o + x for o, k, n in sl for x in ((0,) if k == "ptr" else (0, 8, 16))}
    own = owned(mod, cls)
    helpers = [f for f in mod.funcs.values() if f.blocks and f.short.startswith(cls + "::") and f.args and not f.short.endswith("::" + cls) and "::~" not in f.short and f.short.split("::")[-1] in names + ("sub_step",)]
    changed = written_members(mod, cls, helpers, offs | {o for o, n in own})
    keep = offs | {o for o, n in own} | set(changed)
    for f in cs + steps + ([D] if D else []):
        ctx.saw("functions", "%s (%s)" % (f.short, f.where))

    def sink(rule, where, verdict, text):
        if rule == "size":
            h, size = text
            kind = short_of(size, atom("PS"))
            A.put("size", "%s, buffer created at line %s" % (cls, where.split(":")[-1]), where, None if kind is None else not kind, "the buffer has %s bytes" % show(size)[:80])
            return
        if rule == "enough" and verdict is None:
            verdict = None
        A.put(rule, "%s, line %s" % (cls, where.split(":")[-1]), where, verdict, str(text))
    # constructors
    R0 = []
    for c in cs:
        s = St()
        if not solver:
            a = atom("arg", 3)
            s.elem[a] = atom("subs")
            s.elem[a + 8] = atom("subs") + LEVELS.scale(8)
        W = Flow(mod, cls, c, sink)
        for st, r in W.run([s]):
            for o, k, n in sl:
                v = st.mem.get(o)
                inst = "%s::%s" % (cls, n)
                if k == "ptr":
                    A.put("start", inst, c.where, v is not None and (v.const() == 0 or v in st.live), "the pointer %s is %s after construction" % (n, "not initialised" if v is None else show(v)[:60]))
                else:
                    e = st.mem.get(o + 8)
                    A.put("start", inst, c.where, None if v is None or e is None else v.const() == 0 and e.const() == 0 or v in st.live, "list %s after construction" % n)
            for o, n in own:
                if o not in st.mem:
                    A.put("start", "%s::%s" % (cls, n), c.where, False, "the pointer %s is not initialised" % n)
            R0.append(freshen(st, mod, cls, keep))
    init = {k: {s.mem[k].const() for s in R0 if k in s.mem} for k in changed}
    pre = [] if solver else [("lt", atom("arg", 1) - LEVELS)]

    again, memo = set(), {}

    def go(f, starts):
        W = Flow(mod, cls, f, sink, pre=pre)
        W.again, W.memo = again, memo
        return [freshen(s, mod, cls, keep, True) for s, r in W.run(starts)]

    def uniq(ss):
        out = {}
        for s in ss:
            out.setdefault(s.key(), s)
        if len(out) > 200:
            raise Unhandled("too many states")
        return list(out.values())
    R = [uniq(R0)]
    if solver:
        for n in range(3):
            R.append(uniq(go(steps[0], R[-1])))
    else:
        up = [s for s in steps if s.short.endswith("update_table")]
        rest = [s for s in steps if not s.short.endswith("update_table")]
        r = R[0]
        for n in range(2):
            for f in up:
                r = uniq(go(f, r))
            R.append(r)
        for f in rest:
            go(f, r)
    ctx.saw("paths", "%s: %s states between calls" % (cls, [len(x) for x in R]))
    after = []
    if reset is not None and solver:
        ctx.saw("functions", "%s (%s)" % (reset.short, reset.where))
        W = Flow(mod, cls, reset, sink)
        marked = []
        for s in uniq(R[1] + R[2]):
            s = s.copy()
            s.log = s.log + (("RESET", (), ""),)
            s.old = frozenset(s.live) | frozenset(("solver", o) for o, n in own if mod_solver(mod, cls, o))
            marked.append(s)
        for s, r in W.run(marked):
            for k, loc in changed.items():
                v = s.mem.get(k)
                f = mod.field_at(cls, k)
                want = init.get(k)
                ok = None
                if want and len(want) == 1 and None not in want:
                    ok = v is not None and v.const() == next(iter(want))
                    if v is not None and v.const() is None and any(akey(a)[0] not in ("ld", "wsval") for a in v.atoms(deep=True)):
                        ok = None
                A.put("reset", "%s::%s" % (cls, f[0] if f else k), reset.where, ok, "%s, changed by a step at %s, is %s after reset" % (f[0] if f else k, loc, "kept" if v is None else show(v)[:50]))
            after.append(freshen(s, mod, cls, keep, True))
        after = uniq(after)
        x = after
        for n in range(3):
            x = uniq(go(steps[0], x))
            R.append(x)
    for ss in R:
        for s in ss:
            zero(A, cls, s)
    if D is None:
        if sl:
            A.put("release", cls, cs[0].where, None, "no destructor found")
        return
    for ss in (R[0], R[1], R[2], after):
        release(A, mod, cls, D, ss, own, sink)


def short_of(size, PS):
    """True when a buffer of `size` bytes can be smaller than 8 * problem_size"""
    d = size - PS.scale(8)
    c = d.const()
    if c is not None:
        return c < 0
    rng = random.Random(3)
    for n in range(40):
        V = pit.Valuation(seed=(3, n), sizes=())
        for a in d.atoms(deep=True):
            if akey(a)[0] in ("PS", "ld", "arg", "carg", "vcall", "tabn"):
                V.fix[a] = float(rng.choice([6, 12, 18, 600]))
        try:
            if V.ev(d) < 0:
                return True if all(akey(a)[0] in ("PS",) for a in d.atoms()) or not [a for a in d.atoms(deep=True) if akey(a)[0] not in ("PS",)] else (True if single_atom(PS) not in d.atoms() or True else None)
        except (pit.Undecidable, ZeroDivisionError):
            return None
    return False


def zero(A, cls, s):
    """every use of a compensation: what it held before"""
    L = s.log
    reset = max([k for k, e in enumerate(L) if e[0] == "RESET"] or [-1])

    def before(p, h, depth=4):
        for k in range(p - 1, -1, -1):
            m, a, w = L[k]
            m = m.split("::")[-1]
            if m == "fill_buffer" and a and a[0] == h:
                v = a[1].const() if len(a) > 1 else None
                if reset > k and p > reset and False:
                    return False, w
                return (None if v is None else v == 0), w, k
            if m == "copy_buffer" and a and a[0] == h:
                return before(k, a[1], depth - 1) if depth else (None, w, k)
            if m == "fmaddn_corr" and len(a) > 1 and a[1] == h:
                return True, w, k
        return None, "", -1
    for p, (m, a, w) in enumerate(L):
        if m != "nbody_engine::fmaddn_corr" or len(a) < 2:
            continue
        ok, where, k = before(p, a[1])
        inst = "%s, line %s" % (cls, w.split(":")[-1])
        if ok is not None or k >= 0:
            A.put("zero", inst, w, ok, "the compensation starts as set at %s" % where)
        if reset >= 0 and p > reset and 0 <= k < reset:
            A.put("zero", inst + ", after reset", w, False, "the compensation of the steps before reset (%s) is still used" % where)
        elif reset >= 0 and p > reset:
            A.put("zero", inst + ", after reset", w, True if k >= 0 else None, "")


def release(A, mod, cls, D, starts, own, sink):
    W = Flow(mod, cls, D, sink)
    for st, r in W.run(starts):
        for h, (kind, size, n, where) in st.live.items():
            if not any(h == v for s in starts for v in s.mem.values()):
                continue
            c = st.freed.count(h)
            A.put("release", "%s, buffer created at line %s" % (cls, where.split(":")[-1]), D.where, c == 1, "the buffer created at %s is released %s by the destructor" % (where, "not" if not c else "%d times" % c))
        for o, n in own:
            vals = [s.mem.get(o) for s in starts]
            me = [atom("ld", A0 + o, 8, 0)] + [v for v in vals if v is not None]
            if st.mem.get(o) is not None and st.mem[o].const() == 0:
                continue
            v = st.mem.get(o)
            cand = [v] if v is not None else me
            known0 = any(q in (("eq", x), ("ne", x)) and (q[0] == "eq") == t for q, t in st.facts.items() if q[0] in ("eq", "ne") for x in (cand + [-y for y in cand]))
            if known0:
                continue
            hits = [e for e in st.log if e[1] and e[1][0] in cand and ("::~" in e[0] or e[0].endswith("operator delete")) and e not in starts[0].log]
            A.put("release", "%s::%s" % (cls, n), D.where, len(hits) == 1, "%s is destroyed %d times" % (n, len(hits)))


def engine(ctx, A, mod, cls):
    """the engine's own buffers: null at first, created by init, released by the destructor"""
    sl = [x for x in slots(mod, cls, own=True, pat="smemory*")]
    cs, I, D = ctors(mod, cls), roles.impl(mod, cls, "init"), dtor(mod, cls)
    if not cs or I is None or D is None:
        raise Unhandled("constructor, init or destructor of %s" % cls)
    keep = {o for o, k, n in sl}
    quiet = lambda *a: None
    R0 = []
    for c in cs:
        for st, r in WsFlow(mod, cls, c, quiet).run([St()]):
            for o, k, n in sl:
                v = st.mem.get(o)
                A.put("start", "%s::%s" % (cls, n), c.where, v is not None and v.const() == 0, "%s is %s after construction" % (n, "not initialised" if v is None else show(v)[:60]))
            R0.append(freshen(st, mod, cls, keep))
    R1 = [freshen(s, mod, cls, keep) for s, r in WsFlow(mod, cls, I, quiet).run(R0)]
    for f in cs + [I, D]:
        ctx.saw("functions", "%s (%s)" % (f.short, f.where))

    def sink(rule, where, verdict, text):
        if rule == "release":
            A.put(rule, "%s, line %s" % (cls, where.split(":")[-1]), where, verdict, text)
    if not R1:
        raise Unhandled("init of %s" % cls)
    for st, r in WsFlow(mod, cls, D, sink).run(R1):
        for h, (kind, size, n, where) in st.live.items():
            c = st.freed.count(h)
            A.put("release", "%s, buffer created at line %s" % (cls, where.split(":")[-1]), D.where, c == 1, "the buffer created at %s is released %s by the destructor" % (where, "not" if not c else "%d times" % c))


def agree(t, want, leaves):
    """is the number of passes the wanted one, for every number (of 8-byte entries) tried: equal forms, or an identity test of them"""
    if (t - want).iszero():
        return True
    ok = {single_atom(x) for x in leaves}
    inner = {y for x in leaves for y in x.atoms(deep=True)}
    if any(akey(a)[0] not in ("max", "min", "udiv", "sdiv") and a not in ok and a not in inner for a in t.atoms(deep=True)):
        return None
    for n in range(1, 7):
        V = pit.Valuation(seed=(5, n), sizes=())
        V.fix[single_atom(leaves[0])] = float(n) if len(leaves) == 1 else float(4096 + 8 * n)
        if len(leaves) > 1:
            V.fix[single_atom(leaves[1])] = 4096.0
        try:
            if V.ev(t) != V.ev(want):
                return False
        except (pit.Undecidable, ZeroDivisionError):
            return None
    return True


def lists(ctx, A, mod):
    """one creation, of the size asked for, and one entry in the list, per unit of the number asked for; one release per entry"""
    f = next((f for f in mod.by_short("nbody_engine::create_buffers") if f.blocks), None)
    if f is not None:
        ctx.saw("functions", "%s (%s)" % (f.short, f.where))
        S = sym.Sym(f)
        k = 1 if f.rty == "void" else 0        # the list is returned through the first argument
        made = [i for i in f.all() if i.op in ("call", "invoke") and not i.callee and (S.vcall(i) or (0, 0))[1] == "create_buffer"]
        if not made:
            A.put("lists", "create_buffers", f.where, None, "no create_buffer call of its own")
        for i in made:
            A.put("lists", "create_buffers, size", i.loc, S.ev(i.ops[1]) == atom("arg", k + 1), "a buffer of %s bytes is created, not of the size asked for" % show(S.ev(i.ops[1]))[:60])
            hs = [h for h, l in f.loops.items() if i.block.id in l.blocks]
            if len(made) != 1 or len(hs) != 1:
                A.put("lists", "create_buffers, number", i.loc, None, "creation outside of one loop")
                continue
            t = S.trip(hs[0])
            x = single_atom(t)
            if x is not None and akey(x)[0] == "early":
                t = akey(x)[3]
            A.put("lists", "create_buffers, number", i.loc, agree(t, atom("arg", k + 2), [atom("arg", k + 2)]), "%s buffers are created, not the number asked for" % show(t)[:60])
            adds = [j for b in f.loops[hs[0]].blocks for j in f.blocks[b].insts if j.op in ("call", "invoke") and j.callee and mod.callee_short(j).split("::")[-1] in ("push_back", "emplace_back")]
            other = [j for b in f.blocks.values() for j in b.insts if j.op in ("call", "invoke") and j.callee and mod.callee_short(j).split("::")[-1] in ("resize", "insert", "operator[]", "assign")] + [j for b in f.loops[hs[0]].blocks for j in f.blocks[b].insts if j.op == "store" and S.root(j.ops[1])[0] != "i"]
            if len(adds) == 1:
                c = S.pathcond(adds[0].block.id, start=hs[0])
                h = S.inst(i)
                free = c in (("true",), cmp("ne", h)) or c[0] == "and" and all(q in (cmp("ne", h),) or single_atom(S.iv(hs[0])) in q[1].atoms() for q in c[1]) or c[0] in ("ne", "lt", "le") and single_atom(S.iv(hs[0])) in c[1].atoms()
                A.put("lists", "create_buffers, entries", adds[0].loc, True if free else None, "when a buffer is entered into the list")
            elif not adds and not other and not ir.odd_growth(mod, f):
                A.put("lists", "create_buffers, entries", i.loc, False, "the created buffer is not entered into the list")
            else:
                A.put("lists", "create_buffers, entries", i.loc, None, "another way to fill the list")
    f = next((f for f in mod.by_short("nbody_engine::free_buffers") if f.blocks), None)
    if f is not None:
        ctx.saw("functions", "%s (%s)" % (f.short, f.where))
        S = sym.Sym(f)
        rel = [i for i in f.all() if i.op in ("call", "invoke") and not i.callee and (S.vcall(i) or (0, 0))[1] == "free_buffer"]
        B, E = atom("ld", atom("arg", 1), 8, 0), atom("ld", atom("arg", 1) + 8, 8, 0)
        if not rel:
            calls = [i for i in f.all() if i.op in ("call", "invoke") and not sym.is_dbg(i) and (i.callee is None or mod.callee_short(i).split("::")[-1] not in ("clear", "resize"))and not i.d.get("intr")]
            A.put("lists", "free_buffers", f.where, None if calls else False, "no buffer of the list is released")
        for i in rel:
            hs = [h for h, l in f.loops.items() if i.block.id in l.blocks]
            if len(rel) != 1 or len(hs) != 1:
                A.put("lists", "free_buffers", i.loc, None, "release outside of one loop")
                continue
            v = S.ev(i.ops[1])
            x = single_atom(v)
            t, ok = S.trip(hs[0]), None
            T = f.blocks[hs[0]].term
            if single_atom(t) is not None and akey(single_atom(t))[0] == "trip" and T.op == "br" and len(T.ops) == 3 and len(f.loops[hs[0]].exiting) == 1:
                # while(p != end): the number of steps from where it starts
                q = S.cond(T.ops[0])
                for d in (q[1], -q[1]) if q[0] in ("eq", "ne") else ():
                    c = d - S.iv(hs[0]).scale(-8)
                    if single_atom(S.iv(hs[0])) not in c.atoms():
                        t = c.scale(Fraction(1, 8))
                        break
            if x is not None and akey(x)[0] == "ld":
                ix = (akey(x)[1] - B).scale(Fraction(1, 8)) - S.iv(hs[0])
                n = agree(t.scale(8), E - B, [E, B])
                if n is not None and all(akey(y)[0] in ("ld", "arg", "iv") for y in ix.atoms(deep=True)):
                    c = S.pathcond(i.block.id, start=hs[0])
                    every = c == ("true",) or c[0] in ("ne", "lt") and single_atom(S.iv(hs[0])) in c[1].atoms()
                    ok = ix.iszero() and n and (True if every else None)
            A.put("lists", "free_buffers", i.loc, ok, "%s passes release %s" % (show(t)[:60], show(v)[:60]))
