"""C13: the body arrays stay in step with each other and with the body count; comparison looks at all of them."""
from streams import *
from c08 import Agg
from c12 import trips, vec, holds

GROW = ("push_back", "emplace_back")
SIZE = GROW + ("resize", "clear", "pop_back", "erase", "insert", "assign", "swap", "operator=")


def run(ctx):
    mod = ir.load("seq")
    ctx.rule("step", "on every path of every member function all body arrays are grown, resized or emptied alike, and the count with them")
    ctx.rule("append", "add_body appends its position, velocity, mass, colour and radius to the array of that name")
    ctx.rule("equal", "is_equal says true only when the counts agree and every mass, radius, position and velocity component of every body differs by at most the tolerance")
    ctx.rule("differ", "is_equal says false only when one of these differs")
    ctx.rule("clock", "advise_time moves the time by the given amount and the step number by one, and setters store what they are given")
    A = Agg(ctx)
    arrays = {}
    ctx.guard("append", "nbody_data::add_body", lambda: append(ctx, A, mod, arrays))
    ctx.guard("step", "nbody_data", lambda: instep(ctx, A, mod, arrays))
    ctx.guard("equal", "nbody_data::is_equal", lambda: equal(ctx, A, mod, arrays))
    ctx.guard("clock", "nbody_data::advise_time", lambda: clock(ctx, A, mod))
    A.done()


def short(e):
    return (e[1] or "").split("::")[-1].split("<")[0]


def ops(ev):
    return [(short(e), e[2][0], e[2][1:], e[-1]) for e in ev if e[0] == "call" and e[2] and short(e) in SIZE and "std::vector" in (e[1] or "")]


def append(ctx, A, mod, arrays):
    E = flow(mod, "nbody_data::add_body", 6)
    b = Bodies(mod, A0)
    f = E.f
    names = {vec(b.pos): ("positions", 1), vec(b.vel): ("velocities", 2), vec(b.mass): ("masses", 3), vec(b.col): ("colours", 4)}
    for a, (n, k) in names.items():
        arrays[a] = n
    for n, k in (("add_body", 6), ("resize", 2), ("clear", 1)):
        for st, r, t in flow(mod, "nbody_data::" + n, k).exits:
            for o, v, rest, iid in ops(st.ev):
                if v not in names and (v - A0).const() is not None:
                    arrays[v] = "radii"
                    names[v] = ("radii", 5)
    for st, r, t in E.exits:
        got = {}
        for o, v, rest, iid in ops(st.ev):
            if o in GROW and len(rest) == 1:
                got.setdefault(v, []).append((rest[0], iid))
        for v, (n, k) in names.items():
            g = got.get(v, [])
            if len(g) != 1:
                A.put("append", n, f.where, False if got and not ir.odd_growth(mod, f) else None, "%d elements are appended to the %s" % (len(g), n))
                continue
            at = single_atom(g[0][0])
            arg = at is not None and akey(at)[0] == "arg"
            A.put("append", n, loc(E, g[0][1]), g[0][0] == atom("arg", k) if arg else None, "argument %s goes to the %s" % (show(g[0][0]), n))


def instep(ctx, A, mod, arrays):
    if len(arrays) < 4:
        raise Unhandled("body arrays not recognised")
    cnt = vec(Bodies(mod, A0).count)
    n = 0
    for f in mod.funcs.values():
        if not f.short.startswith("nbody_data::") or f.short.count("::") != 1 or "~" in f.short or f.short == "nbody_data::nbody_data":
            continue
        if not any(i.op in ("call", "invoke") and i.callee and (mod.callee_short(i) or "").split("::")[-1] in SIZE for i in f.all()):
            continue
        try:
            if ir.odd_growth(mod, f):
                raise Unhandled("arrays grow by other means than push_back and resize")
            E = QtFlow(mod, f)
            E.run()
        except Unhandled as e:
            A.put("step", f.short, f.where, None, str(e))
            continue
        n += 1
        ctx.saw("functions", "%s (%s)" % (f.short, f.where))
        runs = [(st, st.ev, True) for st, r, t in E.exits] + [(st, ev, False) for h, its in E.iters.items() for st, ev in its]
        for st, ev, whole in runs:
            by = {}
            for o, v, rest, iid in ops(ev):
                if v in arrays:
                    by.setdefault(v, []).append((o if o not in GROW else "grow", tuple(map(show, rest)) if o == "resize" else ()))
            if not by:
                continue
            ref = by.get(next(iter(arrays)))
            for v, nm in arrays.items():
                same = by.get(v) == ref
                if not same and last(by.get(v)) == last(ref) and last(ref) is not None:
                    same = True
                A.put("step", "%s: %s" % (f.short, nm), f.where, same if simple(by) or same else None, "%s: %s, %s: %s" % (nm, by.get(v, []), arrays[next(iter(arrays))], ref))
            # the count
            if ref and simple(by):
                sts = [e for e in ev if e[0] == "store" and e[1] == cnt]
                lastop = ref[-1]
                if lastop[0] == "grow" and len(ref) == 1:
                    okc = bump(sts[0][2]) if len(sts) == 1 else False if not sts else None
                    A.put("step", "%s: count" % f.short, f.where, okc, "the count is set to %s" % [show(s[2]) for s in sts])
                elif lastop[0] == "clear":
                    A.put("step", "%s: count" % f.short, f.where, bool(sts) and (sts[-1][2].const() == 0), "the count is set to %s after clear" % [show(s[2]) for s in sts])
                elif lastop[0] == "resize":
                    A.put("step", "%s: count" % f.short, f.where, bool(sts) and show(sts[-1][2]) == lastop[1][0], "the count is set to %s after resize to %s" % ([show(s[2]) for s in sts], lastop[1][0]))
    if not n:
        raise Unhandled("no function that resizes the bodies")


def last(x):
    """the operation that alone determines the size afterwards"""
    return x[-1] if x and x[-1][0] in ("resize", "clear") else None


def simple(by):
    return all(o in ("grow", "resize", "clear") for v in by.values() for o, r in v)


def bump(p):
    """one more than before: True, another constant more: False, anything else: None"""
    k = p.t.get((), 0)
    at = single_atom(p - topoly(k))
    if p.const() is not None:
        return False
    return k == 1 if at is not None and akey(at)[0] in ("ld", "macc", "acc", "rec", "fin", "phi") else None


def number(p, mp):
    """value of a form under an assignment of its loads and arguments, or None"""
    p = subst(p, mp)
    for _ in range(6):
        nx = {}
        for a in p.atoms(deep=True):
            k = akey(a)
            if k[0] == "fn" and k[1] == "fabs" and k[2].const() is not None:
                nx[a] = topoly(abs(k[2].const()))
            elif k[0] in ("max", "min") and all(x.const() is not None for x in k[1]):
                nx[a] = topoly((max if k[0] == "max" else min)(x.const() for x in k[1]))
        if not nx:
            break
        p = subst(p, nx)
    return p.const()


def allowed(st, mp):
    """do the facts of the path allow the assignment: True, False, None (not decided)"""
    und = False
    for c, t in st.facts.items():
        if not any(a in mp for a in c[1].atoms(deep=True)):
            continue
        v = number(c[1], mp)
        if v is None or c[0] not in ("eq", "ne", "lt", "le"):
            und = True
            continue
        if holds(c[0], v) != t:
            return False
    return None if und else True


def equal(ctx, A, mod, arrays):
    E = flow(mod, "nbody_data::is_equal", 3)
    f = E.f
    ctx.saw("functions", "%s (%s)" % (f.short, f.where))
    b, c = Bodies(mod, A0), Bodies(mod, A1)
    rad = [a for a, n in arrays.items() if n == "radii"]
    comp = []
    for n, x, y, st_, k in (("mass", b.mass, c.mass, 8, 1), ("position", b.pos, c.pos, 24, 3), ("velocity", b.vel, c.vel, 24, 3)):
        comp += [("%s %d" % (n, j) if k > 1 else n, x, y, st_, 8 * j) for j in range(k)]
    for a in rad:
        comp.append(("radius", ld(a), ld(a - A0 + A1), 8, 0))
    passes = [(h, st) for h, its in E.iters.items() for st, ev in its]
    if len(E.iters) != 1 or not passes:
        A.put("equal", f.short, f.where, None, "loop over the bodies not recognised")
        return
    h = next(iter(E.iters))
    iv = E.S.iv(h)

    # two rounds: every component another value, every component the same value
    for spread in (100, 0):
        base = {}
        for n, (x, y, sz, o) in enumerate(q[1:] for q in comp):
            base[single_atom(ld(x + iv.scale(sz) + topoly(o)))] = base[single_atom(ld(y + iv.scale(sz) + topoly(o)))] = topoly(7 + spread * n)
        base[single_atom(A2)] = topoly(Fraction(1, 4))
        go = [allowed(st, base) for hh, st in passes]
        A.put("differ", "equal bodies", f.where, True if True in go else None if None in go else False, "no pass goes on for bodies that are equal")
        for hh, st in passes:
            for n, x, y, sz, o in comp:
                left = single_atom(ld(x + iv.scale(sz) + topoly(o)))
                res = []
                for d in (1, -1):
                    mp = dict(base)
                    mp[left] = mp[left] + topoly(d)
                    res.append(allowed(st, mp))
                v = False if True in res else None if None in res else True
                A.put("equal", n, f.where, v, "a pass goes on although the %s differs by more than the tolerance" % n)
    for st, r, t in E.exits:
        k = r.const() if r is not None else None
        if k is None:
            A.put("equal", f.short, f.where, None, "return value %s" % (show(r) if r is not None else ""))
            continue
        same = E.tri(st, cmp("eq", b.count - c.count))
        if k:
            A.put("equal", "counts", f.where, same if same is not None else (False if any(allowed(st, {single_atom(b.count): topoly(m), single_atom(c.count): topoly(n), single_atom(iv): topoly(m)}) for m, n in ((3, 5), (5, 3))) else None), "bodies of different number compare as equal")
            ent = [e for e in st.ev if e[0] == "enter"]
            tv = trips(E, st, iv, b.count)
            if tv is None:
                tv = trips(E, st, iv, c.count)
            A.put("equal", "every body", f.where, tv if ent else (None if E.tri(st, cmp("eq", b.count)) else False), "not every body is compared")
        else:
            hit = same is False or any(x[0] == "lt" and tr and A2.atoms() & x[1].atoms() for x, tr in st.facts.items())
            A.put("differ", f.short, f.where, True if hit else None, "false without a difference")


def clock(ctx, A, mod):
    b = Bodies(mod, A0)
    for n, eff in (("advise_time", {"time": b.time + A1, "step": b.step + topoly(1)}), ("set_time", {"time": A1}), ("set_step", {"step": A1})):
        E = flow(mod, "nbody_data::" + n, 2)
        ctx.saw("functions", "%s (%s)" % (E.f.short, E.f.where))
        for st, r, t in E.exits:
            for what, form in (("time", b.time), ("step", b.step)):
                now = st.ts.get(("st", vec(form)), form)
                want = eff.get(what, form)
                A.put("clock", "%s: %s" % (n, what), E.f.where, now == want, "%s becomes %s" % (what, show(now)))
