"""C12: text files of bodies are written and read without loss, column by column."""
from streams import *
from c08 import Agg

SI = 6.674e-11
AU = 1.4881e-34
NAMES = {"G1": 1.0, "SI": SI, "ADK": AU}
COLS = ["x", "y", "z", "vx", "vy", "vz", "mass", "radius"]


def run(ctx):
    mod = ir.load("seq")
    ctx.rule("save", "each body is written as one line x y z vx vy vz mass radius, for every body")
    ctx.rule("digits", "numbers are written with at least 17 significant digits, so that they read back exactly")
    ctx.rule("load", "columns 0..6 of a line become position, velocity and mass of one body, column 7 (0 when absent) its radius")
    ctx.rule("accept", "a line of seven or more columns that are numbers is taken as a body; a line of fewer columns, or with a column that is not a number, is not")
    ctx.rule("comment", "text from the mark // to the end of the line is not read")
    ctx.rule("units", "masses are multiplied by the gravity constant of the chosen units (1, SI, astronomical unit - day - kg)")
    ctx.rule("names", "the type names G1, SI, ADK and Zeno select these units and the Zeno format")
    ctx.rule("box", "load_initial sets the box size to the whole part of the largest coordinate of any body, at least 1")
    ctx.rule("fresh", "loading replaces the bodies: all body arrays are emptied or resized first")
    ctx.rule("separator", "the reader splits lines where the writer separates numbers")
    ctx.rule("zeno", "a Zeno file is read as count masses, then count positions, then count velocities of three columns")
    A = Agg(ctx)
    S = {}
    ctx.guard("save", "nbody_data::save", lambda: save(ctx, A, mod, S))
    ctx.guard("load", "nbody_data::load", lambda: load(ctx, A, mod, "nbody_data::load", S))
    ctx.guard("names", "nbody_data::load_initial", lambda: load(ctx, A, mod, "nbody_data::load_initial", S))
    ctx.guard("zeno", "nbody_data::load_zeno_ascii", lambda: zeno(ctx, A, mod, "nbody_data::load_zeno_ascii", 2))
    A.done()


def vec(p):
    """address of the vector whose data pointer the form loads"""
    a = single_atom(p)
    return akey(a)[1]


def save(ctx, A, mod, S):
    E = flow(mod, "nbody_data::save", 2)
    b = Bodies(mod, A0)
    f = E.f
    ctx.saw("functions", "%s (%s)" % (f.short, f.where))
    n = 0
    loops = set()
    for h, its in E.iters.items():
        for st, ev in its:
            if st.failed:
                continue
            tok = [(k, p) for k, e in enumerate(ev) if e[0] == "emit" for p in e[2]]
            if not tok:
                if not any(c[0] == "b" for c in st.facts):
                    A.put("save", "every body", f.where, False, "a body is skipped")
                continue
            n += 1
            loops.add(h)
            ls = lines(tok)
            iv = E.S.iv(h)
            if len(ls) != 1 or not ls[0][1]:
                A.put("save", "line", f.where, False, "a body does not end up on one line of its own")
                continue
            real = [(k, p) for k, p in ls[0][0] if p[0] == "real"]
            other = [p for k, p in ls[0][0] if p[0] not in ("real", "lit")]
            if other:
                A.put("save", "line", f.where, None if any(p[0] == "?" for p in other) else False, "%s is written between the numbers" % (other[0],))
                continue
            A.put("save", "line", f.where, len(real) >= 7, "%d numbers on a line" % len(real))
            want = [ld(b.pos + iv.scale(24)), ld(b.pos + iv.scale(24) + topoly(8)), ld(b.pos + iv.scale(24) + topoly(16)),
                    ld(b.vel + iv.scale(24)), ld(b.vel + iv.scale(24) + topoly(8)), ld(b.vel + iv.scale(24) + topoly(16)), ld(b.mass + iv.scale(8))]
            for k, w in enumerate(want[:len(real)]):
                A.put("save", COLS[k], loc(E, ev[real[k][0]][-1]), real[k][1][1] == w, "column %d is %s" % (k, show(real[k][1][1])))
            if len(real) > 7:
                q = real[7][1][1]
                at = single_atom(q)
                if at is not None and akey(at)[0] == "ld":
                    base = akey(at)[1] - iv.scale(8)
                    if single_atom(base) is not None and akey(single_atom(base))[0] == "ld":
                        S["radius"] = vec(base)
                        A.put("save", "radius", loc(E, ev[real[7][0]][-1]), base not in (b.pos, b.vel, b.mass, b.col), "column 7 is %s" % show(q))
                    else:
                        A.put("save", "radius", loc(E, ev[real[7][0]][-1]), False, "column 7 is %s" % show(q))
                else:
                    A.put("save", "radius", loc(E, ev[real[7][0]][-1]), None, "column 7 is %s" % show(q))
            else:
                A.put("save", "radius", f.where, False, "the radius is not written")
            # separators: a run of text between two numbers
            seps, cur = set(), ""
            first = True
            for k, p in ls[0][0]:
                if p[0] == "lit":
                    cur += p[1]
                else:
                    if not first:
                        seps.add(cur)
                    elif cur.strip():
                        seps.add(cur)
                    first, cur = False, ""
            if cur.strip():
                seps.add(cur)
            S["seps"] = seps
    if not n:
        A.put("save", "line", f.where, None, "no line is written in a loop")
        return
    for st, r, t in E.exits:
        if not succeeded(E, r) or st.failed:
            continue
        for h in loops:
            iv = E.S.iv(h)
            A.put("save", "every body", f.where, trips(E, st, iv, b.count), "not every body is written")
        # format at the moment the loop is entered
        prec, nota = topoly(6), topoly(0)
        for e in st.ev:
            if e[0] == "enter" and e[1] in loops:
                break
            if e[0] == "cfg" and e[2] == "setRealNumberPrecision":
                prec = e[3]
            if e[0] == "cfg" and e[2] == "setRealNumberNotation":
                nota = e[3]
        pc, nc = prec.const(), nota.const()
        good = None if pc is None or nc is None else (nc == 2 and pc >= 16) or (nc == 0 and pc >= 17)
        A.put("digits", f.short, f.where, good, "precision %s, notation %s" % (show(prec), {0: "smart", 1: "fixed", 2: "scientific"}.get(nc, nc)))
    for h, its in E.iters.items():
        for st, ev in its:
            for e in ev:
                if e[0] == "cfg":
                    A.put("digits", f.short, f.where, None, "the format changes in the loop")


def convs(E):
    """conversion call -> (text it converts, loops around it)"""
    out = {}
    for h, its in E.iters.items():
        for st, ev in its:
            for e in ev:
                if e[0] == "conv" and e[3]:
                    out[e[-1]] = e
    for st, r, t in E.exits:
        for e in st.ev:
            if e[0] == "conv" and e[3]:
                out.setdefault(e[-1], e)
    return out


def column(E, at, cv):
    """column number that a conversion result stands for, by the pass of the loop it was made in"""
    k = akey(at)
    if k[0] != "call" or k[-1] not in cv:
        return None
    e = cv[k[-1]]
    if len(e[1]) != 1 or e[1][0][0] != "obj":
        return None
    src = single_atom(e[1][0][1])
    if src is None or akey(src)[0] != "lpart":
        return None
    blk = E.f.insts[e[-1]].block.id
    hs = [h for h, L in sorted(E.f.loops.items(), key=lambda x: -len(x[1].blocks)) if blk in L.blocks]
    mp = {single_atom(E.S.iv(h)): v for h, v in zip(hs, k[2:-2])}
    c = subst(akey(src)[2], mp).const()
    return None if c is None else int(c)


def load(ctx, A, mod, name, S):
    E = flow(mod, name, 3)
    b = Bodies(mod, A0)
    f = E.f
    ctx.saw("functions", "%s (%s)" % (f.short, f.where))
    cv = convs(E)
    seen = 0
    factors = {}
    widths = {}
    for h, its in E.iters.items():
        for st, ev in its:
            push = {}
            for e in ev:
                if e[0] == "call" and (e[1] or "").endswith("::push_back") and len(e[2]) == 2:
                    push.setdefault(e[2][0], []).append((e[2][1], e[-1]))
            if not any(x in push for x in (vec(b.pos), vec(b.vel), vec(b.mass))):
                continue
            sp = [e for e in ev if e[0] == "split"]
            if st.failed:
                if any(k == "conv" and iid in cv for k, iid in st.failed) and all(c in [e[-1] for e in ev if e[0] == "conv"] for k, c in st.failed):
                    A.put("accept", "%s: not a number" % name, f.where, False, "a line is taken although a column at %s is not a number" % loc(E, st.failed[0][1]))
                continue
            seen += 1
            A.put("accept", "%s: not a number" % name, f.where, True)
            if len(sp) == 1:
                for w in (0, 3, 6, 7, 8, 9, 12):
                    widths.setdefault(w, []).append(fits(st, single_atom(atom("lsize", sp[0][1])), w))
                uncomment(E, A, name, st, ev, sp[0])
            for nm, vadr, sz in (("position", vec(b.pos), 3), ("velocity", vec(b.vel), 3), ("mass", vec(b.mass), 1)):
                if len(push.get(vadr, [])) != 1:
                    A.put("load", "%s: %s" % (name, nm), f.where, None if vadr not in push else False, "%d values are added for one line" % len(push.get(vadr, [])))
                    continue
                adr, iid = push[vadr][0]
                first = {"position": 0, "velocity": 3, "mass": 6}[nm]
                for k in range(sz):
                    v = kept(E, st, adr + topoly(8 * k), iid)
                    if v is None:
                        A.put("load", "%s: %s" % (name, COLS[first + k]), loc(E, iid), None, "value not recognised")
                        continue
                    if nm != "mass":
                        at = single_atom(v)
                        c = column(E, at, cv) if at is not None else None
                        verdict = None if c is None and not v.const() == 0 and (at is not None and akey(at)[0] not in ("call",)) else c == first + k
                        if c is None and at is not None and akey(at)[0] == "call" and akey(at)[-1] in cv:
                            verdict = None
                        if at is not None and akey(at)[0] in ("undef", "uninit"):
                            verdict = False
                        A.put("load", "%s: %s" % (name, COLS[first + k]), loc(E, iid), verdict, "%s is %s" % (COLS[first + k], "column %d" % c if c is not None else show(v)))
                    else:
                        mass(E, A, name, st, ev, v, cv, iid, factors)
            rad = S.get("radius")
            if rad is not None:
                if len(push.get(rad, [])) != 1:
                    A.put("load", "%s: radius" % name, f.where, False if push.get(vec(b.pos)) else None, "%d radii are added for one line" % len(push.get(rad, [])))
                else:
                    adr, iid = push[rad][0]
                    v = kept(E, st, adr, iid)
                    parts = [e for e in ev if e[0] == "part" and e[2].const() == 7]
                    if v is None:
                        A.put("load", "%s: radius" % name, loc(E, iid), None, "value not recognised")
                    else:
                        at = single_atom(v)
                        c = column(E, at, cv) if at is not None else None
                        sz = [e for e in ev if e[0] == "split"]
                        many = E.tri(st, cmp("lt", topoly(7) - atom("lsize", sz[-1][1]))) if sz else None
                        if c is not None:
                            A.put("load", "%s: radius" % name, loc(E, iid), c == 7, "the radius is column %d" % c)
                        elif v.const() is not None:
                            if many is None and sz:
                                many = fits(st, single_atom(atom("lsize", sz[-1][1])), 8) or None
                            A.put("load", "%s: radius" % name, loc(E, iid), v.const() == 0 and many is not True, "the radius is %s" % show(v) + (" although column 7 is there" if many else ""))
                        else:
                            A.put("load", "%s: radius" % name, loc(E, iid), None, "the radius is %s" % show(v))
            for e in ev:
                if e[0] == "split" and len(e[3]) == 1 and e[3][0][0] == "lit" and S.get("seps"):
                    bad = [s for s in S["seps"] if e[3][0][1] not in s or s.replace(e[3][0][1], "") != ""]
                    A.put("separator", name, loc(E, e[-1]), not bad, "numbers are separated by %r, lines are split at %r" % (bad, e[3][0][1]))
    for w, vs in sorted(widths.items()):
        if w < 7:
            A.put("accept", "%s: %d columns" % (name, w), f.where, False if True in vs else True if not (None in vs) else None, "a line of %d columns is taken as a body" % w)
        else:
            A.put("accept", "%s: %d columns" % (name, w), f.where, True if True in vs else None if None in vs else False, "a line of %d columns is not taken as a body" % w)
    if not seen:
        A.put("load", name, f.where, None, "no line is recorded in a recognised way")
    for st, r, t in E.exits:
        if succeeded(E, r) and not st.failed:
            fresh(E, A, name, st, b)
    if name.endswith("load_initial"):
        zeno_in(E, A, mod, name, b, cv)
        for st, r, t in E.exits:
            if succeeded(E, r) and not st.failed:
                box(E, A, name, st, b)


def box(E, A, name, st, b):
    adr = akey(single_atom(b.box))[1]
    sts = [e for e in st.ev if e[0] == "store" and e[1] == adr]
    if not sts:
        A.put("box", name, E.f.where, None, "the box size is not set in a recognised way")
        return
    v, where = sts[-1][2], loc(E, sts[-1][-1])
    if v.const() is not None:
        A.put("box", name, where, True if v.const() == 1 else False, "the box size is %s" % show(v))
        return
    at = single_atom(v)
    top = akey(at) if at is not None else ("",)
    inner = single_atom(top[1]) if top[0] == "floor" else None
    parts = list(akey(inner)[1:]) if inner is not None and akey(inner)[0] == "max" else None
    if parts and isinstance(parts[0], (tuple, list, frozenset)):
        parts = list(parts[0])
    if not parts:
        A.put("box", name, where, False if inner is not None and akey(inner)[0] == "min" else None, "the box size is %s" % show(v))
        return
    got, one = set(), False
    for p in parts:
        if not isinstance(p, P):
            A.put("box", name, where, None, "the box size is %s" % show(v))
            return
        if p.const() is not None:
            one = True
            if p.const() != 1:
                A.put("box", name, where, False, "the box size is at least %s" % show(p))
                return
            continue
        a = single_atom(p)
        k = akey(a) if a is not None else ("",)
        e = single_atom(k[2]) if k[0] in ("redmax", "redmin") else None
        ek = akey(e) if e is not None else ("",)
        off = (ek[1] - b.pos - atom("bv", 0).scale(24)).const() if ek[0] == "ld" else None
        n = akey(single_atom(k[1])) if k[0] == "redmax" and single_atom(k[1]) is not None else ("",)
        full = k[0] == "redmax" and (k[1] == b.count or n[0] == "udiv" and n[2].const() == 24 and n[1] == ld(vec(b.pos) + topoly(8)) - b.pos)
        if off is None or k[0] == "redmin" or not full:
            A.put("box", name, where, False if k[0] == "redmin" else None, "the box size takes %s into account" % show(p))
            return
        got.add(int(off))
    A.put("box", name, where, got == {0, 8, 16} and one, "the box size takes the components at offsets %s into account%s" % (sorted(got), "" if one else ", not 1"))


def bare(t):
    while len(t) == 1 and t[0][0] == "trim":
        t = t[0][1]
    return t


def uncomment(E, A, name, st, ev, sp):
    """the text that is split holds nothing after the comment mark"""
    t = bare(sp[2])
    where = loc(E, sp[-1])
    ix = [e for e in ev if e[0] == "index" and e[2] == (("lit", "//"),)]
    if any(e[0] == "strop" for e in ev) or len(t) != 1:
        A.put("comment", name, where, None, "text not recognised")
    elif t[0][0] == "sub" and bare(t[0][1])[0][0] == "line":
        hit = [e for e in ix if e[3] == t[0][3] and e[1] == t[0][1] and e[4] == 0]
        A.put("comment", name, where, bool(hit) and t[0][2].iszero(), "the line is cut at %s" % show(t[0][3]))
    elif t[0][0] == "line":
        if not ix:
            A.put("comment", name, where, False, "the line is not searched for //")
            return
        v = [fits(st, single_atom(ix[0][3]), n) for n in (0, 1, 2, 5, 20)]
        A.put("comment", name, where, False if True in v else None if None in v else True, "a line with // at position %s is not cut" % (v.index(True) if True in v else ""))
    else:
        A.put("comment", name, where, None, "text not recognised")


def kept(E, st, adr, iid):
    v = st.mem.get(adr)
    return v if v is not None else E.S.local_at(E.f.insts[iid], adr, 8)


def trips(E, st, iv, n):
    """does the loop end exactly after n passes: True, False (it can end earlier, or runs over), None"""
    a, b = single_atom(iv), single_atom(n)
    mine = [(c, t) for c, t in st.facts.items() if a in c[1].atoms()]
    if a is None or b is None or not mine or any(c[1].atoms() - {a, b} or c[0] not in ("eq", "ne", "lt", "le") for c, t in mine):
        return None

    def ends(k, m):
        return all(holds(c[0], subst(c[1], {a: topoly(k), b: topoly(m)}).const()) == t for c, t in mine)
    return all(ends(m, m) and not any(ends(k, m) for k in range(m)) for m in (1, 2, 5, 8))


def holds(op, v):
    return {"eq": v == 0, "ne": v != 0, "lt": v < 0, "le": v <= 0}[op]


def fits(st, a, val):
    """do all facts that test the atom alone allow the value"""
    mine = [(c, t) for c, t in st.facts.items() if a in c[1].atoms()]
    if any(c[1].atoms() != {a} or c[0] not in ("eq", "ne", "lt", "le") for c, t in mine):
        return None
    return all(holds(c[0], subst(c[1], {a: topoly(val)}).const()) == t for c, t in mine)


def settle(E, st, v):
    """the form with its conditions decided by the facts of the path"""
    mp = {}
    for c, t in st.facts.items():
        if c[0] == "eq" and t and len(c[1].atoms()) == 1:
            a = next(iter(c[1].atoms()))
            k = c[1].t.get(((a, 1),))
            if k and len(c[1].t) <= 2:
                mp[a] = topoly(-c[1].t.get((), 0) / k)
    if mp:
        v = subst(v, mp)
    mp = {}
    for a in v.atoms():
        k = akey(a)
        if k[0] == "ind":
            t = E.tri(st, k[1])
            if t is not None:
                mp[a] = topoly(1 if t else 0)
    return subst(v, mp) if mp else v


def mass(E, A, name, st, ev, v, cv, iid, factors):
    v = settle(E, st, v)
    ats = [a for a in v.atoms() if akey(a)[0] == "call" and akey(a)[-1] in cv]
    want, what = expected(E, st, name)
    if v.const() is not None and v.const() == 0 and want is None:
        return
    if len(ats) != 1 or len(v.t) != 1 or any(e != 1 for m in v.t for a, e in m) or len(next(iter(v.t))) != 1:
        A.put("load", "%s: mass" % name, loc(E, iid), None if v.const() is None else False, "the mass is %s; %s" % (show(v), [(c[0], show(c[1]), t) for c, t in st.facts.items() if "arg2" in show(c[1])]))
        return
    c = column(E, ats[0], cv)
    A.put("load", "%s: mass" % name, loc(E, iid), None if c is None else c == 6, "the mass is column %s" % c)
    k = float(next(iter(v.t.values())))
    if want is not None:
        A.put("units", "%s: %s" % (name, what), loc(E, iid), abs(k - want) <= 1e-3 * want, "masses are multiplied by %g" % k)


def expected(E, st, name):
    if not name.endswith("load_initial"):
        for n, w in ((0, 1.0), (1, SI), (2, AU)):
            if E.tri(st, cmp("eq", A2 - topoly(n))) is True or E.same(st, A2, topoly(n)):
                return w, ("G1", "SI", "ADK")[n]
        return None, None
    hit = chosen(E, st)
    if hit in NAMES:
        return NAMES[hit], hit
    return None, hit


def chosen(E, st):
    """type name that the tests of the path selected"""
    hits = []
    for e in st.ev:
        if e[0] == "cmp" and len(e[3]) == 1 and e[3][0][0] == "lit":
            v = E.tri(st, cmp("eq", e[4])) if e[1] == "compare" else E.tri(st, ("b", e[4]))
            if v is None and e[1] != "compare":
                v = E.tri(st, cmp("ne", e[4]))
            if v:
                hits.append(e[3][0][1])
    return hits[0] if len(hits) == 1 else None


def fresh(E, A, name, st, b):
    ent = [k for k, e in enumerate(st.ev) if e[0] == "enter"]
    pre = st.ev[:ent[0]] if ent else st.ev
    calls = [((e[1] or "").split("::")[-1], e[2][0]) for e in pre if e[0] == "call" and e[2]]
    for nm, v in (("positions", vec(b.pos)), ("velocities", vec(b.vel)), ("masses", vec(b.mass)), ("colours", vec(b.col))):
        ok = any(c in ("clear", "resize", "assign", "operator=", "swap") and a == v for c, a in calls)
        A.put("fresh", "%s: %s" % (name, nm), E.f.where, ok or (None if not calls else False), "%s of the previous bodies stay" % nm)
    stores = [e for e in pre if e[0] == "store" and e[1] == vec(b.count)]
    A.put("fresh", "%s: count" % name, E.f.where, bool(stores) or False, "the number of bodies is not reset")


def zeno_in(E, A, mod, name, b, cv):
    """which format each type name leads to"""
    kinds = {}
    for st, r, t in E.exits:
        if not succeeded(E, r) or st.failed:
            continue
        hit = chosen(E, st)
        kind = "zeno" if any(e[0] == "call" and (e[1] or "").endswith("::resize") for e in st.ev) else "text" if any(e[0] == "enter" for e in st.ev) else None
        if kind is None:
            continue
        if hit is None:
            A.put("names", "unknown name", E.f.where, None, "a path that loads is not selected by one name")
            continue
        A.put("names", hit, E.f.where, (hit == "Zeno") == (kind == "zeno") and hit in ("Zeno", "G1", "SI", "ADK"), "the type %s is read as %s" % (hit, kind))
        kinds[hit] = kind
    for n in ("Zeno", "G1", "SI", "ADK"):
        if kinds and n not in kinds:
            A.put("names", n, E.f.where, False, "the type %s is not known" % n)


def zeno(ctx, A, mod, name, nargs):
    E = flow(mod, name, nargs)
    b = Bodies(mod, A0)
    f = E.f
    ctx.saw("functions", "%s (%s)" % (f.short, f.where))
    cv = convs(E)
    role = {}
    for h, its in E.iters.items():
        iv = E.S.iv(h)
        for st, ev in its:
            bad = [c for k, c in st.failed if k == "conv" and c in cv and any(e[0] == "conv" and e[-1] == c and not e[3] for e in ev)]
            if bad:
                A.put("accept", "%s: not a number" % name, loc(E, bad[0]), False, "the file is read on although this text is not a number")
            if st.failed:
                continue
            for e in ev:
                if e[0] != "store":
                    continue
                at = single_atom(e[2])
                for nm, base, stride, sz in (("masses", b.mass, 8, 1), ("positions", b.pos, 24, 3), ("velocities", b.vel, 24, 3)):
                    off = (e[1] - base - iv.scale(stride)).const()
                    if off is None or off not in [8 * k for k in range(sz)]:
                        if (set(base.atoms()) & set(e[1].atoms())):
                            A.put("zeno", "%s: element" % nm, loc(E, e[-1]), False, "stored at %s" % show(e[1]))
                        continue
                    if at is None or akey(at)[0] != "call" or akey(at)[-1] not in cv:
                        A.put("zeno", "%s: value" % nm, loc(E, e[-1]), None, "value not recognised")
                        continue
                    role.setdefault(nm, set()).add(h)
                    A.put("zeno", "%s: element" % nm, loc(E, e[-1]), True)
                    if sz == 3:
                        c = column(E, at, cv)
                        A.put("zeno", "%s: component %d" % (nm, off // 8), loc(E, e[-1]), None if c is None else c == off // 8, "component %d is column %s" % (off // 8, c))
    for nm in ("masses", "positions", "velocities"):
        if nm not in role:
            A.put("zeno", nm, f.where, None, "%s not recognised" % nm)
    for st, r, t in E.exits:
        if not succeeded(E, r) or st.failed:
            continue
        order = [e[1] for e in st.ev if e[0] == "enter"]
        pos = {nm: [k for k, h in enumerate(order) if h in hs] for nm, hs in role.items()}
        if all(len(pos.get(nm, [])) == 1 for nm in ("masses", "positions", "velocities")):
            A.put("zeno", "order", f.where, pos["masses"][0] < pos["positions"][0] < pos["velocities"][0], "the blocks are read in another order")
        rs = {e[2][0]: e[2][1] for e in st.ev if e[0] == "call" and (e[1] or "").endswith("::resize") and len(e[2]) > 1}
        for nm, base in (("masses", b.mass), ("positions", b.pos), ("velocities", b.vel)):
            n = rs.get(vec(base))
            if n is None:
                A.put("zeno", "%s: room" % nm, f.where, None, "resize not recognised")
                continue
            for h in role.get(nm, ()):
                iv = E.S.iv(h)
                A.put("zeno", "%s: number" % nm, f.where, trips(E, st, iv, n), "the number of %s read differs from the number of bodies" % nm)
        if rs:
            fresh(E, A, name, st, b)
