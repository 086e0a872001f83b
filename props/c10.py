"""C10: the reader understands exactly what the writer writes."""
from streams import *
from c08 import Agg, members
from fractions import Fraction


def run(ctx):
    mod = ir.load("seq")
    ctx.rule("columns", "each column of the index record is parsed into the field that the reader uses for it")
    ctx.rule("kinds", "integers are parsed as 64 bit integers, times as reals")
    ctx.rule("line", "reader and writer agree on the separator and on the number of columns, and both on the form of header lines")
    ctx.rule("header", "each header key carries the quantity whose value the reader keeps for it, and no key is unknown to the reader")
    ctx.rule("payload", "the frame is read in the order, into the arrays and with the sizes it was written from")
    ctx.rule("side", "colours and masses are read from the files, into the arrays and with the sizes they were written from")
    ctx.rule("names", "reader and writer build the names of index and part files the same way from the base name")
    ctx.rule("guard", "nothing is read into bodies whose number differs from the stream's, and no stream of another coordinate size is accepted")
    ctx.rule("accept", "a complete header (positive count, box and 8 byte coordinates) and a record whose columns all convert are accepted")
    ctx.rule("refuse", "a stream without a body count or box size, and a record with a column that is not a number, are not accepted")
    ctx.guard("columns", "nbody_data_stream_reader", lambda: go(ctx, mod))


def pattern(name, base):
    """name as (kinds and literals), the base name abstracted"""
    if name is None:
        return None
    return tuple(("base",) if p[0] == "obj" and p[1] in base else (p[0],) if p[0] == "num" else p for p in name)


def go(ctx, mod):
    W, R = Writer(mod), Reader(mod)
    A = Agg(ctx)
    for E in (W.E, R.L, R.S, R.R):
        ctx.saw("functions", "%s (%s)" % (E.f.short, E.f.where))
    b = W.b
    rd = R.L.f
    # index columns
    wr = None
    for st, r, t in W.good():
        rec = W.record(st)
        if rec is not None:
            cols, seps = rec
            role = {}
            for n, (k, kind, form) in enumerate(cols):
                at = single_atom(form)
                what = "step" if form == b.step else "time" if form == b.time else "pos" if at is not None and akey(at)[0] == "pos" else None
                role[n] = (what, kind)
            left = [n for n in role if role[n][0] is None]
            for n in left:
                for what, f in (("time", b.time), ("step", b.step)):
                    if what not in [x[0] for x in role.values()] and set(f.atoms()) & set(cols[n][2].atoms(deep=True)):
                        A.put("columns", what, loc(W.E, st.ev[cols[n][0]][-1]), False, "%s is written as %s" % (what, show(cols[n][2])))
                        role[n] = (what, cols[n][1])
            left = [n for n in role if role[n][0] is None]
            if len(left) == 1:
                role[left[0]] = ("part", role[left[0]][1])
            wr = (role, seps, len(cols))
    used = R.used()
    if wr is None:
        ctx.undecided("columns", "index record", W.E.f.where, "record of the writer not recognised")
    else:
        role, seps, ncol = wr
        byrole = {v[0]: k for k, v in role.items()}
        for what in ("step", "time", "part", "pos"):
            offs = used.get(what)
            if what not in byrole or not offs or None in offs:
                v = None
                if offs and None in offs:
                    v = False if what in ("time", "step") else None
                A.put("columns", what, rd.where, v, "%s of a frame is not taken from the frame's index entry" % what)
                continue
            for o in offs:
                c = R.item.get(o)
                if c is None:
                    A.put("columns", what, rd.where, False if what in ("time", "step") and o in R.other else None, "field at offset %d is not parsed from a column" % o)
                    continue
                A.put("columns", what, rd.where, c[0] == byrole[what], "%s is written to column %d and read from column %d" % (what, byrole[what], c[0]))
                kind = role[byrole[what]][1]
                good = c[1] in ("toULongLong", "toLongLong", "toULong", "toLong") if kind == "num" else c[1] == "toDouble"
                A.put("kinds", what, rd.where, good, "%s is written as %s and parsed with %s" % (what, kind, c[1]))
        # separators and number of columns
        st, ev, h = R.recpass
        lists = {c[2] for c in R.item.values()}
        sp = [e for e in ev if e[0] == "split" and e[1] in lists]
        want = [(n + 1, s) for n, s in enumerate(x[1] for x in seps)]
        if len(sp) == 1 and len(sp[0][3]) == 1 and sp[0][3][0][0] == "lit":
            s = sp[0][3][0][1]
            A.put("line", "separator", loc(R.L, sp[0][-1]), seps == [(n, s) for n in range(1, ncol)], "written with %r, split at %r" % ([x[1] for x in seps], s))
            size = atom("lsize", sp[0][1])
            A.put("line", "number of columns", loc(R.L, sp[0][-1]), R.L.tri(st, cmp("eq", size - topoly(ncol))) is True or R.L.value(st, size) == topoly(ncol) or
                  (R.L.tri(st, cmp("le", topoly(ncol) - size)) is True and R.L.tri(st, cmp("lt", topoly(ncol) - size)) is not True), "a record has %d columns, the reader accepts other numbers only" % ncol)
        else:
            A.put("line", "separator", rd.where, None, "separator not recognised")
    records(A, R)
    sizes(A, R)
    header(A, W, R)
    payload(A, mod, W, R)
    A.done()


def records(A, R):
    """records with a column that does not convert are not kept; records whose columns all convert are not refused"""
    E = R.L
    for h, its in E.iters.items():
        for st, ev in its:
            if not any(e[0] == "call" and (e[1] or "").endswith("::push_back") and e[2][0] == R.frames for e in ev):
                continue
            bad = [e for e in ev if e[0] == "conv" and not e[3]]
            A.put("refuse", "record", E.f.where, not bad, "a record is kept although its column at %s is not a number" % (loc(E, bad[0][-1]) if bad else ""))
    cols = {c[0] for c in R.item.values()}
    lists = {c[2] for c in R.item.values()}
    for st, r, t in E.exits:
        if succeeded(E, r) is not False or st.failed:
            continue
        ent = [k for k, e in enumerate(st.ev) if e[0] == "enter"]
        tail = st.ev[ent[-1] + 1:] if ent else ()
        done = {}
        for e in tail:
            if e[0] == "conv" and e[3] and len(e[1]) == 1 and e[1][0][0] == "obj":
                a = single_atom(e[1][0][1])
                if a is not None and akey(a)[0] == "lpart" and akey(a)[1] in lists and akey(a)[2].const() is not None:
                    done[int(akey(a)[2].const())] = e[-1]
        if not cols or not cols <= set(done):
            continue
        # the values themselves must not have been tested
        used = [c for c in st.facts for x in c[1].atoms(deep=True) if akey(x)[0] == "call" and akey(x)[-1] in done.values()]
        A.put("accept", "record", E.f.where, None if used else False, "a record whose columns all convert is refused")
    A.put("accept", "record", E.f.where, True)


def sizes(A, R):
    """which header values load() accepts"""
    E = R.L
    adr = {}
    for n, f in (("count", R.count), ("coord", R.coord), ("box", R.box)):
        ats = [a for a in f.atoms(deep=True) if akey(a)[0] == "ld"] if f is not None else []
        if len(ats) < 1:
            return
        adr[akey(max(ats, key=lambda a: len(show(P({((a, Fraction(1)),): Fraction(1)})))))[1]] = n
    if len(adr) != 3:
        return
    for what, w, want in (("count 1, box 1", dict(count=1, coord=8, box=1), True), ("count 7, box 100", dict(count=7, coord=8, box=100), True), ("count 65536, box 2", dict(count=65536, coord=8, box=2), True),
                          ("no body count", dict(count=0, coord=8, box=100), False), ("no box size", dict(count=7, coord=8, box=0), False)):
        vs = []
        for st, r, t in E.exits:
            if not succeeded(E, r) or st.failed:
                continue
            v = True
            for c, truth in st.facts.items():
                mp, other = {}, False
                for a in c[1].atoms():
                    if akey(a)[0] == "ld" and akey(a)[1] in adr:
                        mp[a] = topoly(w[adr[akey(a)[1]]])
                    else:
                        other = True
                if not mp:
                    continue
                q = subst(c[1], mp).const()
                if other or q is None or c[0] not in ("eq", "ne", "lt", "le"):
                    v = None if v else v
                elif holds(c[0], q) != truth:
                    v = False
                    break
            vs.append(v)
        if not vs:
            return
        if want:
            A.put("accept", "header: " + what, E.f.where, True if True in vs else None if None in vs else False, "a header with %s is refused" % what)
        else:
            A.put("refuse", "header: " + what, E.f.where, False if True in vs else None if None in vs else True, "a header with %s is accepted" % what)


def header(A, W, R):
    wk = {}
    for st, r, t in W.good():
        wk.update(W.headers(st))
    if not wk or None in wk.values():
        A.put("header", "keys", W.E.f.where, None, "header of the writer not recognised")
        return
    # reader: key -> member
    rk, form, prefix = {}, None, set()
    for h, its in R.L.iters.items():
        for st, ev in its:
            if st.failed:
                continue
            for e in ev:
                if e[0] == "cmp" and e[1] == "startsWith" and len(e[3]) == 1 and e[3][0][0] == "lit":
                    prefix.add(e[3][0][1])
            hit = [e for e in ev if e[0] == "cmp" and e[1] in ("operator==", "compare") and truth(R.L, st, e) is True and len(e[3]) == 1 and e[3][0][0] == "lit"]
            cv = {e[-1]: e for e in ev if e[0] == "conv"}
            for e in ev:
                if e[0] == "store":
                    a = single_atom(e[2])
                    if a is not None and akey(a)[0] == "call" and akey(a)[-1] in cv and hit:
                        c = cv[akey(a)[-1]]
                        src = single_atom(c[1][0][1]) if len(c[1]) == 1 and c[1][0][0] == "obj" else None
                        key = single_atom(hit[-1][2][0][1]) if len(hit[-1][2]) == 1 and hit[-1][2][0][0] == "obj" else None
                        sp = [x for x in ev if x[0] == "split" and src is not None and akey(src)[0] == "lpart" and x[1] == akey(src)[1]]
                        shape = None
                        if src is not None and key is not None and akey(src)[0] == akey(key)[0] == "lpart" and sp and sp[-1][3] and sp[-1][3][0][0] == "lit":
                            shape = (akey(key)[2].const(), akey(src)[2].const(), sp[-1][3][0][1])
                        rk.setdefault(hit[-1][3][0][1], set()).add((e[1], c[2], shape))
    if not rk:
        A.put("header", "keys", R.L.f.where, None, "header parsing not recognised")
        return
    get = {}
    for n, f in (("body count", R.count), ("coordinate size", R.coord), ("box size", R.box)):
        ats = [a for a in f.atoms() if akey(a)[0] == "ld"] if f is not None else []
        if len(ats) == 1:
            get[akey(ats[0])[1]] = n
    for key, formv in wk.items():
        lit = key
        what = "body count" if formv == W.b.count else "box size" if formv == W.b.box else "coordinate size" if formv.const() == 8 else None
        A.put("line", "header prefix of %r" % key, R.L.f.where, any(key.startswith(p) for p in prefix) if prefix else None, "header line %r does not start with %s" % (key, prefix))
        m = [(k, v) for k, v in rk.items() if any(s[2] is not None and key == k + s[2][2] for s in v)]
        if not m:
            known = [k for k, v in rk.items() if any(s[2] is None for s in v)]
            A.put("header", key.strip(), W.E.f.where, None if known else False, "the reader does not know the header line %r" % key)
            continue
        for addr, method, shape in m[0][1]:
            got = get.get(addr)
            A.put("header", key.strip(), R.L.f.where, None if what is None or got is None else got == what and shape[:2] == (0, 1), "%s is written, read as %s" % (what, got))
            A.put("kinds", "header " + key.strip(), R.L.f.where, method in ("toULongLong", "toLongLong", "toULong", "toLong"), "parsed with %s" % method)
    for n in ("body count", "coordinate size", "box size"):
        if n in get.values():
            okk = any(f == W.b.count if n == "body count" else f == W.b.box if n == "box size" else f.const() == 8 for f in wk.values())
            A.put("header", n + " is written", W.E.f.where, okk, "no header line carries the %s" % n)


def truth(E, st, e):
    c = e[4]
    v = E.tri(st, ("b", c))
    if v is None:
        v = E.tri(st, cmp("ne", c))
    if v is None:
        return None
    return v if e[1] != "compare" else not v


def payload(A, mod, W, R):
    b = W.b
    E0, part = members(mod)[:2]
    wbase, rbase = set(), set()
    for st, r, t in E0.exits:
        for e in st.ev:
            if e[0] == "sassign" and e[2] == (("obj", A1),):
                wbase |= {e[1], A1}
    for st, r, t in R.L.exits:
        if succeeded(R.L, r):
            for e in st.ev:
                if e[0] == "sassign" and e[2] == (("obj", A1),):
                    rbase |= {e[1], A1}
    if not wbase or not rbase:
        A.put("names", "base name", E0.f.where, None, "base name not recognised")
    wname, widx, rname, ridx = set(), set(), set(), set()
    for E, dst in ((E0, None), (W.E, None)):
        for st, r, t in E.exits:
            for e in st.ev:
                if e[0] == "open" and e[2]:
                    p = pattern(e[2], wbase)
                    if any(x[0] == "num" for x in p):
                        wname.add(p)
                    elif E is E0:
                        widx.add(p)
    for st, r, t in R.S.exits:
        for e in st.ev:
            if e[0] == "open" and e[2]:
                rname.add(pattern(e[2], rbase))
    for st, r, t in R.L.exits:
        for e in st.ev:
            if e[0] == "open" and e[2] and not any(x[0] == "num" for x in e[2]):
                ridx.add(pattern(e[2], {A1}))
    for what, x, y in (("part files", wname, rname), ("index", widx, ridx)):
        v = None if not x or not y or any("?" == q[0] or q[0] == "obj" for p in x | y for q in p) else x == y and len(x) == 1
        A.put("names", what, R.S.f.where, v, "written as %s, read as %s" % (sorted(map(str, x)), sorted(map(str, y))))
    # payload and side files
    wseq, wside = None, {}
    for st, r, t in W.good():
        wseq = [(b.array(e[2]), e[3]) for e in st.ev if e[0] == "write" and e[1] == W.data and e[2] is not None]
        nm = {}
        for e in st.ev:
            if e[0] == "open" and e[1] != W.data:
                nm[e[1]] = pattern(e[2], wbase)
            if e[0] == "write" and e[1] != W.data and e[2] is not None:
                wside[nm.get(e[1])] = (b.array(e[2]), e[3])
    rb = R.b
    for st, r, t in R.R.exits:
        if not succeeded(R.R, r):
            continue
        seq, nm, dat = [], {}, None
        for e in st.ev:
            if e[0] == "open":
                nm[e[1]] = pattern(e[2], rbase)
            if e[0] == "read":
                arr = rb.array(e[2])
                side = nm.get(e[1])
                if dat is None:
                    dat = e[1]
                if e[1] == dat:
                    if e[4]:
                        seq.append((arr, e[3]))
                    v = R.R.tri(st, cmp("eq", rb.count - R.count))
                    A.put("guard", "body count before read at %s" % loc(R.R, e[-1]), loc(R.R, e[-1]), True if v or R.R.same(st, rb.count, R.count) else False if v is False or not related(st, rb.count, R.count) else differ(st, rb.count, R.count),
                          "data are read without the body count being compared with the stream's")
                elif arr is not None:
                    w = wside.get(side)
                    A.put("side", arr, loc(R.R, e[-1]), None if side is None or any(x[0] in ("?", "obj") for x in side) else w is not None and w[0] == arr and R.R.same(st, w[1], e[3]),
                          "read from %s (%s), written there: %s" % (side, show(e[3]), w and (w[0], show(w[1]))))
        if wseq is not None and not st.failed:
            v = len(seq) == len(wseq) and all(x[0] == y[0] and R.R.same(st, x[1], y[1]) for x, y in zip(seq, wseq))
            A.put("payload", "frame", R.R.f.where, v if all(x[0] for x in seq) else None, "written %s, read %s" % ([(n, show(s)) for n, s in wseq], [(n, show(s)) for n, s in seq]))
    for w, (arr, size) in wside.items():
        A.put("side", str(arr), R.R.f.where, True if any(k == ("side", str(arr)) for k in A.v) else None, "")
    for st, r, t in R.L.exits:
        if succeeded(R.L, r) and R.coord is not None:
            A.put("guard", "coordinate size", R.L.f.where, is8(R, st), "a stream with another coordinate size is accepted")


def differ(st, p, q):
    """False: some pair of different values passes every test made of the two; else None"""
    a, b = single_atom(p), single_atom(q)
    if a is None or b is None:
        return None
    mine = [(c, t) for c, t in st.facts.items() if c[1].atoms(deep=True) & {a, b}]
    if any(c[1].atoms() - {a, b} or c[0] not in ("eq", "ne", "lt", "le") for c, t in mine):
        return None
    for x, y in ((3, 5), (5, 3)):
        if all(holds(c[0], subst(c[1], {a: topoly(x), b: topoly(y)}).const()) == t for c, t in mine):
            return False
    return None


def related(st, p, q):
    at = p.atoms() | q.atoms() if isinstance(p.atoms(), set) else set(p.atoms()) | set(q.atoms())
    return any(at & set(c[1].atoms(deep=True)) for c in st.facts)


def is8(R, st):
    """is the kept coordinate size known to be 8: some test of the member (at whatever moment) against 8 holds"""
    a = single_atom(R.coord)
    if a is None or akey(a)[0] != "ld":
        return None
    if R.L.same(st, R.coord, topoly(8)):
        return True
    mine = []
    for c in st.facts:
        for b in c[1].atoms(deep=True):
            if akey(b)[0] == "ld" and akey(b)[1] == akey(a)[1]:
                if c[1].atoms() != {b} or c[0] not in ("eq", "ne", "lt", "le"):
                    return None
                mine.append((c, b, st.facts[c]))
    for n in (4, 16, 2, 12, 7, 9):      # a size that passes every test made
        if all(holds(c[0], subst(c[1], {b: topoly(n)}).const()) == truth for c, b, truth in mine):
            return False
    return True


def holds(op, v):
    return {"eq": v == 0, "ne": v != 0, "lt": v < 0, "le": v <= 0}[op]
