"""C11: the reader delivers the frame it names, and a reader can be used again."""
from streams import *
from c08 import Agg


def run(ctx):
    mod = ir.load("seq")
    ctx.rule("range", "seek succeeds only for a frame number below the number of frames")
    ctx.rule("position", "after a successful seek the part file of that frame is open and positioned at the frame's offset")
    ctx.rule("current", "after a successful seek or load the current frame is the requested one (the first one), after a failed seek it is not")
    ctx.rule("read", "a frame is read only from the position of the current frame, and gets that frame's time and step")
    ctx.rule("advance", "after a successful read the next frame is the current one, unless the last one was read or the next could not be reached")
    ctx.rule("side", "colours and masses are read with the first frame read after load")
    ctx.rule("once", "once colours or masses were read in full they are not read again; if they could not be, the next read tries again")
    ctx.rule("whole", "read succeeds only when positions and velocities were read in full")
    ctx.rule("reset", "load forgets everything that the previous stream left in the reader")
    ctx.rule("totals", "the frame count, last step, last time and last part are those of the last index entry, 0 without one")
    ctx.guard("position", "nbody_data_stream_reader", lambda: go(ctx, mod))


def now(E, st, member):
    """value of a member at the end of a path"""
    a = single_atom(member)
    if a is None or akey(a)[0] != "ld":
        return None
    return st.ts.get(("st", akey(a)[1]), member)


def go(ctx, mod):
    R = Reader(mod)
    A = Agg(ctx)
    for E in (R.L, R.S, R.R):
        ctx.saw("functions", "%s (%s)" % (E.f.short, E.f.where))
        ctx.saw("paths", "%s: %d" % (E.f.short, len(E.exits)))
    if R.current is None or R.step is None:
        raise Unhandled("accessors of the reader not recognised")
    used = R.used()
    for st, r, t in R.S.exits:
        for e in st.ev:
            if e[0] == "open" and e[2] and succeeded(R.S, r):
                for p in e[2]:
                    if p[0] == "num" and R.field(p[1], A1) is None and single_atom(p[1]) is not None and akey(single_atom(p[1]))[0] == "ld":
                        v = R.S.same(st, p[1], fld(R, A1, next(iter(used["part"])))) if len(used.get("part", ())) == 1 else False
                        A.put("position", "part", loc(R.S, e[-1]), bool(v), "part %s is opened for the frame" % show(p[1]))
    if any(x[0] is False for x in A.v.values()) and "part" not in used:
        A.done()
        return
    for k in ("part", "pos"):
        if len(used.get(k, ())) != 1:
            raise Unhandled("field of the %s not recognised" % k)
    R.opart, R.opos = next(iter(used["part"])), next(iter(used["pos"]))
    files = {e[1] for st, r, t in R.S.exits for e in st.ev if e[0] == "open"}
    if len(files) != 1:
        raise Unhandled("file of the reader not recognised")
    R.file = next(iter(files))
    R.cached = cached(R, mod)
    seeks(A, R)
    reads(A, R)
    once(A, R)
    resets(A, R, mod)
    totals(A, R, mod)
    A.done()


def fld(R, frame, off):
    return ld(ld(R.frames) + topoly(frame) * R.step + topoly(off))


def cached(R, mod):
    """members that hold the number of the open part: address -> True when every store keeps it so"""
    out = {}
    seen = {}
    for E in (R.S, R.R, R.L):
        for st, r, t in E.exits:
            for k, v in st.ts.items():
                if k[0] == "st" and k[1] != akey(single_atom(R.current))[1]:
                    ops = [e for e in st.ev if e[0] == "open" and e[1] == R.file]
                    seen.setdefault(k[1], []).append((v, ops, E, st))
    for a, vs in seen.items():
        ok = True
        for v, ops, E, st in vs:
            if v.const() == -1 or (v.const() or 0) >= 2 ** 63:
                continue
            if not ops and E.same(st, v, ld(a)):
                continue
            nums = [p[1] for p in ops[-1][2] if p[0] == "num"] if ops and ops[-1][4] and ops[-1][2] else []
            ok &= len(nums) == 1 and nums[0] == v
        out[a] = ok
    return out, seen


def follows(R, E, st, upto=None):
    """what the events of a path leave the data file in: (opened part form or None, position form or None, is open)"""
    part = pos = None
    state = None
    for k, e in enumerate(st.ev if upto is None else st.ev[:upto]):
        if e[0] in ("open",) and e[1] == R.file:
            if e[4]:
                nums = [p[1] for p in e[2] if p[0] == "num"] if e[2] else []
                part, pos, state = (nums[0] if len(nums) == 1 else "?"), topoly(0), True
            else:
                state = False
        elif e[0] in ("close", "close-dirty") and e[1] == R.file:
            part = pos = None
            state = False
        elif e[0] == "isopen" and e[1] == R.file:
            state = e[2]
        elif e[0] == "seek" and e[1] == R.file:
            pos = e[2] if e[3] else "?"
        elif e[0] == "read" and e[1] == R.file:
            pos = "?"
    return part, pos, state


def at_frame(R, E, st, frame, upto=None):
    """True / False / None: the data file is at the given frame"""
    part, pos, state = follows(R, E, st, upto)
    want_part, want_pos = fld(R, frame, R.opart), fld(R, frame, R.opos)
    if state is False:
        return False, "the data file is closed"
    if not state:
        return False, "the data file may be closed"
    if part is not None:
        if part == "?":
            return None, "part not recognised"
        if not E.same(st, part, want_part):
            return False, "part %s is opened" % show(part)
        if pos == "?" or pos is None:
            return None, "position not recognised"
        return (True, "") if E.same(st, pos, want_pos) else (False, "positioned at %s" % show(pos))
    # the file was open before
    if pos is None:
        known = [e for k, e in enumerate(st.ev if upto is None else st.ev[:upto]) if e[0] == "pos" and e[1] == R.file]
        for e in known:
            if E.same(st, e[2], want_pos):
                return (True, "") if E.same(st, R.current, topoly(frame)) or frame == R.current else (False, "the open file is not known to hold the frame")
        return False, "the position is not compared with the frame's"
    if pos == "?":
        return None, "position not recognised"
    if not E.same(st, pos, want_pos):
        return False, "positioned at %s" % show(pos)
    if E.same(st, R.current, topoly(frame)):
        return True, ""
    ok, seen = R.cached
    for c, truth in st.facts.items():
        if c[0] == "eq" and truth:
            for a in c[1].atoms():
                ak = akey(a)
                if ak[0] == "ld" and E.same(st, P({((a, Fraction(1)),): Fraction(1)}), want_part) and ak[1] != akey(single_atom(want_part))[1]:
                    if ok.get(ak[1], True):
                        # every store is right; a path that opens a part must not leave an old number
                        if any(v.const() is None for v, o, _, _ in seen.get(ak[1], [])):
                            for E2 in (R.S, R.R, R.L):
                                for s2, r2, t2 in E2.exits:
                                    if any(e[0] == "open" and e[1] == R.file and e[4] for e in s2.ev) and ("st", ak[1]) not in s2.ts and follows(R, E2, s2)[2]:
                                        return False, "the number of the open part is not kept when a part is opened"
                        return True, ""
                    return False, "the kept part number is not that of the open file"
    # equal to the part of the current frame, whose part is open
    if E.same(st, fld(R, R.current, R.opart), want_part):
        return True, ""
    return False, "the open file is not known to be the frame's part"


def seeks(A, R):
    E = R.S
    for st, r, t in E.exits:
        g = succeeded(E, r)
        if g is None:
            A.put("position", E.f.short, E.f.where, None, "return value not recognised")
            continue
        if not g:
            c = now(E, st, R.current)
            if c is not None:
                A.put("current", E.f.short + " (failed)", E.f.where, False if c == A1 and not E.same(st, R.current, A1) else True, "a frame that could not be reached becomes the current one")
            continue
        v = E.tri(st, cmp("lt", A1 - R.nframes))
        A.put("range", E.f.short, E.f.where, bool(v) if v is not None else outside(E, st, A1, R.nframes), "frame number not compared with the number of frames")
        c = now(E, st, R.current)
        A.put("current", E.f.short, E.f.where, None if c is None else bool(E.same(st, c, A1)), "the current frame becomes %s" % (show(c) if c is not None else ""))
        v, why = at_frame(R, E, st, A1)
        A.put("position", E.f.short, E.f.where, v, why)
    E = R.L
    for st, r, t in E.exits:
        if succeeded(E, r):
            c = now(E, st, R.current)
            A.put("current", E.f.short, E.f.where, None if c is None else bool(E.same(st, c, topoly(0))), "after load the current frame is %s" % (show(c) if c is not None else ""))
            v, why = at_frame(R, E, st, topoly(0))
            A.put("position", E.f.short, E.f.where, v, why)


def outside(E, st, x, n):
    """False: a frame number of n or more passes the tests made (which compare x with n only); else None"""
    a = single_atom(x)
    for c in st.facts:
        if a in c[1].atoms(deep=True) and (c[1].atoms(deep=True) & n.atoms()):
            q = c[1]
            for val in (n, n + topoly(1), n + topoly(5)):
                d = subst(q, {a: val}).const()
                if d is None:
                    return None
            if all(holds(c[0], subst(q, {a: n}).const()) == st.facts[c] for _ in (0,)):
                return False
            return None
    return False


def holds(op, v):
    return {"eq": v == 0, "ne": v != 0, "lt": v < 0, "le": v <= 0}[op]


def reads(A, R):
    E = R.R
    rb = R.b
    addr = lambda f: akey(single_atom(f))[1]
    for st, r, t in E.exits:
        g = succeeded(E, r)
        rd = [(k, e) for k, e in enumerate(st.ev) if e[0] == "read" and e[1] == R.file]
        if rd:
            v, why = at_frame(R, E, st, R.current, rd[0][0])
            A.put("read", "position", loc(E, rd[0][1][-1]), v, "frame data are read although " + why)
            lt = E.tri(st, cmp("lt", R.current - R.nframes))
            A.put("read", "current frame exists", loc(E, rd[0][1][-1]), bool(lt) if lt is not None else (False if possible(R, st, 3, 3) or possible(R, st, 4, 3) else None), "the current frame may be outside the index")
        if not g:
            if g is None:
                A.put("read", "position", E.f.where, None, "return value not recognised")
            continue
        A.put("read", "data read", E.f.where, bool(rd) or None, "success without reading")
        short = [e for k, e in rd if not e[4]]
        A.put("whole", E.f.short, loc(E, short[0][-1]) if short else E.f.where, not short, "success is reported although the frame could not be read in full here")
        for what, f in (("time", rb.time), ("step", rb.step)):
            sts = [e for e in st.ev if e[0] == "store" and e[1] == addr(f)]
            if not sts:
                A.put("read", what, E.f.where, False, "the %s of the bodies is not set" % what)
            else:
                o = R.field(sts[-1][2], R.current)
                A.put("read", what, loc(E, sts[-1][-1]), None if single_atom(sts[-1][2]) is None else o is not None, "the %s of the bodies is set to %s" % (what, show(sts[-1][2])))
        # next frame
        last = E.tri(st, cmp("lt", R.current + topoly(1) - R.nframes))
        c = now(E, st, R.current)
        if not st.failed:
            if last is False:
                A.put("advance", "last frame", E.f.where, bool(E.same(st, c, R.current)), "after the last frame the current frame is %s" % show(c))
            elif last is True:
                A.put("advance", "next frame", E.f.where, bool(E.same(st, c, R.current + topoly(1))), "after a read the current frame is %s" % show(c))
                v, why = at_frame(R, E, st, R.current + topoly(1))
                A.put("advance", "position", E.f.where, v, why)
            else:
                reach = E.same(st, c, R.current + topoly(1))
                stay = E.same(st, c, R.current)
                A.put("advance", "next frame", E.f.where, False if not reach and any(possible(R, st, x, n) for x, n in ((0, 2), (0, 3), (1, 3), (3, 5), (2, 4))) else
                      False if not stay and any(possible(R, st, x, n) for x, n in ((0, 1), (2, 3))) else None, "after a read the current frame is %s" % show(c))
        elif c is not None:
            mine = {e[-1] for e in st.ev if e[0] == "open" and e[1] == R.file}
            far = any(f[0] == "seek" or f[0] == "open" and f[1] in mine for f in st.failed)
            v = E.same(st, c, R.current) or not far and E.same(st, c, R.current + topoly(1))
            A.put("advance", "after failures", E.f.where, bool(v), "the current frame becomes %s" % show(c))
        # side files
        for arr in ("col", "mass"):
            got = [e for e in st.ev if e[0] == "read" and e[2] is not None and rb.array(e[2]) == arr]
            if got or any(f[0] == "open" for f in st.failed):
                continue
            flags = [k for k in st.facts if len(k[1].atoms()) == 1 and E.tri(st, ("eq", k[1])) is False and is_flag(R, k[1])]
            A.put("side", arr, E.f.where, bool(flags), "a frame can be read after load without the %s being read" % {"col": "colours", "mass": "masses"}[arr])


def once(A, R):
    E, rb = R.R, R.b
    paths = []
    for st, r, t in E.exits:
        if succeeded(E, r):
            fl = {}
            for c in st.facts:
                if len(c[1].atoms()) == 1 and is_flag(R, c[1]):
                    v = E.tri(st, ("eq", c[1]))
                    if v is not None:
                        fl[akey(single_atom(c[1]))[1]] = not v
            got = {}
            for e in st.ev:
                if e[0] == "read" and e[2] is not None and rb.array(e[2]) in ("col", "mass"):
                    got[rb.array(e[2])] = bool(e[4])
            paths.append((st, fl, got))
    for F in {f for _, fl, _ in paths for f in fl}:
        on = {a for _, fl, got in paths if fl.get(F) is True for a in got}
        off = {a for _, fl, got in paths if fl.get(F) is False for a in got}
        if len(off - on) != 1:
            continue
        arr = next(iter(off - on))
        for st, fl, got in paths:
            if fl.get(F) is not False:
                continue
            v = st.ts.get(("st", F), topoly(0))
            v = E.value(st, v) if v.const() is None else v
            if v.const() is None:
                A.put("once", arr, E.f.where, None, "flag not recognised")
            elif got.get(arr):
                A.put("once", arr, E.f.where, v.const() != 0, "the %s were read, yet this is not remembered" % arr)
            else:
                A.put("once", arr, E.f.where, v.const() == 0, "the %s could not be read, yet they are taken as read" % arr)


def possible(R, st, cur, n):
    """do all tests made on the path allow this current frame and number of frames"""
    a, b = single_atom(R.current), single_atom(R.nframes)
    if a is None or b is None:
        return False
    diff = akey(b)[1]
    for c, truth in st.facts.items():
        q = c[1]
        if c[0] in ("eq", "ne") and q in (diff, -diff):
            if holds(c[0], n) != truth:
                return False
            continue
        if not q.atoms() & {a, b}:
            continue
        d = subst(q, {a: topoly(cur), b: topoly(n)}).const()
        if d is None or c[0] not in ("eq", "ne", "lt", "le") or holds(c[0], d) != truth:
            return False
    return True


def is_flag(R, p):
    """a member that load() clears and read() sets"""
    a = single_atom(p)
    if a is None or akey(a)[0] != "ld":
        return False
    k = ("st", akey(a)[1])
    return any(k in st.ts for st, r, t in R.R.exits)


def resets(A, R, mod):
    """every member that load(), seek() or read() changes is set afresh by load() before the index is parsed"""
    E = R.L
    changed = {}
    for X in (R.S, R.R):
        for st, r, t in X.exits:
            for e in st.ev:
                if e[0] == "store" and inside(e[1]):
                    changed[e[1]] = "member at %s" % show(e[1])
    for h, its in E.iters.items():
        for st, ev in its:
            for e in ev:
                if e[0] == "store" and inside(e[1]):
                    changed[e[1]] = "member at %s" % show(e[1])
                if e[0] == "call" and e[2] and inside(e[2][0]) and (e[1] or "").split("::")[-1] in ("push_back", "operator[]", "insert", "emplace_back", "emplace"):
                    changed[e[2][0]] = "container at %s" % show(e[2][0])
    for f, n in ((R.count, "body count"), (R.coord, "coordinate size"), (R.box, "box size"), (R.current, "current frame")):
        ats = [x for x in f.atoms() if akey(x)[0] == "ld"] if f is not None else []
        if len(ats) == 1 and akey(ats[0])[1] in changed:
            changed[akey(ats[0])[1]] = n
    changed[R.frames] = "list of frames"
    changed[R.file] = "data file"
    if not changed:
        A.put("reset", "members", E.f.where, None, "no member is changed")
    for st, r, t in E.exits:
        if not succeeded(E, r):
            continue
        ent = [k for k, e in enumerate(st.ev) if e[0] == "enter"]
        pre = st.ev[:ent[0]] if ent else st.ev
        whole = [e for e in pre if e[0] == "store" and e[1] == akey(single_atom(R.frames))[1] ] if single_atom(R.frames) is not None else []
        for a, n in changed.items():
            if whole:
                A.put("reset", n, E.f.where, None, "the state of the reader is replaced")
                continue
            hit = None
            for e in pre:
                if e[0] == "store" and e[1] == a:
                    hit = e[2].const() is not None
                elif e[0] == "call" and e[2] and e[2][0] == a:
                    hit = True if (e[1] or "").split("::")[-1] in ("clear", "operator=", "swap") else hit
                elif e[0] in ("close", "close-dirty") and e[1] == a:
                    hit = True
            if hit is None and a != R.file:
                # still sound when the member is set on every path after the loop
                hit = ("st", a) in st.ts
            if a == R.file and hit is None:
                hit = any(e[0] in ("close", "close-dirty", "open") and e[1] == a for e in st.ev)
            A.put("reset", n, E.f.where, hit, "%s keeps its value of the previous stream" % n)


def inside(a):
    return any(akey(x)[0] == "ld" and akey(x)[1] == A0 + topoly(8) for x in a.atoms()) if isinstance(a, P) else False


def totals(A, R, mod):
    k = akey(single_atom(R.nframes)) if single_atom(R.nframes) is not None else None
    if k is None or k[0] != "udiv":
        A.put("totals", "get_frame_count", R.L.f.where, None, "number of frames not recognised")
        return
    begin = ld(R.frames)
    e = k[1] + begin
    A.put("totals", "get_frame_count", R.L.f.where, single_atom(e) is not None and e == ld(R.frames + topoly(8)), "the number of frames is %s" % show(R.nframes))
    used = R.used()
    rel = {"get_steps_count": used.get("step"), "get_max_time": used.get("time"), "get_last_file_n": used.get("part")}
    for n, offs in rel.items():
        f = roles.accessor(mod, "nbody_data_stream_reader::" + n, A0)
        w = mod.by_short("nbody_data_stream_reader::" + n)
        where = w[0].where if w else R.L.f.where
        if f is None or not offs or len(offs) != 1 or None in offs:
            A.put("totals", n, where, None, "not recognised")
            continue
        last = ld(ld(R.frames + topoly(8)) + topoly(next(iter(offs)) - R.step))
        A.put("totals", n, where, same_total(f, last, e, begin), "%s is %s" % (n, show(f)))


def same_total(f, last, e, begin):
    ae = single_atom(e)
    full = drop(f, False)
    empty = drop(f, True)
    if full is None:
        return None
    if empty is not None:
        empty = subst(empty, {ae: begin})
    if full != last:
        return False
    return True if empty is None or empty == ZERO else False


def drop(f, truth):
    """f with its indicators of `the list is empty` replaced by the given truth"""
    mp = {}
    for a in f.atoms(deep=True):
        k = akey(a)
        if k[0] == "ind":
            if k[1][0] not in ("eq", "lt"):
                return None
            mp[a] = topoly(1 if truth == (k[1][0] == "eq") else 0)
        elif k[0] not in ("ld", "arg", "udiv"):
            return None
    return subst(f, mp)
