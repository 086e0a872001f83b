"""C08: a frame becomes visible in the index only when its data are complete and flushed."""
from streams import *


def run(ctx):
    mod = ir.load("seq")
    ctx.rule("order", "no index record reaches the index file before all bytes of its frame were written and flushed to the data file")
    ctx.rule("complete", "a successful write leaves the whole frame (positions, then velocities, all bodies) and one finished, flushed index record behind")
    ctx.rule("failed", "a write that fails before the index record adds no record for the frame")
    ctx.rule("record", "the record names step and time of the bodies, the number of the part file that received the data and the position where they start")
    ctx.rule("part", "a new part (number one higher, kept in the stream) is started exactly when a positive size limit is reached")
    ctx.rule("open", "a new stream starts part 0 and the index from empty files; resuming appends to the last part of the resumed stream and to its index, without truncation; the open part number is the one kept in the stream")
    ctx.rule("header", "the first frame of a new stream is preceded by the header; no other frame is")
    ctx.guard("order", "nbody_data_stream::write", lambda: write(ctx, mod))
    ctx.guard("open", "nbody_data_stream::open", lambda: opening(ctx, mod))


class Agg:
    """one obligation per rule and construct, judged on all paths"""

    def __init__(self, ctx):
        self.ctx, self.v = ctx, {}

    def put(self, rule, inst, where, verdict, detail=""):
        k = (rule, inst)
        old = self.v.get(k)
        rank = {True: 0, None: 1, False: 2}
        if old is None or rank[verdict] > rank[old[0]]:
            self.v[k] = (verdict, where, detail)

    def done(self):
        for (rule, inst), (v, w, d) in self.v.items():
            self.ctx.decide(v, rule, inst, w, d)


def write(ctx, mod):
    W = Writer(mod)
    E, b, H, T = W.E, W.b, W.data, W.idx
    f = E.f
    ctx.saw("functions", "%s (%s)" % (f.short, f.where))
    ctx.saw("paths", "%d exits of %s" % (len(E.exits), f.short))
    A = Agg(ctx)
    name = f.short
    for st, r, t in E.exits:
        ok = succeeded(E, r)
        if ok is None:
            A.put("complete", name, f.where, None, "return value %s" % show(r))
            continue
        ev = st.ev
        txt = W.text(st)
        frame = [(l, d) for l, d in txt if not is_header(l)]
        first = min([k for l, d in frame for k, p in l], default=None)
        # order
        if first is not None:
            for k, e in enumerate(ev):
                if e[0] == "tflush" and e[1] == T and k > first:
                    clean = {}
                    for j, x in enumerate(ev[:k]):
                        if x[0] == "write" and x[1] == H:
                            clean[j] = False
                        if x[0] in ("close",) and x[1] == H or x[0] == "flush" and x[1] == H and x[2]:
                            clean = {q: True for q in clean}
                    late = [x for x in ev[k:] if x[0] == "write" and x[1] == H]
                    bad = [q for q, c in clean.items() if not c]
                    A.put("order", name, loc(E, e[-1]), not bad and not late,
                          "index flushed at %s while %s is not on its way to the data file%s" % (loc(E, e[-1]), loc(E, (ev[bad[0]] if bad else late[0])[-1]) if bad or late else "",
                                                                                               " (its flush failed)" if any(x[0] == "flush" and not x[2] for x in ev[:k]) else ""))
        # failure before the record
        if not ok:
            hard = [x for x in st.failed if x[0] != "tflush"]
            soft = first is not None and not hard and not st.failed
            A.put("failed", name, f.insts[st.failed[0][1]].loc if st.failed else f.where, first is None or not hard and not soft,
                  "an index record is written although the write fails at %s" % (f.insts[st.failed[0][1]].loc if st.failed else t.loc))
        # success
        if ok and not st.failed:
            W1 = [e for e in ev if e[0] == "write" and e[1] == H]
            want = [("pos", b.pos, b.count * 24), ("vel", b.vel, b.count * 24)]
            if any(e[2] is None for e in W1) or len(W1) != 2 and any(b.array(e[2]) is None for e in W1):
                A.put("complete", name, f.where, None, "payload writes not recognised")
            else:
                A.put("complete", name, W1[-1] and loc(E, W1[-1][-1]) if W1 else f.where, [(b.array(e[2]), e[3]) for e in W1] == [(n, s) for n, p, s in want],
                      "payload is %s" % [(b.array(e[2]) or show(e[2]), show(e[3])) for e in W1])
            nt = len([1 for l, d in frame if d])
            fl = [k for k, e in enumerate(ev) if e[0] == "tflush" and e[1] == T]
            last = max([k for k, e in enumerate(ev) if e[0] == "emit" and e[1] == T], default=-1)
            A.put("complete", name + " (record)", f.where, nt == 1 and len(frame) == 1 and bool(fl) and max(fl) > last, "%d finished record line(s), index %s" % (nt, "flushed" if fl and max(fl) > last else "not flushed after the record"))
            rec = W.record(st)
            if rec is None:
                A.put("record", name, f.where, None, "record not recognised")
                continue
            cols, seps = rec
            if len(cols) < 4:
                A.put("record", name, f.where, False if len(cols) < 4 else None, "record has %d numbers" % len(cols))
                continue
            forms = [c[2] for c in cols]
            A.put("record", name + " (step)", f.where, b.step in forms, "no column is the step of the bodies")
            A.put("record", name + " (time)", f.where, b.time in forms, "no column is the time of the bodies")
            opens = [(k, e) for k, e in enumerate(ev) if e[0] == "open" and e[1] == H]
            k0 = opens[-1][0] if opens else -1
            w0 = min([k for k, e in enumerate(ev) if e[0] == "write" and e[1] == H], default=10 ** 6)
            fresh = [e[2] for k, e in enumerate(ev) if e[0] == "pos" and e[1] == H and k0 < k < w0]
            stale = [e[2] for k, e in enumerate(ev) if e[0] == "pos" and e[1] == H and not (k0 < k < w0)]
            rest = [x for x in forms if x not in (b.step, b.time)]
            posok = any(x in fresh for x in rest)
            posbad = any(x in stale for x in rest)
            A.put("record", name + " (position)", f.where, True if posok else False if posbad or not any("pos" == akey(a)[0] for x in rest for a in x.atoms()) else None,
                  "the position column is not the position of the data file right before the frame is written")
            num = [x for x in rest if x not in fresh and x not in stale]
            if opens:
                nm = opens[-1][1][2]
                n = [p[1] for p in nm if p[0] == "num"] if nm else []
                if len(n) != 1:
                    A.put("part", name, f.where, None, "file name %s" % (nm,))
                else:
                    A.put("record", name + " (part number)", f.where, n[0] in num, "the part number column is not the number of the file just opened")
                    stores = [e for e in ev[:] if e[0] == "store" and e[2] == n[0]]
                    A.put("part", name + " (number kept)", loc(E, opens[-1][1][-1]), bool(stores), "the new part number is not kept")
                    if stores:
                        A.put("part", name + " (number)", loc(E, opens[-1][1][-1]), n[0] - ld(stores[-1][1]) == ONE, "new part is number %s" % show(n[0]))
                A.put("part", name + " (new part empty)", loc(E, opens[-1][1][-1]), trunc(opens[-1][1][3]), "new part opened with mode %s" % show(opens[-1][1][3]))
            else:
                mem = part_member(mod)
                if mem is not None:
                    A.put("record", name + " (part number)", f.where, ld(mem) in num, "the part number column is not the number of the open part")
    limit(mod, W, A)
    A.done()


def limit_of(W):
    """the member the position of the data file is compared with"""
    out = set()
    mine = {single_atom(e[2]) for st, r, t in W.E.exits for e in st.ev if e[0] == "pos" and e[1] == W.data}
    for st, r, t in W.E.exits:
        for c in st.facts:
            at = c[1].atoms()
            ps = [a for a in at if a in mine]
            ms = [a for a in at if akey(a)[0] == "ld"]
            if len(ps) == 1 and len(ms) == 1 and len(at) == 2 and c[1].t.keys() <= {(), ((ps[0], 1),), ((ms[0], 1),)}:
                out.add(ms[0])
    return out.pop() if len(out) == 1 else None


def limit(mod, W, A):
    """a new part is started exactly when 0 < limit <= position, at representative points of every ordering of the three"""
    L = limit_of(W)
    name = W.E.f.short + " (limit)"
    if L is None:
        A.put("part", name, W.E.f.where, None, "size limit not recognised")
        return
    for l, p in ((10, 9), (10, 10), (10, 11), (10, 0), (0, 0), (0, 5), (-1, 0), (-3, -3), (1, 1), (1, 0)):
        due = l > 0 and p >= l
        for st, r, t in W.good():
            opens = [k for k, e in enumerate(st.ev) if e[0] == "open" and e[1] == W.data]
            p0 = [e[2] for k, e in enumerate(st.ev) if e[0] == "pos" and e[1] == W.data and (not opens or k < opens[0])]
            mp = {single_atom(x): topoly(p) for x in p0}
            mp[L] = topoly(l)
            v = poss(st, mp)
            if v is not False and due != bool(opens):
                A.put("part", name, W.E.f.where, None if v is None else False, "new part %s at position %d with limit %d" % ("started" if opens else "not started", p, l))
            elif v:
                A.put("part", name, W.E.f.where, True)


def poss(st, mp):
    """are the facts of the path true at the point; None when some of them mention the point's atoms and others"""
    res = True
    for c, b in st.facts.items():
        at = c[1].atoms(deep=True)
        if not any(a in mp for a in at):
            continue
        p = subst(c[1], mp)
        if p.const() is None:
            res = None
            continue
        v = (p.const() != 0) == (c[0] == "b") if c[0] in ("b", "nb") else cmp(c[0], p)[0] == "true"
        if v != b:
            return False
    return res


def trunc(mode):
    c = mode.const()
    if c is None:
        return None
    return bool(int(c) & 2) and not int(c) & 4


def append(mode):
    c = mode.const()
    if c is None:
        return None
    return bool(int(c) & 4) and not int(c) & 8


_mem = {}


def members(mod):
    """addresses (relative to the writer) of part number and size limit, from what open() stores"""
    if id(mod) in _mem:
        return _mem[id(mod)]
    E = flow(mod, "nbody_data_stream::open", 4)
    part = None
    for st, r, t in E.exits:
        if not succeeded(E, r) or st.failed:
            continue
        nm = [e[2] for e in st.ev if e[0] == "open" and e[2] and any(p[0] == "num" for p in e[2])]
        if nm:
            n = [p[1] for p in nm[-1] if p[0] == "num"][0]
            c = [e[1] for e in st.ev if e[0] == "store" and e[2] == n]
            if n.const() is None and len(set(c)) == 1:
                part = c[-1]
    _mem[id(mod)] = (E, part)
    return _mem[id(mod)]


def part_member(mod):
    return members(mod)[1]


def compatible(E, st, mem):
    """can the path be taken when the members have these constants at entry"""
    mp = {}
    for c in st.facts:
        for a in c[1].atoms(deep=True):
            k = akey(a)
            if k[0] == "ld" and k[3] == 0 and k[1] in mem:
                mp[a] = mem[k[1]]
    for c, b in st.facts.items():
        p = subst(c[1], mp)
        if p.const() is not None:
            v = (p.const() != 0) == (c[0] == "b") if c[0] in ("b", "nb") else cmp(c[0], p)[0] == "true"
            if v != b:
                return False
    return True


def consts_after(st, base=None):
    out = dict(base or {})
    for e in st.ev:
        if e[0] == "store":
            if e[2].const() is not None:
                out[e[1]] = e[2]
            else:
                out.pop(e[1], None)
    return out


def header(ctx, mod, A):
    E = members(mod)[0]
    W = Writer(mod)
    good = W.good()
    name = W.E.f.short
    for st, r, t in E.exits:
        if not succeeded(E, r) or st.failed:
            continue
        resume = E.tri(st, cmp("ne", A3))
        if resume is None:
            continue
        word = "resumed" if resume else "new"
        mem = consts_after(st)
        can = [x for x, _, _ in good if compatible(W.E, x, mem)]
        has = [bool(W.headers(x)) for x in can]
        A.put("header", "first frame of a %s stream" % word, W.E.f.where, None if not has else all(h != resume for h in has), "first frame of a %s stream is written %s a header" % (word, "with" if any(has) else "without"))
        if not resume:
            for x in can:
                if W.headers(x):
                    m2 = consts_after(x, mem)
                    nxt = [bool(W.headers(y)) for y, _, _ in good if compatible(W.E, y, m2)]
                    A.put("header", "later frames", W.E.f.where, None if not nxt else not any(nxt), "the header is repeated before a later frame")


def opening(ctx, mod):
    E, part = members(mod)
    f = E.f
    ctx.saw("functions", "%s (%s)" % (f.short, f.where))
    W = Writer(mod)
    lim = limit_of(W)
    A = Agg(ctx)
    lastn = roles.accessor(mod, "nbody_data_stream_reader::get_last_file_n", A3)
    for st, r, t in E.exits:
        if not succeeded(E, r) or st.failed:
            continue
        resume = E.tri(st, cmp("ne", A3))
        if resume is None:
            A.put("open", f.short, f.where, None, "no distinction between new and resumed streams on a path")
            continue
        word = "resumed" if resume else "new"
        dat = [e for e in st.ev if e[0] == "open" and e[1] == W.data]
        dev = [e[2] for e in st.ev if e[0] == "device" and e[1] == W.idx]
        if len(dat) != 1 or not dev:
            A.put("open", "%s (%s stream)" % (f.short, word), f.where, None, "files not recognised")
            continue
        idx = [e for e in st.ev if e[0] == "open" and e[1] == dev[-1]]
        if len(idx) != 1:
            A.put("open", "%s (%s stream)" % (f.short, word), f.where, None, "index file not recognised")
            continue
        for what, e in (("data file", dat[0]), ("index", idx[0])):
            v = append(e[3]) if resume else trunc(e[3])
            A.put("open", "%s: %s of a %s stream" % (f.short, what, word), loc(E, e[-1]), v, "opened with mode %s" % show(e[3]))
        n = [p[1] for p in dat[0][2] or () if p[0] == "num"]
        if len(n) != 1:
            A.put("open", "%s: part of a %s stream" % (f.short, word), f.where, None, "name %s" % (dat[0][2],))
            continue
        if resume:
            want = E.value(st, lastn) if lastn is not None else None
            v = None if want is None else E.same(st, n[0], want)
        else:
            v = n[0].iszero()
        A.put("open", "%s: part of a %s stream" % (f.short, word), loc(E, dat[0][-1]), v, "part number %s" % show(n[0]))
        if part is not None:
            last = [e[2] for e in st.ev if e[0] == "store" and e[1] == part]
            A.put("open", "%s: part number kept (%s stream)" % (f.short, word), f.where, bool(last) and last[-1] == n[0], "kept %s" % (show(last[-1]) if last else "nothing"))
        if lim is not None:
            last = [e[2] for e in st.ev if e[0] == "store" and e[1] == akey(lim)[1]]
            A.put("open", "%s: size limit kept (%s stream)" % (f.short, word), f.where, bool(last) and last[-1] == A2, "limit not kept")
    header(ctx, mod, A)
    A.done()
