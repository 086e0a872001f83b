"""Shared facts about the frame stream: roles of the bodies' arrays, the writer's and the reader's members."""
import ir, sym, roles, esp
from poly import *
from esp import QtFlow, Unhandled

A0, A1, A2, A3 = (atom("arg", k) for k in range(4))


def ld(a, sz=8):
    return atom("ld", a, sz, 0)


class Bodies:
    def __init__(self, mod, arg):
        g = lambda n: roles.need(roles.accessor(mod, "nbody_data::" + n, arg), "nbody_data::%s()" % n)
        self.pos, self.vel, self.mass, self.col = g("get_vertites"), g("get_velosites"), g("get_mass"), g("get_color")
        self.count, self.time, self.step, self.box = g("get_count"), g("get_time"), g("get_step"), g("get_box_size")
        el = lambda t: {"vertex3<double>": 24, "vertex4<float>": 16, "double": 8}[t]
        self.size = {"pos": 24, "vel": 24, "col": 16, "mass": 8}

    def array(self, p):
        for n in ("pos", "vel", "mass", "col"):
            if getattr(self, n) == p:
                return n
        return None


def flow(mod, name, nargs=None, cls=QtFlow):
    fs = [f for f in mod.by_short(name) if nargs is None or len(f.args) == nargs]
    if len(fs) != 1:
        raise Unhandled("%s not found" % name)
    E = cls(mod, fs[0])
    cnt = roles.accessor(mod, "nbody_data::get_count", A1)
    if cnt is not None:
        E.nonneg |= cnt.atoms()
    E.run()
    return E


def succeeded(E, r):
    """True/False/None: does the return value say success (0 for int functions, true for bool ones)"""
    if r is None:
        return True
    c = r.const()
    if c is None:
        return None
    return c == 0 if E.f.rty not in ("i1", "bool") else c != 0


def loc(E, iid):
    return E.f.insts[iid].loc


def lines(tokens):
    """tokens [(index, part)] of one text stream split into lines; the last one may be unfinished"""
    out, cur = [], []
    for k, t in tokens:
        if t[0] == "lit":
            seg = t[1].split("\n")
            for n, s in enumerate(seg):
                if s:
                    if cur and cur[-1][1][0] == "lit":
                        cur[-1] = (cur[-1][0], ("lit", cur[-1][1][1] + s))
                    else:
                        cur.append((k, ("lit", s)))
                if n + 1 < len(seg):
                    out.append((cur, True))
                    cur = []
        else:
            cur.append((k, t))
    if cur:
        out.append((cur, False))
    return out


def is_header(line):
    return bool(line) and line[0][1][0] == "lit" and line[0][1][1].startswith("#")


class Writer:
    """the writer as the analysis of nbody_data_stream::write sees it"""

    def __init__(self, mod):
        self.mod = mod
        self.b = Bodies(mod, A1)
        self.E = flow(mod, "nbody_data_stream::write", 2)
        self.data = self.idx = None
        for st, r, t in self.E.exits:
            for e in st.ev:
                if e[0] == "write" and e[2] is not None and e[2] == self.b.pos:
                    self.data = e[1]
        if self.data is None:
            raise Unhandled("the file that receives the positions is not recognised")
        cand = {}
        for st, r, t in self.E.exits:
            if succeeded(self.E, r) and not st.failed:
                for e in st.ev:
                    if e[0] == "emit":
                        cand[e[1]] = 1
        if len(cand) != 1:
            raise Unhandled("index text stream not recognised")
        self.idx = next(iter(cand))

    def text(self, st):
        return lines([(k, p) for k, e in enumerate(st.ev) if e[0] == "emit" and e[1] == self.idx for p in e[2]])

    def good(self):
        """failure-free successful exits"""
        return [(st, r, t) for st, r, t in self.E.exits if succeeded(self.E, r) and not st.failed]

    def record(self, st):
        """columns of the (single) frame line: [(index, kind, form)], separators"""
        ls = [l for l, done in self.text(st) if not is_header(l)]
        if len(ls) != 1:
            return None
        cols, seps = [], []
        for k, p in ls[0]:
            if p[0] in ("num", "real"):
                cols.append((k, p[0], p[1]))
            elif p[0] == "lit":
                seps.append((len(cols), p[1]))
            else:
                return None
        return cols, seps

    def headers(self, st):
        out = {}
        for l, done in self.text(st):
            if is_header(l):
                if len(l) == 2 and l[1][1][0] in ("num", "real") and done:
                    out[l[0][1][1]] = l[1][1][1]
                else:
                    out[repr(l)] = None
        return out


class Reader:
    """the reader as the analyses of load(), seek() and read() see it"""

    def __init__(self, mod):
        self.mod = mod
        self.L = flow(mod, "nbody_data_stream_reader::load", 2)
        self.S = flow(mod, "nbody_data_stream_reader::seek", 2)
        self.R = flow(mod, "nbody_data_stream_reader::read", 2)
        self.b = Bodies(mod, A1)
        g = lambda n: roles.accessor(mod, "nbody_data_stream_reader::" + n, A0)
        self.count, self.coord, self.box, self.current = g("get_body_count"), g("get_coord_size"), g("get_box_size"), g("get_current_frame")
        self.frames = None        # address of the vector of frames
        self.item = {}            # field offset -> (column, conversion)
        self.recpass = None
        self.other = set()        # fields that are set from something else
        for h, its in self.L.iters.items():
            for st, ev in its:
                if st.failed:
                    continue
                for e in ev:
                    if e[0] == "call" and (e[1] or "").endswith("::push_back"):
                        self.frames, it, self.recpass = e[2][0], e[2][1], (st, ev, h)
                        conv = {}
                        for x in ev:
                            if x[0] == "conv" and len(x[1]) == 1 and x[1][0][0] == "obj":
                                a = single_atom(x[1][0][1])
                                if a is not None and akey(a)[0] == "lpart" and akey(a)[2].const() is not None:
                                    conv[x[-1]] = (int(akey(a)[2].const()), x[2], akey(a)[1])
                        for ad, v in st.mem.items():
                            off = (ad - it).const()
                            at = single_atom(v)
                            if off is not None and at is not None and akey(at)[0] == "call" and akey(at)[-1] in conv:
                                self.item[int(off)] = conv[akey(at)[-1]]
                            elif off is not None:
                                self.other.add(int(off))
        if self.frames is None:
            raise Unhandled("the list of frames is not recognised")
        # size of one item: get_frame_count()
        self.step = None
        fc = g("get_frame_count")
        if fc is not None:
            for a in fc.atoms(deep=True):
                k = akey(a)
                if k[0] == "udiv" and k[2].const() is not None:
                    self.step = int(k[2].const())
            self.nframes = fc

    def field(self, p, frame):
        """offset of the item field a form reads, when it is a field of frame number `frame`"""
        a = single_atom(p)
        if a is None or akey(a)[0] != "ld" or self.step is None:
            return None
        o = (akey(a)[1] - ld(self.frames) - topoly(frame) * self.step).const()
        return None if o is None else int(o)

    def used(self):
        """role of the item fields, by what seek() and read() do with them: {'part': off, 'pos': off, 'time': off, 'step': off}"""
        out = {}
        for st, r, t in self.S.exits:
            if not succeeded(self.S, r):
                continue
            for e in st.ev:
                if e[0] == "open" and e[2]:
                    for p in e[2]:
                        if p[0] == "num":
                            o = self.field(p[1], A1)
                            if o is not None:
                                out.setdefault("part", set()).add(o)
                if e[0] == "seek":
                    o = self.field(e[2], A1)
                    if o is not None:
                        out.setdefault("pos", set()).add(o)
        cur = self.current
        for st, r, t in self.R.exits:
            if not succeeded(self.R, r):
                continue
            for e in st.ev:
                if e[0] == "store":
                    for role, want in (("time", self.b.time), ("step", self.b.step)):
                        if ld(e[1]) == want or e[1] == akey(single_atom(want))[1]:
                            o = self.field(e[2], cur)
                            out.setdefault(role, set()).add(o)
        return out
