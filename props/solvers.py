"""Shared by the solver properties: configurations of a solver step and their vector dataflow."""
import itertools
from fractions import Fraction
from poly import *
import ir, sym, pit, vecflow
from vecflow import Flow, F, V0, Y, TIME, STEP, Unhandled, rpo
from roles import impl

A0 = atom("arg", 0)
DT = atom("arg", 1)
T0 = atom("T0")
S0 = atom("S0")
half = Fraction(1, 2)


def member_load(p):
    """offset when p is a (negated) load of a member of *this"""
    for q in (p, -p):
        a = single_atom(q)
        if a is not None and akey(a)[0] == "ld":
            o = (akey(a)[1] - A0).const()
            if o is not None:
                return int(o), akey(a)[2]
    return None


def presence(mod, cls, p):
    """('ptr', offset) | ('vec', offset) when p == 0 tests that a buffer member has not been created"""
    m = member_load(p)
    if m:
        fl = mod.field_at(cls, m[0])
        if fl and m[1] == 8 and (fl[1].endswith("*") or "ptr" in fl[1]):
            return ("ptr", m[0])
        return None
    at = [akey(a) for a in p.atoms()]
    if len(at) == 1 and at[0][0] == "udiv" and at[0][2].const() == 8 and p == P({((single_atom(atom(*at[0])), Fraction(1)),): Fraction(1)}):
        return presence(mod, cls, at[0][1])
    offs = []
    for mo, c in p.t.items():
        if len(mo) != 1 or mo[0][1] != 1 or abs(c) != 1:
            return None
        q = member_load(P({mo: Fraction(1)}))
        if not q:
            return None
        offs.append(q[0])
    if len(offs) == 2 and abs(offs[0] - offs[1]) == 8:
        return ("vec", min(offs))
    return None


def atomic(c):
    if c[0] in ("and", "or"):
        for x in c[1]:
            yield from atomic(x)
    elif c[0] not in ("true", "false"):
        yield c


def branch_conds(S):
    for b in S.f.blocks.values():
        t = b.term
        if t.op == "br" and len(t.ops) == 3:
            yield from atomic(S.cond(t.ops[0]))
    for i in S.f.all():
        if i.op == "select":
            yield from atomic(S.cond(i.ops[0]))


class Config:
    """one configuration of a step: buffers present or not, boolean options"""

    def __init__(self, mod, cls, first, flags, given=None):
        self.mod, self.cls, self.first, self.flags = mod, cls, first, flags
        self.given = dict(given or {})

    def decide(self, c):
        if c[0] not in ("eq", "ne", "b", "nb", "lt", "le"):
            return None
        p = c[1]
        if c[0] in ("eq", "ne"):
            k = presence(self.mod, self.cls, p)
            if k:
                return self.first == (c[0] == "eq")
        m = member_load(p)
        if m and m[0] in self.flags:
            v = self.flags[m[0]]
            if c[0] in ("eq", "nb"):
                return not v
            if c[0] in ("ne", "b"):
                return v
            if c[0] == "lt":
                return None
        return None

    def __str__(self):
        n = []
        n.append("first step" if self.first else "later step")
        for o, v in sorted(self.flags.items()):
            f = self.mod.field_at(self.cls, o)
            n.append("%s=%s" % (f[0] if f else o, v))
        for o, v in sorted(self.given.items()):
            f = self.mod.field_at(self.cls, o)
            if f and not (v == 0 and f[1].endswith("*")):
                n.append("%s=%s" % (f[0], v))
        return ", ".join(n)


def field(mod, cls, name):
    for o, n, t, sz in mod.fields_flat(cls):
        if n == name:
            return o, t, sz
    return None


def vector_sizes(mod, cls, f, fl):
    """element counts given to buffer lists by the function itself: {member offset: form}"""
    out = {}
    S = fl.S
    for x in f.calls():
        n = mod.callee_short(x) if x.callee else None
        if n and n.startswith("std::vector<") and n.endswith("::operator=") and len(x.ops) == 2:
            o = (S.ev(x.ops[0]) - A0).const()
            if o is None:
                continue
            src = S.root(x.ops[1])
            for y in f.calls():
                if y.callee is None and y.ops and S.root(y.ops[0]) == src:
                    v = S.vcall(y)
                    if v and v[1] == "create_buffers":
                        out[int(o)] = S.ev(y.ops[-1])
    return out


def configs(mod, cls, f, given=None, firsts=(True, False)):
    S = sym.Sym(f, this_class=cls)
    flags, ptrs = set(), set()
    for c in branch_conds(S):
        k = presence(mod, cls, c[1]) if c[0] in ("eq", "ne") else None
        if k:
            if k[0] == "ptr":
                ptrs.add(k[1])
            continue
        m = member_load(c[1])
        if m and m[1] == 1:
            flags.add(m[0])
    for first in firsts:
        for vs in itertools.product((False, True), repeat=len(flags)):
            g = dict(given or {})
            if first:
                for o in ptrs:
                    g[o] = 0
            yield Config(mod, cls, first, dict(zip(sorted(flags), vs)), g)


def flow(mod, cls, f, cfg, klass=Flow, **kw):
    fl = klass(mod, cls, f, cfg.decide, given=cfg.given, **kw)
    fl.sizes = vector_sizes(mod, cls, f, fl)
    fl.sizes = {o: fl.norm(v) for o, v in fl.sizes.items()}
    return fl.run()


class RecVal(pit.Valuation):
    """valuation that also closes the recurrences of loops: final value = transfer applied trip-count times to the entry value"""

    def setup(self, fl):
        self.fl = fl
        self.env = {}
        self.depth = 0
        self.closing = []
        return self

    def atom(self, a):
        k = akey(a)
        if k[0] in ("lc", "fin", "acc") or self.env:
            if a in self.bound:
                return self.bound[a]
            if a in self.fix:
                return self.fix[a]
            return self._atom(a)
        return super().atom(a)

    def _atom(self, a):
        k = akey(a)
        if k[0] == "lc":
            if (k[1], k[2]) in self.env:
                return self.env[(k[1], k[2])]
            return self.close(k[1])[k[2]]
        if k[0] == "acc" and k[1] == self.fl.S.uid:
            if ("acc", k[2]) in self.env:
                return self.env[("acc", k[2])]
            h = self.fl.f.insts[k[2]].block.id
            if h not in self.fl.loops or h in self.closing:
                raise pit.Undecidable("loop-carried scalar")
            return self.close(h)[("acc", k[2])]
        if k[0] == "iv" and a not in self.fix:
            raise pit.Undecidable("loop counter")
        return super()._atom(a)

    def close(self, h):
        fl = self.fl
        L = fl.f.loops[h]
        if any(e != h for e in L.exiting) or len(fl.loops[h]["latch"]) != 1:
            raise pit.Undecidable("loop with several exits")
        T = fl.norm(fl.S.trip(h))
        n = self.rnd(self.ev(T))
        if n > 40:
            raise ZeroDivisionError
        cur = {k: self.ev(v) for k, v in fl.loops[h]["init"].items()}
        latch = next(iter(fl.loops[h]["latch"].values()))
        iva = intern(("iv", fl.S.uid, h))
        name = lambda k: "TIME" if k == TIME else (repr(k) if isinstance(k, tuple) else k)
        old = self.fix.get(iva)
        S = fl.S
        accs = {}
        for i in fl.f.blocks[h].insts:
            if i.op == "phi" and single_atom(S.inst(i)) == intern(("acc", S.uid, i.id)):
                ini = [v for p, v in i.d["in"] if p not in L.blocks]
                nxt = [v for p, v in i.d["in"] if p in L.blocks]
                if len(ini) == 1 and len(nxt) == 1:
                    accs[i.id] = [fl.norm(S.ev(ini[0])), fl.norm(S.ev(nxt[0]))]
        self.closing.append(h)
        val = {i: self.ev(a[0]) if self.evable(a[0]) else None for i, a in accs.items()}
        for it in range(n):
            self.fix[iva] = float(it)
            for k, v in cur.items():
                self.env[(h, name(k))] = v
            for i, v in val.items():
                if v is not None:
                    self.env[("acc", i)] = v
            self.memo.clear()
            cur = {k: self.ev(latch[k]) if k in latch else v for k, v in cur.items()}
            val = {i: (self.ev(a[1]) if val[i] is not None and self.evable(a[1]) else None) for i, a in accs.items()}
        self.closing.pop()
        for k in cur:
            self.env.pop((h, name(k)), None)
        for i in val:
            self.env.pop(("acc", i), None)
        if old is None:
            self.fix.pop(iva, None)
        else:
            self.fix[iva] = old
        self.memo.clear()
        out = {name(k): v for k, v in cur.items()}
        for i, v in val.items():
            if v is not None:
                out[("acc", i)] = v
        return out

    def evable(self, p):
        try:
            self.ev(p)
            return True
        except pit.Undecidable:
            return False


def same(fl, got, want, sizes=(), trials=12, seed=1, fix=None, klass=None):
    """'equal' | 'different' | 'undecided' for a state form of flow fl against a specification form"""
    if got == want:
        return "equal"
    good = 0
    plain, ext = pit.plans(seed, trials, [got] + [x for L in fl.loops.values() for d in [L["init"]] + list(L["latch"].values()) for x in d.values()] + ([] if callable(want) else [want]), skip=set(sizes) | set(fix or ()))
    for n, pl in enumerate(plain[:trials * 4] + ext):
        if good >= trials and n < trials * 4:
            continue
        V = (klass or RecVal)(sizes=set(sizes), **pl).setup(fl)
        for k, v in (fix or {}).items():
            V.fix[k] = v(V) if callable(v) else v
        try:
            pit.at_boundary(V)
            x = V.ev(got)
            V.memo.clear()
            y = want(V) if callable(want) else V.ev(want)
        except (ZeroDivisionError, OverflowError):
            continue
        except pit.Undecidable as e:
            if pl.get("at"):
                continue
            same.why = str(e)
            return "undecided"
        good += 1
        if pit.differ(V, x, y):
            if not V.exact:
                # rounding is never taken for a difference
                W = (klass or RecVal)(sizes=set(sizes), **dict(pl, exact=True)).setup(fl)
                W.fix.update(V.fix)
                try:
                    x = W.ev(got)
                    W.memo.clear()
                    y = want(W) if callable(want) else W.ev(want)
                except (ZeroDivisionError, OverflowError):
                    continue
                if not pit.differ(W, x, y):
                    continue
            return "different"
    return "equal" if good >= 3 else "undecided"
