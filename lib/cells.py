"""Compares what a function writes (its effect summary) with a specification, cell by cell.

Both sides are canonical forms; they are expanded for small symbolic sizes under pseudo-random valuations of their atoms
(the analysed program itself is never run).  Any decomposition of the writes (tiles, memcpy, split loops) is accepted."""
import math
from poly import *
import sym, pit
from sym import IDX, tysize

IDXA = single_atom(IDX)


def mem_calls(S):
    """memcpy/memmove/memset calls as effects"""
    out, bad = [], []
    f = S.f
    for x in f.all():
        if x.op != "call" or not x.callee:
            continue
        n = x.callee
        kind = None
        if n.startswith("llvm.memcpy") or n.startswith("llvm.memmove") or n in ("memcpy", "memmove"):
            kind = "copy"
        elif n.startswith("llvm.memset") or n == "memset":
            kind = "set"
        if not kind:
            continue
        rop = S.root(x.ops[0])
        if rop[0] == "i" and f.insts[rop[1]].op == "alloca":
            continue
        if f.loop_chain(x.block.id):
            bad.append((S.ev(x.ops[0]), [x]))
            continue
        dst, ln = S.ev(x.ops[0]), S.ev(x.ops[2])
        n = ln.const()
        if kind == "copy" and n and n % 8 == 0 and n <= 64:
            # a small structure: element by element, with what the source holds at that point
            rk = S.ev(S.root(x.ops[1]))
            for k in range(int(n) // 8):
                e = sym.Effect(dst + 8 * k, topoly(8), ONE, S.mem_at(x.block.id, x.idx, S.ev(x.ops[1]) + 8 * k, 8, rk), 8, x.loc, cond=S.pathcond(x.block.id))
                e.block = x.block.id
                out.append(e)
            continue
        if kind == "copy":
            v = atom("ld", S.ev(x.ops[1]) + IDX * 8, 8, 0)
        else:
            v = ZERO if S.ev(x.ops[1]).const() == 0 else atom("undef")
        e = sym.Effect(dst, topoly(8), udiv(ln, topoly(8)), v, 8, x.loc, cond=S.pathcond(x.block.id))
        e.block = x.block.id
        out.append(e)
    return out, bad


def all_effects(S):
    e, b = sym.effects(S)
    e2, b2 = mem_calls(S)
    return e + e2, b + b2


class Cell:
    """expected: for i in [0,count): *(base + stride*i) = value(i), i being sym.IDX"""

    def __init__(self, base, count, value, stride=8, label=""):
        self.base, self.count, self.value, self.stride, self.label = base, count, value, stride, label


def expand(V, effs, what):
    """numeric memory map of a list of effects/cells"""
    out = {}
    for e in effs:
        cond = getattr(e, "cond", None)
        V.memo.clear()
        n = V.rnd(V.ev(topoly(e.count)))
        if n > 200:
            raise ZeroDivisionError
        for i in range(max(n, 0)):
            V.memo.clear()
            V.fix[IDXA] = float(i)
            if cond is not None and not V.cond(cond):
                continue
            a = V.ev(topoly(e.base)) + V.ev(topoly(e.stride)) * i
            out[V.rnd(a * 4096)] = (V.ev(e.value), e, i)
        V.fix.pop(IDXA, None)
    V.memo.clear()
    return out


class Nest:
    """one store inside its loops: executed for every combination of the counters that its index conditions allow"""

    def __init__(self, S, s):
        f = S.f
        self.loops = [(single_atom(S.iv(h)), S.trip(h)) for h in sorted(f.loop_chain(s.block.id), key=lambda h: len(f.loop_chain(h)))]
        self.addr = S.store_addr(s)
        self.cond = S.pathcond(s.block.id)
        self.loc = s.loc
        self.ok = all(a is not None for a, t in self.loops) and not pit.opaque_atoms(self.addr) and all(not (pit.opaque_atoms(t)) for a, t in self.loops)

    def index_cond(self, V, c):
        """the condition as far as it depends on counters and sizes alone; parts that depend on data can come out either way"""
        if c is None:
            return True
        if c[0] == "and":
            return all(self.index_cond(V, x) for x in c[1])
        try:
            if any(akey(a)[0] in ("vcall", "call", "fcmp", "loopexit") for x in cond_polys(c) for a in x.atoms(deep=True)) or c[0] in ("b", "nb"):
                return True
            if any(akey(a)[0] == "ld" and any(akey(q)[0] == "iv" for z in sub_polys(akey(a)) for q in z.atoms(deep=True)) for x in cond_polys(c) for a in x.atoms(deep=True)):
                return True
            return V.cond(c)
        except (pit.Undecidable, ZeroDivisionError):
            return True

    def cells(self, V):
        out = []

        def go(k):
            V.memo.clear()
            if len(out) > 4000:
                raise ZeroDivisionError
            if k == len(self.loops):
                if self.index_cond(V, self.cond):
                    out.append(V.rnd(V.ev(self.addr) * 4096))
                return
            a, t = self.loops[k]
            n = V.rnd(V.ev(t))
            if n > 300:
                raise ZeroDivisionError
            for j in range(max(n, 0)):
                V.fix[a] = float(j)
                go(k + 1)
            V.fix.pop(a, None)
        go(0)
        return out


def cond_polys(c):
    if c[0] in ("and", "or"):
        return [q for x in c[1] for q in cond_polys(x)]
    return [c[1]] if len(c) > 1 and isinstance(c[1], P) else []


def coverage(S, effs, bad, cells, fix, trials, seed, sz, ptr):
    """what can be said of the written elements alone, when some written value is not resolved"""
    nests, unknown = [], False
    for e in effs:
        for s in getattr(e, "stores", [None]):
            n = Nest(S, s) if s is not None else None
            if n is None or not n.ok:
                unknown = True
            else:
                nests.append(n)
    for a, st in bad:
        for s in st:
            n = Nest(S, s) if s.op == "store" else None
            if n is None or not n.ok:
                unknown = True
            else:
                nests.append(n)
    plain, ext = pit.plans(seed, trials, [])
    missing, beyond = {}, {}
    good = 0
    for pl in plain:
        V = pit.Valuation(sizes=sz, **pl)
        for k, v in (fix or {}).items():
            V.fix[k] = v(V) if callable(v) else v
        try:
            want = expand(V, cells, "spec")
            got = {}
            for n in nests:
                for a in n.cells(V):
                    got.setdefault(a, n)
            for a in got:
                if a not in want:
                    return "different", "writes outside the specified range, %d bytes from the start of %s" % ((a - min(want)) / 4096 if want else 0, cells[0].label), got[a].loc
            if not unknown:
                for a, (v, c, i) in want.items():
                    if a not in got:
                        V.fix[IDXA] = float(i)
                        w = V.ev(atom("ld", topoly(c.base) + topoly(c.stride) * IDX, 8, 0))
                        V.fix.pop(IDXA, None)
                        V.memo.clear()
                        if pit.differ(V, w, v):
                            return "different", "element %d of %s (%d elements) is never written" % (i, c.label or c.base, V.ev(topoly(c.count))), effs[0].loc if effs else nests[0].loc
        except (ZeroDivisionError, OverflowError, pit.Undecidable):
            continue
        good += 1
        if good >= trials:
            break
    return None


def confirm(pl, sz, fix, g, c, i):
    """a float disagreement of one element, repeated in exact arithmetic"""
    V = pit.Valuation(sizes=sz, **dict(pl, exact=True))
    V.fix.update(fix)
    V.fix[IDXA] = float(i)
    want = V.ev(topoly(c.value))
    V.memo.clear()
    if g is not None:
        V.fix[IDXA] = float(g[2])
        have = V.ev(topoly(g[1].value))
    else:
        have = V.ev(atom("ld", topoly(c.base) + topoly(c.stride) * IDX, 8, 0))
    return bool(pit.differ(V, have, want))


def compare(effs, bad, cells, fix=None, ignore=None, trials=10, seed=1, sizes=(), exact=True, S=None):
    """('equal'|'different'|'undecided', detail, loc)"""
    und = None
    for e in effs:
        if getattr(e, "value", None) is not None and pit.opaque_atoms(e.value) and not (ignore and ignore(e)):
            und = "undecided", "value of %s at %s is not resolved: %s" % (e.base, e.loc, [show_atom(a) for a in pit.opaque_atoms(e.value)][:3]), e.loc
            break
    effs = [e for e in effs if not (ignore and ignore(e))]
    if bad and not und:
        und = "undecided", "unsummarised store at %s" % bad[0][1][0].loc, bad[0][1][0].loc
    if und and S is None:
        return und
    ps = [topoly(e.count) for e in effs] + [topoly(c.count) for c in cells]
    vals = [e.value for e in effs] + [c.value for c in cells]
    dirs = set()
    for p in ps:
        dirs |= {x for x in p.atoms(deep=True) if akey(x)[0] in ("ld", "arg", "sym", "vcall", "call")}
    inner = set()
    for a in dirs:
        for s in sub_polys(akey(a)):
            inner |= s.atoms(deep=True)
    sz = {a for a in dirs if a not in inner} | pit.size_atoms(vals) | set(sizes)
    sz.discard(IDXA)
    good = 0
    ptr = pit.pointer_atoms([topoly(e.base) for e in effs] + [topoly(c.base) for c in cells] + vals)
    for x in [topoly(e.base) for e in effs] + [topoly(c.base) for c in cells]:
        ptr |= x.atoms(deep=True)
    plain, ext = pit.plans(seed, trials, vals, [e.cond for e in effs if getattr(e, "cond", None) is not None], skip=ptr | sz | set(fix or ()))
    if und:
        if not all(isinstance(e, sym.Effect) for e in effs):
            return und
        return coverage(S, effs, bad, cells, fix, 6, seed, sz, ptr) or und
    for pn, pl in enumerate(plain + ext):
        if good >= trials and pn < len(plain):
            continue
        if pl.get("exact"):
            pl["noscale"] = ptr
        V = pit.Valuation(sizes=sz, **pl)
        for k, v in (fix or {}).items():
            V.fix[k] = v(V) if callable(v) else v
        try:
            pit.at_boundary(V)
            got = expand(V, effs, "code")
            want = expand(V, cells, "spec")
            for a, (v, c, i) in want.items():
                if a in got:
                    w, e, j = got[a]
                    loc = e.loc
                else:
                    V.fix[IDXA] = float(i)
                    w = V.ev(atom("ld", topoly(c.base) + topoly(c.stride) * IDX, 8, 0))
                    V.fix.pop(IDXA, None)
                    V.memo.clear()
                    loc = effs[0].loc if effs else ""
                if pit.differ(V, w, v) and (V.exact or confirm(pl, sz, V.fix, got.get(a), c, i)):
                    n = V.ev(topoly(c.count))
                    return "different", "element %d of %s (%d elements) does not hold the specified value; specified %s; found %s" % (
                        i, c.label or c.base, n, show(c.value)[:500], (show(got[a][1].value)[:500] if a in got else "not written")), loc
            if exact:
                for a in got:
                    if a not in want:
                        w, e, j = got[a]
                        return "different", "writes element %d of %s + %s*i, outside the specified range" % (j, e.base, e.stride), e.loc
        except (ZeroDivisionError, OverflowError):
            continue
        except pit.Undecidable as x:
            return "undecided", "unresolved value %s" % x, ""
        good += 1
    if good < 3:
        return "undecided", "no usable valuation", ""
    return "equal", "", ""
