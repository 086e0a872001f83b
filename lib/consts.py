"""Constant propagation over static storage.

A static array cell has a known value when it is given by its initialiser or by exactly one store in the whole program
(function-local statics with run-time initialisers: string-literal coefficients, expressions over other statics).
Stores through pointers that may reach the array make it unknown."""
import math
import numpy as np
import sym
from sym import Sym
from poly import *

LD = np.longdouble


class Unknown(Exception):
    pass


class Statics:
    def __init__(self, mod):
        self.mod = mod
        self.stores = {}          # global -> {off: [inst]}
        self.escaped = set()      # globals stored to in a way that is not understood
        self.computed = {}        # globals stored to at a computed offset -> functions that do it
        self.eff = {}
        self.memo = {}
        for f in mod.funcs.values():
            for x in f.all():
                if x.op == "store":
                    g = self.addr(f, x.ops[1], weak=True)
                    if g is None:
                        continue
                    if g[1] is None:
                        self.computed.setdefault(g[0], set()).add(f)
                    else:
                        self.stores.setdefault(g[0], {}).setdefault(g[1], []).append(x)
                elif x.op in ("call", "invoke") and x.callee and ("memcpy" in x.callee or "memset" in x.callee or "memmove" in x.callee):
                    g = self.addr(f, x.ops[0], weak=True)
                    if g:
                        self.escaped.add(g[0])

    def addr(self, f, op, weak=False):
        """(global, byte offset) of a pointer operand; offset None when it is not constant"""
        if op[0] == "g":
            return (op[1], 0)
        if op[0] == "gepc":
            b = self.addr(f, op[1], weak)
            return None if b is None else (b[0], None if b[1] is None else b[1] + op[2])
        if op[0] == "ce":
            return self.addr(f, op[2], weak) if len(op) > 2 else None
        if op[0] == "i":
            x = f.insts[op[1]]
            if x.op in ("getelementptr",):
                b = self.addr(f, x.ops[0], weak)
                if b is None:
                    return None
                if "coff" in x.d and not x.d.get("voff"):
                    return (b[0], None if b[1] is None else b[1] + x.d["coff"])
                return (b[0], None)
            if x.op == "bitcast":
                return self.addr(f, x.ops[0], weak)
        return None

    def string(self, g):
        d = self.mod.globals.get(g)
        if d and "str" in d:
            return d["str"]
        raise Unknown("%s is not a string" % g)

    def init_at(self, g, off, size):
        d = self.mod.globals.get(g)
        if d is None or d.get("init") is None:
            raise Unknown(g)
        return self._at(d["init"], off, size)

    def _at(self, c, off, size):
        if c[0] == "zero":
            return LD(0)
        if c[0] == "f" and off == 0:
            return LD(float.fromhex(c[1]))
        if c[0] == "c" and off == 0:
            return int(c[1])
        if c[0] in ("g", "fn", "gepc"):
            a = self.addr(None, c)
            if a and off == 0:
                return ("ptr",) + a
        if c[0] == "arr":
            el = c[1:]
            # element size: all elements of an array have the same size here (8 bytes), nested arrays are recursed
            es = self._size(el[0])
            k = off // es
            if k >= len(el):
                raise Unknown("outside the initialiser")
            return self._at(el[k], off - k * es, size)
        raise Unknown("initialiser %r" % (c[0],))

    def _size(self, c):
        if c[0] == "arr":
            return self._size(c[1]) * (len(c) - 1)
        if c[0] == "c":
            return max(1, c[2] // 8)
        return 8

    def extent(self, g):
        """bytes of the global, or None"""
        import re
        t = self.mod.globals.get(g, {}).get("ty", "")
        m = re.match(r"^((?:\[\d+ x )+)(double|ptr|i64|i32|float)\]*$", t)
        if not m:
            return None
        n = 1
        for k in re.findall(r"\[(\d+) x", m.group(1)):
            n *= int(k)
        return n * {"double": 8, "ptr": 8, "i64": 8, "i32": 4, "float": 4}[m.group(2)]

    def cell(self, g, off, size=8):
        key = (g, off)
        if key in self.memo:
            v = self.memo[key]
            if isinstance(v, Unknown):
                raise v
            return v
        self.memo[key] = Unknown("cyclic")
        try:
            if g in self.escaped:
                raise Unknown("%s is written at a computed position" % g)
            e = self.extent(g)
            if e is not None and (off < 0 or off + size > e):
                raise IndexError("reads %d bytes at offset %d of %s, which has %d" % (size, off, g, e))
            st = self.stores.get(g, {}).get(off, [])
            vs = [self.val(s.func, s.ops[0]) for s in st] + self.loop_stores(g, off)
            if len(vs) == 0:
                v = self.init_at(g, off, size)
            else:
                if any(type(v) != type(vs[0]) or v != vs[0] for v in vs):
                    raise Unknown("%s has several values" % g)
                v = vs[0]
        except Unknown as x:
            self.memo[key] = x
            raise
        except IndexError:
            self.memo.pop(key)
            raise
        self.memo[key] = v
        return v

    def is_text(self, g, off):
        """the cell is converted from decimal text (so known beyond double precision)"""
        for x in self.stores.get(g, {}).get(off, []):
            o = x.ops[0]
            y = x.func.insts[o[1]] if o[0] == "i" else None
            return y is not None and y.op in ("call", "invoke") and bool(y.callee) and "strto" in y.callee
        return False

    def loop_stores(self, g, off):
        """values stored to the cell by loops that fill the array"""
        out = []
        for f in self.computed.get(g, ()):
            if f.name not in self.eff:
                self.eff[f.name] = sym.effects(Sym(f))
            eff, bad = self.eff[f.name]
            for b in bad:
                if any(akey(a) == ("g", g) for a in topoly(b[0]).atoms()) or True and not topoly(b[0]).atoms():
                    raise Unknown("%s is written at a computed position" % g)
            for e in eff:
                base = topoly(e.base)
                gs = [akey(a)[1] for a in base.atoms() if akey(a)[0] == "g"]
                if g not in gs or topoly(e.stride).iszero():
                    continue
                n, sd, b0 = topoly(e.count).const(), topoly(e.stride).const(), (base - atom("g", g)).const()
                if n is None or sd is None or b0 is None:
                    raise Unknown("%s is written at a computed position" % g)
                k = (off - b0) / sd
                if k.denominator == 1 and 0 <= k < n:
                    out.append(self.of_poly(subst(topoly(e.value), {single_atom(sym.IDX): topoly(k)})))
        return out

    def of_poly(self, p):
        c = p.const()
        if c is not None:
            return LD(c.numerator) / LD(c.denominator)
        g, off = None, Fraction(0)
        for m, c in p.t.items():
            if not m:
                off += c
            elif len(m) == 1 and m[0][1] == 1 and akey(m[0][0])[0] == "g" and c == 1 and g is None:
                g = akey(m[0][0])[1]
            elif len(m) == 1 and m[0][1] == 1 and akey(m[0][0])[0] == "udiv":
                k = akey(m[0][0])
                if k[1].const() is None or k[2].const() is None:
                    raise Unknown("value")
                off += c * (k[1].const() // k[2].const())
            else:
                raise Unknown("value")
        if g is None:
            return LD(off.numerator) / LD(off.denominator)
        return ("ptr", g, int(off))

    def val(self, f, op, depth=0):
        if depth > 60:
            raise Unknown("deep")
        if op[0] == "f":
            return LD(float.fromhex(op[1]))
        if op[0] == "c":
            return int(op[1])
        if op[0] in ("g", "gepc"):
            a = self.addr(f, op)
            return ("ptr",) + a
        if op[0] == "i":
            x = f.insts[op[1]]
            if x.op in ("fadd", "fsub", "fmul", "fdiv"):
                a, b = self.val(f, x.ops[0], depth + 1), self.val(f, x.ops[1], depth + 1)
                return {"fadd": lambda: a + b, "fsub": lambda: a - b, "fmul": lambda: a * b, "fdiv": lambda: a / b}[x.op]()
            if x.op == "fneg":
                return -self.val(f, x.ops[0], depth + 1)
            if x.op == "load":
                a = self.addr(f, x.ops[0])
                if a is None or a[1] is None:
                    raise Unknown("load")
                return self.cell(a[0], a[1])
            if x.op in ("call", "invoke") and x.callee:
                n = x.callee
                if n in ("strtod", "strtold", "strtof", "atof") or n.startswith("__isoc23_strto"):
                    g = self.addr(f, x.ops[0])
                    if g is None or g[1] is None:
                        raise Unknown("string")
                    s = self.string(g[0])[g[1]:].split("\0")[0]
                    return parse(s)
                if n in ("sqrt", "llvm.sqrt.f64"):
                    return np.sqrt(self.val(f, x.ops[0], depth + 1))
                if n in ("llvm.fmuladd.f64",):
                    a, b, c = [self.val(f, o, depth + 1) for o in x.ops[:3]]
                    return a * b + c
            if x.op in ("sitofp", "uitofp"):
                return LD(int(self.val(f, x.ops[0], depth + 1)))
        raise Unknown("value of %s" % (op,))


def parse(s):
    """what strtod makes of the text (kept to extended precision)"""
    import re
    m = re.match(r"\s*[-+]?(\d+(\.\d*)?|\.\d+)([eE][-+]?\d+)?", s)
    if not m:
        return LD(0)
    return LD(m.group(0).strip())
