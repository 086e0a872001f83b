"""Polynomial identity test: decides whether two canonical value forms denote the same function.

Two forms that are syntactically equal are equal.  Otherwise both are evaluated on pseudo-random valuations of their
atoms (memory is a pseudo-random function of the address).  Forms are evaluated, never the analysed program.
"""
import math, random, hashlib
import mpmath
from fractions import Fraction
from poly import *


class Undecidable(Exception):
    pass


OPAQUE = {"acc", "macc", "fin", "phi", "rec", "trip", "early", "undef", "gep", "op", "self"}


def opaque_atoms(p):
    out = []
    for a in p.atoms(deep=True):
        k = akey(a)
        if k[0] in OPAQUE or (k[0] == "ld" and len(k) > 3 and k[3] != 0):
            out.append(a)
    return out


def size_atoms(ps):
    """atoms that occur in iteration counts (must be small naturals)"""
    out = set()
    for p in ps:
        for a in p.atoms(deep=True):
            k = akey(a)
            if k[0] in ("sum", "redmax", "redmin"):
                out |= {x for x in k[1].atoms(deep=True) if akey(x)[0] in ("ld", "arg", "idx", "call", "vcall", "sym")}
    # only the outermost atoms of a count, not what their addresses are made of
    inner = set()
    for a in out:
        for s in sub_polys(akey(a)):
            inner |= s.atoms(deep=True)
    return {a for a in out if a not in inner}


mpmath.mp.dps = 80


def thresholds(ps):
    """magnitudes of the constants that values are compared with: interesting scales for the valuations"""
    out = set()

    def poly_const(p):
        c = p.t.get((), 0)
        if c and len(p.t) > 1:
            out.update(abs(Fraction(c) / Fraction(d)) for m, d in p.t.items() if m != ())
    for p in ps:
        for a in p.atoms(deep=True):
            k = akey(a)
            if k[0] == "ind":
                st = [k[1]]
                while st:
                    c = st.pop()
                    if c[0] in ("and", "or"):
                        st += list(c[1])
                    elif c[0] not in ("true", "false"):
                        poly_const(c[1])
            elif k[0] in ("max", "min"):
                for x in k[1]:
                    if x.const():
                        out.add(abs(x.const()))
                    else:
                        poly_const(x)
    return sorted(float(x) for x in out if x < Fraction(1, 100) or x > 100)[:6]


def compared(ps):
    """constants that some value is compared with"""
    out = set()
    for p in ps:
        for a in p.atoms(deep=True):
            k = akey(a)
            st = [k[1]] if k[0] == "ind" else []
            while st:
                c = st.pop()
                if c[0] in ("and", "or"):
                    st += list(c[1])
                elif c[0] in ("eq", "ne", "lt", "le"):
                    z = c[1].t.get((), 0)
                    if z and len(c[1].t) == 2:
                        out.update(-Fraction(z) / Fraction(d) for m, d in c[1].t.items() if m != ())
    return out


def pointer_atoms(ps):
    out = set()
    for p in ps:
        for a in p.atoms(deep=True):
            k = akey(a)
            if k[0] == "ld":
                out |= k[1].atoms(deep=True)
    return out


def plans(seed, trials, forms, conds=(), skip=()):
    """constructor arguments of the valuations to try: plain ones, then exact ones at the scales of the constants in the forms"""
    th = thresholds(forms)
    ptr = pointer_atoms(forms) if th else set()
    out = [dict(seed=(seed, t), small=(t % 3 == 2)) for t in range(trials * 6)]
    ext = []
    for k in th:
        for sc in (k / 2, math.sqrt(k) / 4):
            for mixed in (False, True):
                for r in range(2 if mixed else 3):
                    ext.append(dict(seed=(seed, "x", k, mixed, r), exact=True, scale=sc, mixed=mixed, noscale=ptr))
    ptr = ptr or pointer_atoms(forms)
    for n, b in enumerate(boundary(forms, conds, set(skip) | ptr)):
        for r in range(2):
            ext.append(dict(seed=(seed, "b", n, r), exact=True, noscale=ptr, at=b))
    return out, ext


def atomics(conds):
    st, out = list(conds), []
    while st:
        c = st.pop()
        if c[0] in ("and", "or"):
            st += list(c[1])
        elif c[0] not in ("true", "false"):
            out.append(c)
    return out


def boundary(ps, conds=(), skip=()):
    """points where a comparison of the forms changes its outcome: (atom, rest) such that the comparison is an equality when atom = rest.
    Only atoms that occur once, linearly, and do not depend on a loop counter; pointers and sizes (skip) are left alone"""
    # conditions of writes: those on what the caller passes, not on the state of the object (guards for objects that are not set up)
    me = single_atom(atom("arg", 0))
    cs, out, seen = [c for c in atomics(conds) if me not in c[1].atoms(deep=True)], [], set()
    for p in ps:
        for a in p.atoms(deep=True):
            k = akey(a)
            if k[0] == "ind":
                cs.append(k[1])
    while cs:
        c = cs.pop()
        if c[0] in ("and", "or"):
            cs += list(c[1])
            continue
        if c[0] not in ("eq", "ne", "lt", "le") or c[1] in seen:
            continue
        seen.add(c[1])
        p = c[1]
        for m, co in sorted(p.t.items(), key=repr):
            if len(m) != 1 or m[0][1] != 1 or m[0][0] in skip:
                continue
            a = m[0][0]
            k = akey(a)
            if k[0] not in ("ld", "arg", "sym") or any(akey(x)[0] in ("bv", "idx") for s in sub_polys(k) for x in s.atoms(deep=True)):
                continue
            rest = (p - atom(*k) * co) * (Fraction(-1) / Fraction(co))
            if a in rest.atoms(deep=True) or any(akey(x)[0] in ("bv", "idx") for x in rest.atoms(deep=True)):
                continue
            out.append((a, rest))
            break
    return out[:8]


def differ(V, x, y):
    if V.exact:
        return abs(x - y) > mpmath.mpf(10) ** -14 * max(abs(x), abs(y)) and abs(x - y) > mpmath.mpf(10) ** -45
    return abs(x - y) > 1e-7 * max(1.0, abs(x), abs(y))


def confirm(pl, sizes, fix, a, b):
    """repeat a float disagreement in exact arithmetic, so that rounding is never taken for a difference"""
    V = Valuation(sizes=sizes, **dict(pl, exact=True))
    V.fix.update(fix)
    try:
        return bool(differ(V, V.ev(a), V.ev(b)))
    except (ZeroDivisionError, OverflowError):
        return False


_height = {}


def height(a):
    """number of reductions nested in the reduction a: the level of its bound variable"""
    if a not in _height:
        _height[a] = max([height(x) + 1 for x in akey(a)[2].atoms(deep=True) if akey(x)[0] in ("sum", "redmax", "redmin")] or [0])
    return _height[a]


class Valuation:
    def __init__(self, seed, sizes, extra=None, small=False, exact=False, scale=None, mixed=False, noscale=(), reg=False, at=None):
        self.reg, self.at, self.mem = reg, at, {}
        self.exact, self.scale, self.mixed, self.noscale = exact, scale, mixed, noscale
        self.num = mpmath.mpf if exact else float
        self.tol = mpmath.mpf(10) ** -60 if exact else 1e-9
        self.seed = seed
        self.rng = random.Random(repr(seed))
        self.fix = dict(extra or {})
        self.memo = {}
        self.bound = {}
        self.small = small
        for a in sorted(sizes):
            if a not in self.fix:
                self.fix[a] = self.rng.choice([1, 2, 3, 4, 5])

    def h(self, *key):
        d = hashlib.blake2b(repr((self.seed,) + key).encode(), digest_size=8).digest()
        x = int.from_bytes(d, "little") / 2.0 ** 64
        if self.small:
            return [-2.0, -1.0, -0.5, 0.0, 0.5, 1.0, 2.0][int(x * 7)]
        return 6 * x - 3

    def ev(self, p):
        if self.exact:
            return self.ev_exact(p)
        r = 0.0
        for m, c in self.terms(p):
            v = float(c)
            for a, e in m:
                x = self.atom(a)
                if e == 1:
                    v *= x
                else:
                    if self.reg and e < 0 and abs(x) < 1e-11:
                        x = 0.37        # any value: the term is cancelled by its condition, unless the program divides by zero
                    if x == 0 and e < 0:
                        raise ZeroDivisionError
                    if x < 0 and e.denominator != 1:
                        raise ZeroDivisionError
                    v *= x ** float(e) if e.denominator != 1 else x ** int(e)
            r += v
        return r

    def terms(self, p):
        """monomials of p with the indicators of branch conditions evaluated first, so that a form under a false condition is not looked at"""
        if len(p.t) < 2 or not any(akey(a)[0] == "ind" for m in p.t for a, e in m):
            return p.t.items()
        out = {}
        for m, c in p.t.items():
            z, rest = False, []
            for a, e in m:
                if akey(a)[0] == "ind":
                    if self.atom(a) == 0:
                        z = True
                        break
                else:
                    rest.append((a, e))
            if not z:
                rest = tuple(rest)
                out[rest] = out.get(rest, 0) + c
        return [(m, c) for m, c in out.items() if c]

    def ev_exact(self, p):
        r = mpmath.mpf(0)
        for m, c in self.terms(p):
            c = Fraction(c)
            v = mpmath.mpf(c.numerator) / c.denominator
            for a, e in m:
                x = mpmath.mpf(self.atom(a))
                if e == 1:
                    v *= x
                else:
                    e = Fraction(e)
                    if self.reg and e < 0 and abs(x) < mpmath.mpf(10) ** -40:
                        x = mpmath.mpf("0.37")
                    if x == 0 and e < 0:
                        raise ZeroDivisionError
                    if x < 0 and e.denominator != 1:
                        raise ZeroDivisionError
                    v *= mpmath.power(x, mpmath.mpf(e.numerator) / e.denominator) if e.denominator != 1 else x ** int(e)
            r += v
        return r

    def rnd(self, x):
        return int(mpmath.nint(x)) if self.exact else round(x)

    def flr(self, x):
        return mpmath.floor(x) if self.exact else float(math.floor(x))

    def atom(self, a):
        if a in self.bound:
            return self.bound[a]
        if a in self.fix:
            return self.fix[a]
        key = None
        if not self.bound:
            if a in self.memo:
                return self.memo[a]
        v = self._atom(a)
        if not self.bound:
            self.memo[a] = v
        return v

    def _atom(self, a):
        k = akey(a)
        t = k[0]
        if t == "op" and k[1] in ("and", "or", "xor") and len(k) == 4:
            x, y = self.ev(k[2]), self.ev(k[3])
            if x == self.rnd(x) >= 0 and y == self.rnd(y) >= 0:
                x, y = self.rnd(x), self.rnd(y)
                return self.num(x & y if k[1] == "and" else x | y if k[1] == "or" else x ^ y)
        if t in OPAQUE:
            raise Undecidable(show_atom(a))
        if t == "loopexit":
            return 1.0
        if t == "ld":
            if len(k) > 3 and k[3] != 0:
                raise Undecidable(show_atom(a))
            q = self.rnd(self.ev(k[1]) * 4096)
            if self.mem and (q, k[2]) in self.mem:
                return self.mem[q, k[2]]
            v = self.h("ld", q, k[2])
            if self.scale is not None and a not in self.noscale and (not self.mixed or self.h("mix", q) > 0):
                return self.num(v) * self.num(self.scale)
            return v
        if t == "ind":
            return 1.0 if self.cond(k[1]) else 0.0
        if t in ("max", "min"):
            vs = [self.ev(x) for x in k[1]]
            return max(vs) if t == "max" else min(vs)
        if t == "p":
            return self.ev(k[1])
        if t == "udiv":
            d = self.ev(k[2])
            return self.flr(self.ev(k[1]) / d)
        if t == "urem":
            d = self.ev(k[2])
            n = self.ev(k[1])
            return n - d * self.flr(n / d)
        if t in ("sum", "redmax", "redmin"):
            T = self.rnd(self.ev(k[1]))
            if T > 64:
                raise ZeroDivisionError
            # bound variables are numbered by the nesting height of their sum
            lvl = height(a)
            b = intern(("bv", lvl))
            sv = self.bound.get(b)
            acc = 0.0 if t == "sum" else None
            for n in range(T):
                self.bound[b] = float(n)
                v = self.ev(k[2])
                acc = acc + v if t == "sum" else (v if acc is None else (max(acc, v) if t == "redmax" else min(acc, v)))
            if sv is None:
                self.bound.pop(b, None)
            else:
                self.bound[b] = sv
            if acc is None:
                raise ZeroDivisionError
            return acc
        if t == "fn" and k[1] == "fabs":
            return abs(self.ev(k[2]))
        if t == "fn" and k[1] == "pow":
            b, e = self.ev(k[2]), self.ev(k[3])
            if b <= 0:
                n = self.rnd(e)
                if b == 0 or n != e or abs(n) > 200:
                    raise ZeroDivisionError
                return b ** int(n)
            return b ** e
        if t == "floor":
            return self.flr(self.ev(k[1]))
        if t == "fn" and k[1] in ("cttz", "ctlz", "ctpop"):
            w = self.rnd(self.ev(k[3]))
            x = self.rnd(self.ev(k[2])) % 2 ** w
            return self.num(bin(x).count("1") if k[1] == "ctpop" else w if not x else w - x.bit_length() if k[1] == "ctlz" else (x & -x).bit_length() - 1)
        if t in ("lshr", "shl"):
            n, x = self.rnd(self.ev(k[2])), self.rnd(self.ev(k[1]))
            if 0 <= n < 64 and x >= 0:
                return self.num(x >> n if t == "lshr" else x << n)
        # uninterpreted: function of its (evaluated) parts
        parts = []
        for x in k[1:]:
            if isinstance(x, P):
                parts.append(self.rnd(self.ev(x) * 4096))
            else:
                parts.append(repr(x))
        v = self.h(t, *parts)
        if t == "v0" and self.scale is not None and (not self.mixed or self.h("mix", *parts) > 0):
            return self.num(v) * self.num(self.scale)
        return v

    def cond(self, c):
        k = c[0]
        if k == "true":
            return True
        if k == "false":
            return False
        if k in ("and", "or"):
            # one part can settle it, whatever becomes of the others
            err = None
            for x in c[1]:
                try:
                    if self.cond(x) == (k == "or"):
                        return k == "or"
                except (ZeroDivisionError, OverflowError) as e:
                    err = e
            if err:
                raise err
            return k == "and"
        v = self.ev(c[1])
        if k == "lt":
            return v < -self.tol
        if k == "le":
            return v <= self.tol
        if k == "eq":
            return abs(v) < self.tol
        if k == "ne":
            return abs(v) >= self.tol
        if k == "b":
            return abs(v) >= self.tol
        if k == "nb":
            return abs(v) < self.tol
        raise Undecidable(repr(c))


def at_boundary(V):
    """put the valuation on a comparison's boundary, if the plan asks for one"""
    b = V.at
    if b and b[0] not in V.fix:
        k, v = akey(b[0]), V.ev(b[1])
        if k[0] == "ld":
            V.mem[V.rnd(V.ev(k[1]) * 4096), k[2]] = v
        else:
            V.fix[b[0]] = v
        V.memo.clear()


def equal(a, b, fix=None, trials=24, assume=None, seed=1, choose=None, reg=False):
    """'equal' | 'different' | 'undecided'; fix: atom id -> value or callable(rng); assume: list of conditions that must hold"""
    if a == b:
        return "equal"
    if opaque_atoms(a) or opaque_atoms(b):
        return "undecided"
    sizes = size_atoms([a, b])
    good = 0
    plain, ext = plans(seed, trials, [a, b], skip=sizes | set(fix or ()))
    for n, pl in enumerate(plain + ext):
        if good >= trials and n < len(plain):
            continue
        if reg:
            pl = dict(pl, reg=True)
        V = Valuation(sizes=sizes, **pl)
        for k, v in (fix or {}).items():
            V.fix[k] = v(V.rng) if callable(v) else v
        if choose:
            choose(V)
        try:
            at_boundary(V)
            if assume and not all(V.cond(c) for c in assume):
                continue
            x, y = V.ev(a), V.ev(b)
        except (ZeroDivisionError, OverflowError):
            continue
        except Undecidable:
            if V.at:
                continue
            return "undecided"
        good += 1
        if differ(V, x, y) and (V.exact or confirm(pl, sizes, V.fix, a, b)):
            return "different"
    if good < 4:
        return "undecided"
    return "equal"
