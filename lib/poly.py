"""Canonical algebra used to compare values computed by different code.

A value is a polynomial with rational coefficients over interned atoms (memory reads at entry, arguments,
loop counters, bounded sums, max/min, indicator functions of conditions, fractional powers ...).  Arithmetic is
over the reals, so re-association, distribution, hoisting and helper extraction do not change the form.
"""
from fractions import Fraction
import sys
sys.setrecursionlimit(20000)

_atoms = {}      # key tuple -> id
_keys = []       # id -> key tuple


def intern(key):
    i = _atoms.get(key)
    if i is None:
        i = len(_keys)
        _atoms[key] = i
        _keys.append(key)
    return i


def akey(i):
    return _keys[i]


class P:
    __slots__ = ("t", "_k")

    def __init__(self, t=None):
        self.t = t if t is not None else {}
        self._k = None

    @property
    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.t.items()))
        return self._k

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, P) and self.t == o.t

    def iszero(self):
        return not self.t

    def const(self):
        """Fraction if constant, else None"""
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def __add__(self, o):
        o = topoly(o)
        if not o.t:
            return self
        if not self.t:
            return o
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0) + c
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
        return P(r)

    __radd__ = __add__

    def __neg__(self):
        return P({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-topoly(o))

    def __rsub__(self, o):
        return topoly(o) - self

    def scale(self, c):
        if c == 0:
            return P()
        return P({m: c * x for m, x in self.t.items()})

    def __mul__(self, o):
        o = topoly(o)
        c = o.const()
        if c is not None:
            return self.scale(c)
        c = self.const()
        if c is not None:
            return o.scale(c)
        r = P()
        acc = {}
        extra = []
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                q = mono_mul(m1, m2)
                if isinstance(q, P):
                    extra.append(q.scale(c1 * c2))
                else:
                    v = acc.get(q, 0) + c1 * c2
                    if v == 0:
                        acc.pop(q, None)
                    else:
                        acc[q] = v
        r = P(acc)
        for e in extra:
            r = r + e
        return r

    __rmul__ = __mul__

    def atoms(self, deep=False):
        s = set()
        for m in self.t:
            for a, e in m:
                s.add(a)
        if deep:
            out = set(); st = list(s)
            while st:
                a = st.pop()
                if a in out:
                    continue
                out.add(a)
                for sub in sub_polys(akey(a)):
                    st += list(sub.atoms())
            return out
        return s

    def __repr__(self):
        return show(self)


def topoly(x):
    if isinstance(x, P):
        return x
    if isinstance(x, int):
        x = Fraction(x)
    if isinstance(x, float):
        x = Fraction(x)
    return P({(): x}) if x != 0 else P()


ZERO = P()
ONE = topoly(1)


def atom(*key):
    return P({((intern(key), Fraction(1)),): Fraction(1)})


def single_atom(p):
    """atom id if p is exactly one atom with coefficient 1 and power 1"""
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


def mono_mul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    out = []
    redo = None
    eqs = []
    for a, e in d.items():
        if e == 0:
            continue
        k = akey(a)
        if k[0] == "ind":
            e = Fraction(1)
            if k[1][0] == "eq":
                eqs.append(a)
        elif k[0] == "p" and e.denominator == 1 and e > 0:
            redo = (a, int(e))
            continue
        out.append((a, e))
    if redo or (eqs and len(out) > 1):
        base = P({tuple(sorted(x for x in out if x[0] not in eqs)): Fraction(1)})
        if redo:
            for _ in range(redo[1]):
                base = base * akey(redo[0])[1]
        for a in eqs:
            v, rep = solve_eq(akey(a)[1][1])
            if v is not None:
                base = subst(base, {v: rep})
            # multiply back without re-solving
            base = P(_attach(base.t, a))
        return base
    return tuple(sorted(out))


def _attach(t, a):
    r = {}
    for m, c in t.items():
        d = dict(m)
        d[a] = Fraction(1)
        k = tuple(sorted(d.items()))
        r[k] = r.get(k, 0) + c
    return {k: c for k, c in r.items() if c != 0}


def solve_eq(d):
    """for d == 0: (atom, replacement poly) with a unit-coefficient linear atom not occurring elsewhere in d"""
    best = None
    for m, c in d.t.items():
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
            a = m[0][0]
            rest = P({mm: cc for mm, cc in d.t.items() if mm != m})
            if a in rest.atoms(deep=True):
                continue
            # prefer loop counters, then the most deeply created atom
            rank = (akey(a)[0] == "iv", a)
            if best is None or rank > best[0]:
                best = (rank, a, rest.scale(-1 / Fraction(c)))
    if best:
        return best[1], best[2]
    return None, None


def power(p, e):
    """p ** e for rational e"""
    e = Fraction(e)
    if e == 0:
        return ONE
    if e == 1:
        return p
    if e.denominator == 1 and e > 0:
        r = ONE
        for _ in range(int(e)):
            r = r * p
        return r
    c = p.const()
    if c is not None:
        if e.denominator == 1 and c != 0:
            return topoly(c ** int(e))
        if c > 0:
            # exact rational square root if possible
            if e.denominator == 2:
                import math
                n, d = c.numerator, c.denominator
                rn, rd = math.isqrt(n), math.isqrt(d)
                if rn * rn == n and rd * rd == d:
                    return topoly(Fraction(rn, rd) ** e.numerator)
        return P({((intern(("p", p)), e),): Fraction(1)})
    if len(p.t) == 1:
        (m, co), = p.t.items()
        if e.denominator == 1 or (co == 1 and len(m) == 1):
            if any(akey(a)[0] == "ind" for a, _ in m):
                return P({((intern(("p", p)), e),): Fraction(1)})
            mm = tuple(sorted((a, x * e) for a, x in m))
            q = mono_mul(mm, ())
            r = q if isinstance(q, P) else P({q: Fraction(1)})
            return r.scale(co ** int(e) if e.denominator == 1 else 1)
    # normalise content for inverse powers: (c*q)^-1 = c^-1 q^-1
    if e.denominator == 1:
        lead = p.t[min(p.t)]
        if lead != 1:
            return power(p.scale(1 / lead), e).scale(Fraction(lead) ** int(e))
    return P({((intern(("p", p)), e),): Fraction(1)})


# --- conditions ----------------------------------------------------------------------------------
# condition = ("true",) | ("false",) | ("lt", P) P<0 | ("le", P) | ("eq", P) | ("ne", P) | ("and", frozenset) | ("or", frozenset) | ("b", P)
TRUE = ("true",)
FALSE = ("false",)


def norm_sign(p):
    if not p.t:
        return p
    lead = p.t[min(p.t)]
    return p.scale(1 / abs(lead)) if lead > 0 else p.scale(-1 / abs(lead))


def cmp(op, d):
    c = d.const()
    if c is not None:
        v = {"lt": c < 0, "le": c <= 0, "eq": c == 0, "ne": c != 0}[op]
        return TRUE if v else FALSE
    if op in ("eq", "ne"):
        return (op, norm_sign(d))
    lead = abs(d.t[min(d.t)])
    return (op, d.scale(1 / Fraction(lead)))


def cnot(c):
    k = c[0]
    if k == "true":
        return FALSE
    if k == "false":
        return TRUE
    if k == "lt":
        return ("le", -c[1])
    if k == "le":
        return ("lt", -c[1])
    if k == "eq":
        return ("ne", c[1])
    if k == "ne":
        return ("eq", c[1])
    if k == "and":
        return ("or", frozenset(cnot(x) for x in c[1]))
    if k == "or":
        return ("and", frozenset(cnot(x) for x in c[1]))
    if k == "b":
        return ("nb", c[1])
    if k == "nb":
        return ("b", c[1])
    raise ValueError(c)


def cand(a, b):
    if a == TRUE:
        return b
    if b == TRUE:
        return a
    if a == FALSE or b == FALSE:
        return FALSE
    s = (set(a[1]) if a[0] == "and" else {a}) | (set(b[1]) if b[0] == "and" else {b})
    for x in s:
        if cnot(x) in s:
            return FALSE
    return ("and", frozenset(s)) if len(s) > 1 else next(iter(s))


def cor(a, b):
    return cnot(cand(cnot(a), cnot(b)))


def ind(c):
    """indicator polynomial of a condition"""
    if c == TRUE:
        return ONE
    if c == FALSE:
        return ZERO
    k = c[0]
    if k == "and":
        r = ONE
        for x in sorted(c[1], key=lambda z: (z[0], repr(z[1]))):
            r = r * ind(x)
        return r
    if k == "or":
        r = ONE
        for x in sorted(c[1], key=lambda z: (z[0], repr(z[1]))):
            r = r * (ONE - ind(x))
        return ONE - r
    if k == "ne":
        return ONE - atom("ind", ("eq", c[1]))
    if k == "nb":
        return ONE - atom("ind", ("b", c[1]))
    if k == "le":
        # canonical orientation: use strict form of the complement
        return ONE - atom("ind", ("lt", -c[1]))
    return atom("ind", c)


def ite(c, a, b):
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    if a == b:
        return a
    # max / min recognition: c is (x < y) style with a,b in {x,y}
    if c[0] in ("lt", "le"):
        d = c[1]          # d < 0
        e = a - b         # positive multiple of d -> then-branch is the smaller one
        q = ratio(e, d)
        if q is not None and q != 0:
            return minmax("min" if q > 0 else "max", [a, b])
    return b + ind(c) * (a - b)


def ratio(e, d):
    if set(e.t) != set(d.t) or not e.t:
        return None
    q = None
    for m in e.t:
        r = Fraction(e.t[m]) / d.t[m]
        if q is None:
            q = r
        elif q != r:
            return None
    return q


def minmax(kind, ps):
    flat = []
    for p in ps:
        a = single_atom(p)
        if a is not None and akey(a)[0] == kind:
            flat += list(akey(a)[1])
        else:
            flat.append(p)
    cs = [p.const() for p in flat if p.const() is not None]
    rest = {p for p in flat if p.const() is None}
    if cs:
        rest.add(topoly(max(cs) if kind == "max" else min(cs)))
    if len(rest) == 1:
        return next(iter(rest))
    return atom(kind, frozenset(rest))


# --- traversal -----------------------------------------------------------------------------------
def sub_polys(key):
    out = []

    def go(x):
        if isinstance(x, P):
            out.append(x)
        elif isinstance(x, (tuple, frozenset)):
            for y in x:
                go(y)
    for x in key[1:]:
        go(x)
    return out


def subst(p, mp):
    """replace atoms (by id) with polynomials, everywhere (also inside other atoms)"""
    memo = {}

    def do_atom(a):
        if a in memo:
            return memo[a]
        if a in mp:
            memo[a] = mp[a]
            return mp[a]
        k = akey(a)
        if not any(x in mp for s in sub_polys(k) for x in s.atoms(deep=True)):
            r = P({((a, Fraction(1)),): Fraction(1)})
        else:
            r = rebuild(k, do_poly)
        memo[a] = r
        return r

    def do_poly(q):
        r = ZERO
        for m, c in q.t.items():
            x = topoly(c)
            for a, e in m:
                v = do_atom(a)
                x = x * (v if e == 1 else power(v, e))
            r = r + x
        return r
    return do_poly(p)


def rebuild(k, f):
    """rebuild the value of atom key k after mapping sub-polynomials with f, re-normalising"""
    if k[0] == "ind":
        return ind(map_cond(k[1], f))
    if k[0] in ("max", "min"):
        return minmax(k[0], [f(x) for x in k[1]])
    if k[0] == "p":
        a = f(k[1])
        i = intern(("p", a))
        s = single_atom(a)
        if s is not None or a.const() is not None or len(a.t) == 1:
            return a
        return P({((i, Fraction(1)),): Fraction(1)})
    if k[0] == "ld":
        return atom("ld", f(k[1]), *k[2:])
    if k[0] == "udiv":
        return udiv(f(k[1]), f(k[2]))
    if k[0] == "urem":
        return urem(f(k[1]), f(k[2]))

    def go(x):
        if isinstance(x, P):
            return f(x)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if isinstance(x, frozenset):
            return frozenset(go(y) for y in x)
        return x
    return atom(k[0], *[go(x) for x in k[1:]])


def map_cond(c, f):
    if c[0] in ("true", "false"):
        return c
    if c[0] in ("and", "or"):
        r = TRUE if c[0] == "and" else FALSE
        for x in c[1]:
            r = cand(r, map_cond(x, f)) if c[0] == "and" else cor(r, map_cond(x, f))
        return r
    if c[0] in ("b", "nb"):
        return (c[0], f(c[1]))
    return cmp(c[0], f(c[1]))


def udiv(a, b):
    c = b.const()
    if c is not None and c != 0:
        if c == 1:
            return a
        n = a.const()
        if n is not None and n.denominator == 1 and c.denominator == 1 and n >= 0 and c > 0:
            return topoly(n // c)
        if all(x.denominator == 1 and x % c == 0 for x in a.t.values()):
            return a.scale(1 / c)
    return atom("udiv", a, b)


def urem(a, b):
    c, n = b.const(), a.const()
    if c is not None and n is not None and c > 0 and n >= 0 and n.denominator == 1 and c.denominator == 1:
        return topoly(n % c)
    return atom("urem", a, b)


# --- printing ------------------------------------------------------------------------------------
def show(p, depth=0):
    if not p.t:
        return "0"
    out = []
    for m, c in sorted(p.t.items(), key=lambda kv: [(show_atom(a, depth + 1), str(e)) for a, e in kv[0]]):
        fs = []
        for a, e in m:
            s = show_atom(a, depth + 1)
            fs.append(s if e == 1 else "%s^%s" % (s, e))
        cs = _num(c)
        if not fs:
            out.append(cs)
        elif c == 1:
            out.append("*".join(sorted(fs)))
        elif c == -1:
            out.append("-" + "*".join(sorted(fs)))
        else:
            out.append(cs + "*" + "*".join(sorted(fs)))
    return " + ".join(out).replace("+ -", "- ")


def _num(c):
    if c.denominator == 1:
        return str(c.numerator)
    return repr(float(c))


def show_cond(c, depth=0):
    if c[0] in ("true", "false"):
        return c[0]
    if c[0] in ("and", "or"):
        return "(" + (" %s " % c[0]).join(sorted(show_cond(x, depth) for x in c[1])) + ")"
    if c[0] == "b":
        return show(c[1], depth)
    if c[0] == "nb":
        return "!" + show(c[1], depth)
    return "%s %s 0" % (show(c[1], depth), {"lt": "<", "le": "<=", "eq": "==", "ne": "!="}[c[0]])


def show_atom(a, depth=0):
    k = akey(a)
    if depth > 30:
        return "..."
    if k[0] == "arg":
        return "arg%d" % k[1]
    if k[0] == "ind":
        return "[" + show_cond(k[1], depth) + "]"
    if k[0] in ("max", "min"):
        return k[0] + "(" + ", ".join(sorted(show(x, depth) for x in k[1])) + ")"
    if k[0] == "p":
        return "(" + show(k[1], depth) + ")"
    if k[0] == "ld":
        v = "" if len(k) < 4 or k[3] == 0 else "@%s" % (k[3],)
        return "M[" + show(k[1], depth) + "]" + v
    if k[0] == "sum":
        return "SUM{%s}(%s)" % (show(k[1], depth), show(k[2], depth))
    return k[0] + "(" + ", ".join(_sa(x, depth) for x in k[1:]) + ")"


def _sa(x, depth):
    if isinstance(x, P):
        return show(x, depth)
    if isinstance(x, (tuple, frozenset)):
        return "{" + ",".join(_sa(y, depth) for y in x) + "}"
    return str(x)
