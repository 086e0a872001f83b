"""Extracts Runge-Kutta tableaus from the table classes and checks the rooted-tree order conditions."""
import numpy as np
import ir, sym
from poly import *
from roles import impl
from consts import Statics, Unknown, LD


class Tableau:
    pass


def ret_ptr(mod, cls, method, st):
    """static object the accessor returns: (global, offset), function"""
    f = impl(mod, cls, method, 1)
    if f is None:
        raise Unknown("%s::%s not found" % (cls, method))
    r = [x for x in f.all() if x.op == "ret" and x.ops]
    try:
        vs = {st.val(f, x.ops[0]) for x in r}
        if len(vs) == 1:
            v = vs.pop()
            if isinstance(v, tuple) and v[0] == "ptr" and v[2] is not None:
                return (v[1], v[2]), f
    except Unknown:
        pass
    p, f = ret_value(mod, cls, method)
    return ptr(p, "%s::%s" % (cls, method)), f


def ret_value(mod, cls, method):
    f = impl(mod, cls, method, 1)
    if f is None:
        raise Unknown("%s::%s not found" % (cls, method))
    S = sym.Sym(f, this_class=cls)
    r = [x for x in f.all() if x.op == "ret" and x.ops]
    vs = {S.ev(x.ops[0]) for x in r}
    if len(vs) != 1:
        raise Unknown("%s::%s does not return one value" % (cls, method))
    return vs.pop(), f


def ptr(p, what):
    """(global, offset) of a value form"""
    g = None
    off = 0
    for m, c in p.t.items():
        if not m:
            off = int(c)
        elif len(m) == 1 and c == 1 and m[0][1] == 1 and akey(m[0][0])[0] == "g" and g is None:
            g = akey(m[0][0])[1]
        else:
            raise Unknown("%s is not a static table" % what)
    if g is None:
        raise Unknown("%s is not a static table" % what)
    return g, off


def extract(mod, cls, st):
    t = Tableau()
    t.cls = cls
    p, t.f_steps = ret_value(mod, cls, "get_steps")
    if p.const() is None:
        raise Unknown("stage count of %s is not constant" % cls)
    s = t.s = int(p.const())
    p, _ = ret_value(mod, cls, "is_implicit")
    t.implicit = bool(p.const()) if p.const() is not None else None
    p, _ = ret_value(mod, cls, "is_embedded")
    t.embedded = bool(p.const()) if p.const() is not None else None
    (g, o), t.f_a = ret_ptr(mod, cls, "get_a", st)
    t.oob = []
    t.text = True
    A = np.zeros((s, s), dtype=LD)
    for i in range(s):
        try:
            row = st.cell(g, o + 8 * i)
        except IndexError as e:
            t.oob.append("row %d of a: %s" % (i, e))
            continue
        if not (isinstance(row, tuple) and row[0] == "ptr" and row[2] is not None):
            raise Unknown("row %d of a" % i)
        w = s if t.implicit else i
        for j in range(w):
            try:
                A[i][j] = st.cell(row[1], row[2] + 8 * j)
                t.text &= st.is_text(row[1], row[2] + 8 * j)
            except IndexError as e:
                t.oob.append("a[%d][%d]: %s" % (i, j, e))
    t.A = A
    for nm in ("b1", "b2", "c"):
        (g, o), f = ret_ptr(mod, cls, "get_" + nm, st)
        v = np.zeros(s, dtype=LD)
        for i in range(s):
            try:
                v[i] = st.cell(g, o + 8 * i)
                t.text &= st.is_text(g, o + 8 * i)
            except IndexError as e:
                t.oob.append("%s[%d]: %s" % (nm, i, e))
        setattr(t, nm, v)
        setattr(t, "f_" + nm, f)
    return t


_tree_cache = {}


def trees(n):
    """rooted trees with n nodes as sorted tuples of subtree ids; returns list of (id, children ids, gamma)"""
    return _trees(n)


class Forest:
    def __init__(self, nmax):
        self.kids = []      # tree id -> tuple of child ids
        self.order = []
        self.gamma = []
        self.by = {0: []}
        for n in range(1, nmax + 1):
            self.by[n] = []
            for ms in self.multisets(n - 1, None):
                g = n
                for k in ms:
                    g *= self.gamma[k]
                self.by[n].append(len(self.kids))
                self.kids.append(ms)
                self.order.append(n)
                self.gamma.append(g)

    def multisets(self, total, top):
        """multisets of tree ids with given total order, non-increasing ids below or equal to top"""
        if total == 0:
            yield ()
            return
        start = top if top is not None else len(self.kids) - 1
        for k in range(min(start, len(self.kids) - 1), -1, -1):
            if self.order[k] <= total:
                for r in self.multisets(total - self.order[k], k):
                    yield (k,) + r


_forest = {}


def forest(n):
    if n not in _forest:
        _forest[n] = Forest(n)
    return _forest[n]


def residuals(A, b, F, nmax, absA=None):
    """per order: worst |b.phi(t) - 1/gamma(t)| relative to the rounding scale of the condition"""
    absA = np.abs(A)
    s = len(b)
    phi, pab = {}, {}
    aphi, apab = {}, {}
    worst = {}
    for n in range(1, nmax + 1):
        worst[n] = (0.0, None)
        for t in F.by[n]:
            v = np.ones(s, dtype=LD)
            w = np.ones(s, dtype=LD)
            for k in F.kids[t]:
                if k not in aphi:
                    aphi[k] = A.dot(phi[k])
                    apab[k] = absA.dot(pab[k])
                v = v * aphi[k]
                w = w * apab[k]
            if n < nmax:
                phi[t], pab[t] = v, w
            r = abs(b.dot(v) - LD(1) / LD(F.gamma[t]))
            sc = np.abs(b).dot(w) + LD(1) / LD(F.gamma[t])
            q = float(r / sc)
            if q > worst[n][0]:
                worst[n] = (q, t)
    return worst


def tree_str(F, t):
    return "[" + "".join(tree_str(F, k) for k in F.kids[t]) + "]"
