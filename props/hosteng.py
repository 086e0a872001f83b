"""Rules shared by the properties about the host-memory engines."""
from poly import *
import ir, sym, cells, roles, pit
from cells import Cell
from roles import ld, impl
from sym import Sym, IDX

A = [atom("arg", i) for i in range(8)]
DIRECT = ["nbody_engine_simple", "nbody_engine_openmp", "nbody_engine_block"]


def host_engines(mod):
    return [c for c in ["nbody_engine_simple"] + mod.derived("nbody_engine_simple") if mod.vtable(c)]


def valid(R, bufs, nbuf=6):
    """valuation constraints: buffers are state-sized, pointers valid"""
    n = single_atom(R.count())
    fix = {n: lambda V: float(V.rng.choice([1, 2, 3] if V.exact else [1, 2, 3, 5, 66]))}
    for b in bufs:
        fix[single_atom(b)] = lambda V, b=b: 1000.0 * (1 + single_atom(b) % 97) + V.rng.random()
        s = single_atom(R.size(b))
        if s is not None:
            fix[s] = lambda V: 8.0 * nbuf * V.fix[n]
    return fix


def not_state(R, bufs):
    """effects on engine members (counters, ...) rather than on the buffers"""
    datas = [R.data(b) for b in bufs]

    def ign(e):
        return (topoly(e.base) - A[0]).const() is not None
    return ign


def run_cells(ctx, mod, R, rule, cls, method, nargs, mk, bufs, nbuf=6, seen=None, extra_fix=None):
    f = impl(mod, cls, method, nargs)
    if f is None:
        ctx.undecided(rule, "%s::%s" % (cls, method), "", "no implementation found")
        return
    key = (f.name, cls if needs_class(f) else "")
    if seen is not None:
        if key in seen:
            ctx.saw("shared implementations", "%s::%s -> %s" % (cls, method, f.short))
            return
        seen.add(key)
    ctx.saw("functions", "%s (%s)" % (f.short, f.where))
    inst = "%s as %s::%s" % (f.short, cls, method) if f.short != "%s::%s" % (cls, method) else f.short

    def go():
        S = Sym(f, this_class=cls)
        e, b = cells.all_effects(S)
        fix = valid(R, bufs, nbuf)
        for k, v in (extra_fix or {}).items():
            fix[k] = v
        v, det, loc = cells.compare(e, b, mk(S), fix=fix, ignore=not_state(R, bufs), seed=ctx.seed, trials=8 if ctx.tier == "quick" else 24, S=S)
        ctx.decide(v, rule, inst, loc or f.where, det)
    ctx.guard(rule, inst, go, f.where)


def needs_class(f):
    return any(i.op == "call" and i.callee is None for i in f.all())


def layout(R, mem, comp, i):
    """component comp (0..5: rx ry rz vx vy vz) of body i in a state buffer"""
    return ld(R.data(mem) + R.count() * (8 * comp) + topoly(i) * 8)


def sumi(n, f):
    """sum over j<n of f(j)"""
    j = atom("specj", 0)
    return sym.mk_sum(n, f(j), single_atom(j))


MIN_R2 = None


def pair_accel(R, mem, k, i, minr2, n):
    def term(j):
        d = [layout(R, mem, c, i) - layout(R, mem, c, j) for c in range(3)]
        r2 = d[0] * d[0] + d[1] * d[1] + d[2] * d[2]
        r2 = minmax("max", [r2, topoly(minr2)])
        return -(R.mass(j) * d[k] * power(r2, Fraction(-3, 2)))
    return sumi(n, term)
