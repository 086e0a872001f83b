"""Finds, by behaviour rather than by member name, the places that matter to the rules: where an engine keeps the
bodies, the state vector and the masses, and how a buffer exposes its data."""
from poly import *
import sym, cells
from sym import Sym, effects
from build import AnalysisError


def accessor(mod, name, arg, nargs=1):
    """value returned by the one-argument accessor `name` applied to arg"""
    for f in mod.by_short(name):
        if len(f.args) != nargs:
            continue
        r = [x for x in f.all() if x.op == "ret" and x.ops]
        if len(r) == 1:
            S = Sym(f, args=[arg], this_class=name.rsplit("::", 1)[0])
            return S.ev(r[0].ops[0])
    return None


def need(x, what):
    if x is None:
        raise AnalysisError("cannot find " + what)
    return x


class EngineRoles:
    """layout facts of the host-memory engines"""

    def __init__(self, mod, base="nbody_engine_simple"):
        self.mod = mod
        self.base = base
        A0 = atom("arg", 0)
        mem = base + "::smemory"
        x = atom("memobj")
        d = need(accessor(mod, mem + "::data", x), mem + "::data()")
        self._data = (d, single_atom(x))
        s = need(accessor(mod, mem + "::size", x), mem + "::size()")
        self._size = (s, single_atom(x))
        self._count = (need(accessor(mod, "nbody_data::get_count", x), "nbody_data::get_count()"), single_atom(x))
        f = need(mod.one(base + "::init"), base + "::init")
        S = Sym(f, this_class=base)
        self.init_sym = S
        eff, bad = effects(S)
        self.init_eff = eff
        self.init_bad = bad
        self.data_field = self.y_field = None
        for e in eff:
            if e.value == atom("arg", 1) and e.stride.iszero() if isinstance(e.stride, P) else (e.value == atom("arg", 1) and e.stride == 0):
                o = (e.base - A0).const()
                if o is not None:
                    self.data_field = int(o)
        need(self.data_field, "the member that keeps the bodies in " + base)
        y = accessor(mod, base + "::get_y", A0)
        if y is not None:
            a = single_atom(y)
            if a is not None and akey(a)[0] == "ld":
                o = (akey(a)[1] - A0).const()
                self.y_field = int(o) if o is not None else None
        need(self.y_field, base + "::get_y()")
        # mass buffer: filled in init from get_mass()
        mp = need(accessor(mod, "nbody_data::get_mass", atom("arg", 1)), "nbody_data::get_mass()")
        self.mass_field = None
        ptr = {}
        for e in eff:
            o = (e.base - A0).const()
            if o is not None:
                ptr[e.value] = int(o)
        mpa = mp.atoms()
        for e in eff + cells.mem_calls(S)[0]:
            if mpa <= e.value.atoms(deep=True):
                for v, o in ptr.items():
                    if self.data(v).atoms() <= topoly(e.base).atoms(deep=True):
                        self.mass_field = o
        if self.mass_field is None:
            # the other buffer created there
            o = [o for v, o in ptr.items() if o not in (self.data_field, self.y_field) and single_atom(v) is not None and akey(single_atom(v))[0] in ("vcall", "call")]
            if len(o) == 1:
                self.mass_field = o[0]
        need(self.mass_field, "the mass buffer of " + base)

    def data(self, m):
        return subst(self._data[0], {self._data[1]: m})

    def size(self, m):
        return subst(self._size[0], {self._size[1]: m})

    def count_of(self, d):
        return subst(self._count[0], {self._count[1]: d})

    # in engine methods (arg0 = engine)
    def bodies(self):
        return ld(atom("arg", 0) + self.data_field)

    def count(self):
        return self.count_of(self.bodies())

    def mass(self, i):
        return ld(self.data(ld(atom("arg", 0) + self.mass_field)) + i * 8)

    def el(self, mem, i):
        return ld(self.data(mem) + topoly(i) * 8)


def ld(a, sz=8):
    return atom("ld", a, sz, 0)


def impl(mod, cls, method, nargs=None):
    """the function that implements virtual `method` for class cls (found through its vtable)"""
    vt = mod.vtable(cls) or []
    out = []
    for s in vt:
        if not s or s not in mod.funcs:
            continue
        f = mod.funcs[s]
        if f.short.split("::")[-1] == method and (nargs is None or len(f.args) == nargs):
            out.append(f)
    return out[0] if out else None


def assume_valid(c, extra=()):
    """condition that is a mere validity test of arguments: non-null pointers (listed extra atoms too)"""
    return c
