"""Vector dataflow (vecflow.Flow) with lists of buffers as functional arrays, so that stages kept in a member list and
updated in loops are followed exactly; valuations close the loop recurrences over those arrays as well."""
from poly import *
import sym, pit, vecflow
from vecflow import Flow, V0, TIME, IDXA, Unhandled
import solvers
from solvers import RecVal, A0


def aite(c, a, b):
    if a == b:
        return a
    i = ind(c)
    if i == ONE:
        return a
    if i == ZERO:
        return b
    return atom("aite", i, a, b)


class FamFlow(Flow):
    fams = {}

    def famkey(self, h):
        h = self.norm(h)
        a = single_atom(h)
        if a is None:
            return None
        k = akey(a)
        if k[0] != "ld" or k[3] != 0 and False:
            return None
        for o in self.fams:
            b = self.ldm(A0 + o)
            d = k[1] - b
            if single_atom(b) not in d.atoms(deep=True) and single_atom(b) in k[1].atoms():
                i = P({m: c / 8 for m, c in d.t.items()})
                return ("fam", o), i
        return None

    def run(self):
        self.fams = {o for o, n, t, sz in self.mod.fields_flat(self.cls) if "vector" in t and "memory" in t} | set(self.sizes)
        self.stores0 = {("fam", o): atom("arr0", o) for o in self.fams}
        return super().run()

    def region(self, order, entry, st):
        st.update(self.stores0)
        return super().region(order, entry, st)

    def read(self, st, h):
        k = self.famkey(h)
        if k:
            return atom("sel", st[k[0]], k[1])
        return super().read(st, h)

    def write(self, st, h, v):
        k = self.famkey(h)
        if k:
            st[k[0]] = atom("store", st[k[0]], k[1], v)
            self.written.add(k[0])
            st[self.norm(h)] = v
            return
        super().write(st, h, v)

    def lincomb(self, st, call, vec, coef, n):
        o = (self.S.ev(vec) - A0).const()
        if o is not None and int(o) in self.fams:
            return atom("lincombA", self.norm(n), st[("fam", int(o))], self.array_elem(call, coef, sym.IDX))
        return super().lincomb(st, call, vec, coef, n)

    def join(self, b, ins):
        self._jk = None
        if len(ins) == 1:
            return dict(ins[0][1])
        fam = {}
        for k in self.stores0:
            vs = [s[k] for p, s in ins]
            if all(v == vs[0] for v in vs):
                fam[k] = vs[0]
                continue
            m = {p: v for (p, s), v in zip(ins, vs)}
            r = self.S.gated_block(b, lambda p: m.get(p, vs[0]), aite)
            if r is None:
                r = self.exit_join(b, k, m)
            fam[k] = self.norm(r) if r is not None else atom("join", b, repr(k))
        st = super().join(b, [(p, {k: v for k, v in s.items() if k not in self.stores0}) for p, s in ins])
        # elements of lists live in the arrays only
        st.update(fam)
        return st

    def norm(self, p):
        p = super().norm(p)
        for _ in range(4):
            mp = {a: self.sub[a] for a in p.atoms(deep=True) if a in self.sub and akey(a)[0] != "vcall"}
            if not mp:
                return p
            p = super().norm(subst(p, mp))
        return p

    def _block_loads(self, st, i):
        r = self.S.root(i.ops[0])
        k = ("scalar", tuple(r))
        if k in st:
            a = single_atom(self.S.inst(i))
            if a is not None:
                self.sub[a] = st[k]

    def after_block(self, b, st):
        # loads of scalars an engine operation stored are resolved where they happen
        for i in self.f.blocks[b].insts:
            if i.op == "load":
                self._block_loads(st, i)


class FamVal(RecVal):
    def setup(self, fl):
        r = super().setup(fl)
        self.ccache = {}
        self.atexit = {}
        return r

    def arr(self, p):
        """a list of buffers as {index: value} with a default"""
        a = single_atom(p)
        if a is None:
            raise pit.Undecidable("list of buffers %s" % show(p)[:80])
        k = akey(a)
        if k[0] == "arr0":
            return (("arr0", k[1]), {})
        if k[0] == "store":
            t, d = self.arr(k[1])
            d = dict(d)
            d[self.rnd(self.ev(k[2]))] = self.ev(k[3])
            return (t, d)
        if k[0] == "aite":
            return self.arr(k[2] if self.ev(k[1]) != 0 else k[3])
        if k[0] == "aclob":
            return (("aclob",) + tuple(self.rnd(self.ev(x) * 4096) if isinstance(x, P) else x for x in k[1:]), {})
        if k[0] == "lc":
            return self._atom(a)
        if k[0] == "exitmux":
            return self.mux(k, self.arr)
        raise pit.Undecidable("list of buffers %s" % k[0])

    def elem(self, A, i):
        return A[1][i] if i in A[1] else self.num(self.h("elem", A[0], i))

    def val(self, key, p):
        return self.arr(p) if isinstance(key, tuple) and key[0] == "fam" else self.ev(p)

    def atom(self, a):
        if akey(a)[0] in ("sel", "lincombA", "exitmux", "fin"):
            return self._atom(a)
        return super().atom(a)

    def _atom(self, a):
        k = akey(a)
        if k[0] == "sel":
            return self.elem(self.arr(k[1]), self.rnd(self.ev(k[2])))
        if k[0] == "lincombA":
            A = self.arr(k[2])
            n = self.rnd(self.ev(k[1]))
            if n > 40:
                raise ZeroDivisionError
            r = self.num(0)
            old = self.fix.get(IDXA)
            for j in range(n):
                self.fix[IDXA] = float(j)
                self.memo.clear()
                r += self.elem(A, j) * self.ev(k[3])
            self.fix.pop(IDXA, None) if old is None else self.fix.__setitem__(IDXA, old)
            self.memo.clear()
            return r
        if k[0] == "exitmux":
            return self.mux(k, self.ev)
        if k[0] == "MAXABS":
            return abs(self.ev(k[1]))
        if k[0] == "fin" and k[1] == self.fl.S.uid:
            # value a loop leaves behind: the one of the iteration that takes the exit
            fl = self.fl
            d = fl.f.insts[k[2]]
            chain = [h for h in fl.f.loop_chain(d.block.id) if h not in self.closing]
            if len(chain) != 1:
                raise pit.Undecidable("value behind nested loops")
            p = fl.norm(fl.S.inst(d))
            if a in p.atoms(deep=True):
                raise pit.Undecidable("value behind a loop")
            return self.behind(chain[0], lambda e: self.ev(p))
        return super()._atom(a)

    def close(self, h):
        key = (h, tuple(sorted((repr(k), repr(v)) for k, v in self.env.items())), tuple(sorted((k, v) for k, v in self.fix.items() if akey(k)[0] == "iv")))
        if key in self.ccache:
            return self.ccache[key]
        r = self._close(h)
        self.ccache[key] = r
        return r

    def mux(self, k, how):
        def pick(edge):
            for ed, v in k[2]:
                if edge in ed:
                    return how(v)
            raise pit.Undecidable("exit not covered")
        return self.behind(k[1], pick)

    def behind(self, h, fn):
        """fn(exit edge) evaluated in the iteration that leaves the loop"""
        if h in self.atexit:
            return fn(self.atexit[h])
        edge, env, it = self.leave(h)
        iva = intern(("iv", self.fl.S.uid, h))
        se, sf = dict(self.env), self.fix.get(iva)
        self.env.update(env)
        self.fix[iva] = float(it)
        self.atexit[h] = edge
        self.memo.clear()
        try:
            return fn(edge)
        finally:
            del self.atexit[h]
            self.env = se
            self.fix.pop(iva, None) if sf is None else self.fix.__setitem__(iva, sf)
            self.memo.clear()

    def leave(self, h):
        """(exit edge taken, loop-carried values there, iteration)"""
        return self._iterate(h, None)

    def _close(self, h):
        fl = self.fl
        L = fl.f.loops[h]
        if any(e != h for e in L.exiting) or len(fl.loops[h]["latch"]) != 1:
            raise pit.Undecidable("loop with several exits")
        n = self.rnd(self.ev(fl.norm(fl.S.trip(h))))
        if n > 40:
            raise ZeroDivisionError
        return self._iterate(h, n)

    def exit_taken(self, h):
        """exit edge taken in the current iteration, or None"""
        fl, S = self.fl, self.fl.S
        f = fl.f
        L = f.loops[h]
        for e in [b for b in vecflow.rpo(f) if b in L.blocks]:
            out = [s for s in f.blocks[e].succ if s not in L.blocks]
            if not out:
                continue
            t = f.blocks[e].term
            if t.op != "br" or len(t.ops) != 3:
                raise pit.Undecidable("loop exit")
            if e != h:
                pc = S.pathcond(e, start=h)
                if pc is None:
                    raise pit.Undecidable("path to a loop exit")
                if not self.cond(fl_norm(fl, pc)):
                    continue
            c = self.cond(fl_norm(fl, S.cond(t.ops[0])))
            s = t.ops[2][1] if c else t.ops[1][1]
            if s not in L.blocks:
                return (e, s)
        return None

    def _iterate(self, h, n):
        fl = self.fl
        L = fl.f.loops[h]
        if len(fl.loops[h]["latch"]) != 1:
            raise pit.Undecidable("loop with several latches")
        cur = {k: self.val(k, v) for k, v in fl.loops[h]["init"].items()}
        latch = next(iter(fl.loops[h]["latch"].values()))
        iva = intern(("iv", fl.S.uid, h))
        name = lambda k: "TIME" if k == TIME else (repr(k) if isinstance(k, tuple) else k)
        old = self.fix.get(iva)
        S = fl.S
        accs = {}
        for i in fl.f.blocks[h].insts:
            if i.op == "phi" and single_atom(S.inst(i)) == intern(("acc", S.uid, i.id)):
                ini = [v for p, v in i.d["in"] if p not in L.blocks]
                nxt = [v for p, v in i.d["in"] if p in L.blocks]
                if len(ini) == 1 and len(nxt) == 1:
                    accs[i.id] = [fl.norm(S.ev(ini[0])), fl.norm(S.ev(nxt[0]))]
        self.closing.append(h)
        val = {i: self.ev(a[0]) if self.evable(a[0]) else None for i, a in accs.items()}
        saved = dict(self.env)
        left = None
        for it in range(n if n is not None else 41):
            if it == 40:
                raise ZeroDivisionError
            self.fix[iva] = float(it)
            for k, v in cur.items():
                self.env[(h, name(k))] = v
            for i, v in val.items():
                if v is not None:
                    self.env[("acc", i)] = v
            self.memo.clear()
            if n is None:
                left = self.exit_taken(h)
                if left:
                    left = (left, {k: self.env[k] for k in [(h, name(k)) for k in cur] + [("acc", i) for i in val if val[i] is not None]}, it)
                    break
            cur = {k: self.val(k, latch[k]) if k in latch else v for k, v in cur.items()}
            val = {i: (self.ev(a[1]) if val[i] is not None and self.evable(a[1]) else None) for i, a in accs.items()}
        self.closing.pop()
        self.env = saved
        if old is None:
            self.fix.pop(iva, None)
        else:
            self.fix[iva] = old
        self.memo.clear()
        if n is None:
            return left
        out = {name(k): v for k, v in cur.items()}
        for i, v in val.items():
            if v is not None:
                out[("acc", i)] = v
        return out


def fl_norm(fl, c):
    return map_cond(c, fl.norm)
