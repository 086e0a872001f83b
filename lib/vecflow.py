"""Forward dataflow over the state vectors a solver manipulates through the engine interface.

The abstract state maps every buffer handle (a canonical form) to a vector value: a linear form over the entry contents of
the buffers and over F(time, vector) terms (one derivative evaluation each).  Merges are gated by the branch conditions,
values carried round a loop become 'lc' atoms with their entry value and per-iteration transfer recorded in `loops`.
Nothing is run: transfer functions of the engine operations are applied once per call site."""
from poly import *
import sym
from sym import Sym, IDX

Y = atom("hY")
TIME = "TIME"
STEP = "STEP"
IDXA = single_atom(IDX)


class Unhandled(Exception):
    pass


def F(t, v):
    return atom("F", topoly(t), topoly(v))


def V0(h):
    """entry content of a buffer"""
    return atom("v0", topoly(h))


class Call:
    def __init__(self, inst, cls, method, args, state):
        self.inst, self.cls, self.method, self.args, self.state = inst, cls, method, args, state
        self.vals = {}


class Flow:
    def __init__(self, mod, cls, f, decide=None, given=None, sizes=None, args=None):
        """decide(cond) -> True/False/None fixes configuration branches; given: {member offset: constant};
        sizes: {vector member offset: element count}"""
        self.mod, self.cls, self.f = mod, cls, f
        self.S = Sym(f, this_class=cls, args=args)
        A0 = atom("arg", 0)
        for o, v in (given or {}).items():
            self.S.given[A0 + o] = topoly(v)
        self.decide0 = decide or (lambda c: None)
        self.sub = {}
        self.calls = []
        self.loops = {}
        self.exit = None
        self.sizes = sizes or {}
        self.final_calls = {}
        self._n = {}

    # ---- canonicalisation ---------------------------------------------------------------------
    def decide(self, c):
        k = c[0]
        if k == "true":
            return True
        if k == "false":
            return False
        r = self.decide0(c)
        if r is not None:
            return r
        if k in ("and", "or"):
            v = [self.decide(x) for x in c[1]]
            if k == "and":
                return False if False in v else (True if all(x is True for x in v) else None)
            return True if True in v else (False if all(x is False for x in v) else None)
        p = self.norm(c[1])
        q = p.const()
        if q is not None:
            return {"lt": q < 0, "le": q <= 0, "eq": q == 0, "ne": q != 0, "b": q != 0, "nb": q == 0}[k]
        return None

    def norm(self, p):
        """canonical form of a scalar or handle: accessor calls named, configuration branches resolved"""
        p = topoly(p)
        for _ in range(8):
            mp = {}
            for a in p.atoms(deep=True):
                k = akey(a)
                if k[0] == "vcall":
                    if a in self.sub:
                        mp[a] = self.sub[a]
                    elif k[2] == "get_y":
                        mp[a] = Y
                    elif k[2] in ("problem_size",):
                        mp[a] = atom("PS")
                    elif k[1] == "nbody_butcher_table":
                        mp[a] = atom("tab", k[2])
                elif k[0] == "ind":
                    d = self.decide(k[1])
                    if d is not None:
                        mp[a] = ONE if d else ZERO
                elif k[0] == "udiv":
                    for o, n in self.sizes.items():
                        A0 = atom("arg", 0)
                        b, e = self.ldm(A0 + o), self.ldm(A0 + o + 8)
                        if k[1] == e - b and k[2].const() == 8:
                            mp[a] = topoly(n)
            mp = {a: v for a, v in mp.items() if single_atom(v) != a}
            if not mp:
                return p
            p = subst(p, mp)
        return p

    def ldm(self, a):
        return atom("ld", a, 8, 0)

    # ---- state --------------------------------------------------------------------------------
    def read(self, st, h):
        h = self.norm(h)
        if h in st:
            return st[h]
        return V0(h)

    def write(self, st, h, v):
        h = self.norm(h)
        st[h] = v
        self.written.add(h)

    def scalar(self, call, op):
        """value behind a const-reference scalar operand of an engine call"""
        a = self.S.ev(op)
        if self.by_value(op):
            return self.norm(a)
        r = self.S.root(op)
        f = self.f
        if r[0] == "i" and f.insts[r[1]].op == "alloca":
            fake = FakeUse(call, "double")
            v = self.S.elem(f.insts[r[1]], a, fake)
            if v is None:
                raise Unhandled("scalar argument at %s" % call.loc)
            return self.norm(v)
        return self.norm(self.S.mem_at(call.block.id, call.idx, a, 8, self.S.ev(r)))

    def by_value(self, op):
        """a scalar passed by value rather than by reference"""
        if op[0] == "i":
            return self.f.insts[op[1]].ty in ("double", "float", "i64", "i32")
        if op[0] == "a":
            return self.f.args[op[1]]["ty"] in ("double", "float", "i64", "i32")
        return op[0] in ("f", "c", "fp", "ci", "cf")

    def array_elem(self, call, op, k):
        """k-th double behind a pointer operand as seen by the call (k a form)"""
        S, f = self.S, self.f
        base = S.ev(op)
        r = S.root(op)
        a = base + topoly(k) * 8
        if r[0] == "i" and f.insts[r[1]].op == "alloca":
            v = S.elem(f.insts[r[1]], a, FakeUse(call, "double"))
            if v is None:
                raise Unhandled("coefficient array at %s" % call.loc)
            return self.norm(v)
        if r[0] == "g":
            c = S.const_load(a, FakeUse(call, "double"))
            if c is not None:
                return self.norm(c)
        return self.norm(S.refine(S.mem_at(call.block.id, call.idx, a, 8, S.ev(r))))

    def vector_handle(self, call, op, k):
        """k-th handle of a std::vector<memory*> object operand"""
        S, f = self.S, self.f
        base = S.ev(op)
        r = S.root(op)
        if r[0] == "i" and f.insts[r[1]].op == "alloca":
            h = self.local_vector(call, f.insts[r[1]], k)
            if h is None:
                raise Unhandled("local buffer list at %s" % call.loc)
            return self.norm(h)
        beg = S.mem_at(call.block.id, call.idx, base, 8, S.ev(r))
        a = beg + topoly(k) * 8
        return self.norm(S.mem_at(call.block.id, call.idx, a, 8, beg))

    def local_vector(self, call, al, k):
        """element of a local vector built from an initializer list"""
        S, f = self.S, self.f
        kc = topoly(k).const()
        ctor = [x for x in f.all() if x.op == "call" and x.callee and x.ops and x.ops[0] == ["i", al.id]
                and (self.mod.callee_short(x) or "").startswith("std::vector<") and (self.mod.callee_short(x) or "").endswith("::vector") and len(x.ops) >= 3]
        if len(ctor) != 1 or kc is None:
            return None
        src = ctor[0].ops[1]
        r = S.root(src)
        if r[0] == "i" and f.insts[r[1]].op == "alloca":
            a = S.ev(src) + 8 * kc
            return S.elem(f.insts[r[1]], a, FakeUse(ctor[0], "ptr"))
        return None

    def lincomb(self, st, call, vec, coef, n):
        n = self.norm(n)
        c = n.const()
        if c is not None and c <= 64:
            out = ZERO
            for k in range(int(c)):
                out = out + self.read(st, self.vector_handle(call, vec, k)) * self.array_elem(call, coef, k)
            return out
        fam = self.norm(self.S.ev(vec))
        return atom("lincomb", n, fam, self.array_elem(call, coef, IDX))

    # ---- engine operations --------------------------------------------------------------------
    def op(self, st, i):
        v = self.S.vcall(i)
        if v is None:
            return self.other(st, i)
        cls, m = v[0], v[1]
        o = i.ops
        ev = lambda k: self.norm(self.S.ev(o[k]))
        key = single_atom(self.S.inst(i)) if i.ty != "void" else None
        rec = Call(i, cls, m, None, dict(st))
        if cls == "nbody_engine":
            if m == "fcompute":
                h, g = ev(2), ev(3)
                val = F(self.scalar(i, o[1]), self.read(st, h))
                self.write(st, g, val)
                rec.vals = {"t": self.scalar(i, o[1]), "in": h, "out": g, "value": val, "arg": self.read(rec.state, h)}
            elif m == "copy_buffer":
                self.write(st, ev(1), self.read(st, ev(2)))
                rec.vals = {"out": ev(1), "value": st[ev(1)]}
            elif m == "fill_buffer":
                self.write(st, ev(1), self.scalar(i, o[2]))
                rec.vals = {"out": ev(1), "value": st[ev(1)]}
            elif m == "fmadd_inplace":
                self.write(st, ev(1), self.read(st, ev(1)) + self.read(st, ev(2)) * self.scalar(i, o[3]))
                rec.vals = {"out": ev(1), "value": st[ev(1)]}
            elif m == "fmadd":
                self.write(st, ev(1), self.read(st, ev(2)) + self.read(st, ev(3)) * self.scalar(i, o[4]))
                rec.vals = {"out": ev(1), "value": st[ev(1)]}
            elif m == "fmaddn_inplace":
                self.write(st, ev(1), self.read(st, ev(1)) + self.lincomb(st, i, o[2], o[3], ev(4)))
                rec.vals = {"out": ev(1), "value": st[ev(1)], "n": ev(4)}
            elif m == "fmaddn":
                b = ev(2)
                x = ZERO if b.iszero() else self.read(st, b)
                self.write(st, ev(1), x + self.lincomb(st, i, o[3], o[4], ev(5)))
                rec.vals = {"out": ev(1), "value": st[ev(1)], "n": ev(5)}
            elif m == "fmaddn_corr":
                d = self.lincomb(st, i, o[3], o[4], ev(5))
                x, c = self.read(st, ev(1)), self.read(st, ev(2))
                self.write(st, ev(1), x + d)
                self.write(st, ev(2), atom("KC", x, c, d))
                rec.vals = {"out": ev(1), "value": st[ev(1)], "n": ev(5), "corr": ev(2)}
            elif m == "fmaxabs":
                r = self.S.root(o[2])
                st[("scalar", tuple(r))] = atom("MAXABS", self.read(st, ev(1)))
                rec.vals = {"value": self.read(st, ev(1))}
            elif m == "get_time":
                self.sub[key] = st[TIME]
            elif m == "get_y":
                self.sub[key] = Y
            elif m == "advise_time":
                st[TIME] = st[TIME] + self.scalar(i, o[1])
                self.written.add(TIME)
                st[STEP] = st[STEP] + 1
                self.written.add(STEP)
                rec.vals = {"dt": self.scalar(i, o[1])}
            elif m == "set_time":
                st[TIME] = self.scalar(i, o[1])
                self.written.add(TIME)
                rec.vals = {"t": self.scalar(i, o[1])}
            elif m == "set_step":
                st[STEP] = ev(1)
                self.written.add(STEP)
            elif m == "get_step":
                self.sub[key] = st[STEP]
            elif m == "clamp":
                self.write(st, ev(1), atom("CLAMP", self.read(st, ev(1))))
            elif m in ("problem_size", "create_buffer", "create_buffers", "free_buffer", "free_buffers", "type_name", "print_info", "get_data",
                       "set_ode_order", "read_buffer"):
                pass
            elif m in ("write_buffer",):
                self.write(st, ev(1), atom("written", i.id))
            else:
                raise Unhandled("engine operation %s at %s" % (m, i.loc))
        elif "nbody_solver" in self.mod.bases(cls) and m == "advise":
            # a whole step of another solver
            dt = self.norm(self.S.ev(o[1]))
            who = ev(0)
            self.write(st, Y, atom("STEP", who, st[TIME], self.read(st, Y), dt))
            st[TIME] = st[TIME] + dt
            self.written.add(TIME)
            st[STEP] = st[STEP] + 1
            self.written.add(STEP)
            rec.vals = {"who": who, "dt": dt}
        elif cls == "nbody_butcher_table" or "nbody_butcher_table" in self.mod.bases(cls):
            pass
        elif cls == "nbody_extrapolator":
            if m == "update_table":
                st[("table",)] = atom("upd", st.get(("table",), atom("tab0")), ev(1), self.read(st, ev(2)))
                self.written.add(("table",))
                rec.vals = {"level": ev(1), "value": self.read(st, ev(2))}
            elif m == "extrapolate":
                self.write(st, ev(2), atom("EXTRAP", ev(1), st.get(("table",), atom("tab0"))))
                rec.vals = {"level": ev(1), "out": ev(2)}
            elif m == "estimate_error":
                rec.vals = {"level": ev(1)}
                self.sub[key] = atom("ERR", ev(1), st.get(("table",), atom("tab0")))
        self.final_calls[i.id] = rec

    def other(self, st, i):
        rec = Call(i, None, self.mod.callee_short(i), None, dict(st))
        n = rec.method or ""
        if n.startswith("nbody_") and not i.d.get("intr"):
            rec.vals = {"args": [self.norm(self.S.ev(o)) for o in i.ops]}
            self.direct(st, i, rec)
        self.final_calls[i.id] = rec

    def direct(self, st, i, rec):
        """direct call of a repository function that was not inlined (recursion): hook"""
        raise Unhandled("call of %s at %s" % (rec.method, i.loc))

    # ---- flow ---------------------------------------------------------------------------------
    def run(self):
        f = self.f
        self.written = set()
        st = {TIME: atom("T0"), STEP: atom("S0")}
        self.out = {}
        self.lcinit = {}
        order = rpo(f)
        self.region([b for b in order], f.entry, st)
        return self

    def region(self, order, entry, st):
        f = self.f
        self.live = {}
        # loops are processed with placeholder states; two rounds find what a loop modifies
        mods = {h: set() for h in f.loops}
        for rnd in range(4):
            self.out = {}
            self.edge_live = {}
            before = {h: set(s) for h, s in mods.items()}
            self._pass(order, entry, st, mods)
            if before == mods:
                return
        raise Unhandled("loop state does not stabilise")

    def _pass(self, order, entry, st0, mods):
        f = self.f
        self.loops = {}
        self.exits = []
        for b in order:
            B = f.blocks[b]
            ins = [(p, self.out[p]) for p in B.pred if p in self.out and (p, b) in self.edge_live]
            if b == entry:
                st = dict(st0)
            else:
                L = f.loops.get(b)
                if L:
                    ins = [(p, s) for p, s in ins if p not in L.blocks]
                if not ins:
                    continue
                st = self.join(b, ins)
                if L:
                    init = dict(st)
                    for k in mods[b]:
                        if k == TIME:
                            st[k] = atom("lc", b, "TIME")
                        elif isinstance(k, tuple):
                            st[k] = atom("lc", b, repr(k))
                        else:
                            st[k] = atom("lc", b, k)
                    self.loops[b] = {"init": {k: (init.get(k) if k in init else V0(k)) for k in mods[b]}, "latch": {}}
            saved, self.written = self.written, set()
            for i in B.insts:
                if i.op in ("call", "invoke") and not sym.is_dbg(i) and not i.d.get("intr"):
                    self.op(st, i)
            self.after_block(b, st)
            for h in f.loop_chain(b):
                mods[h] |= self.written
            self.written |= saved
            self.out[b] = st
            t = B.term
            if t.op == "br" and len(t.ops) == 3:
                c = self.S.cond(t.ops[0])
                d = self.decide(c)
                tb, fb = t.d.get("tsucc"), None
                # ops: cond, false block, true block
                fbk, tbk = t.ops[1][1], t.ops[2][1]
                if d is not True:
                    self.edge_live[(b, fbk)] = 1
                if d is not False:
                    self.edge_live[(b, tbk)] = 1
            else:
                for s in B.succ:
                    self.edge_live[(b, s)] = 1
            for s in B.succ:
                if s in f.loops and b in f.loops[s].blocks and (b, s) in self.edge_live and s in self.loops:
                    self.loops[s]["latch"][b] = dict(st)
            if t.op == "ret":
                self.exits.append((b, st))
        if len(self.exits) == 1:
            self.exit = self.exits[0][1]
        else:
            self.exit = None

    def after_block(self, b, st):
        pass

    def join(self, b, ins):
        if len(ins) == 1:
            return dict(ins[0][1])
        keys = set()
        for p, s in ins:
            keys |= set(s)
        st = {}
        for k in keys:
            vs = [s.get(k, V0(k) if not isinstance(k, (str, tuple)) else atom("none", repr(k))) for p, s in ins]
            if all(v == vs[0] for v in vs):
                st[k] = vs[0]
                continue
            m = {p: v for (p, s), v in zip(ins, vs)}
            r = None
            if all(p in m for p in self.f.blocks[b].pred):
                r = self.S.gated_block(b, lambda p: m[p], ite)
            else:
                dead = [p for p in self.f.blocks[b].pred if p not in m]
                r = self.S.gated_block(b, lambda p: m.get(p, vs[0]), ite)
            if r is None:
                r = self.exit_join(b, k, m)
            st[k] = self.norm(r) if r is not None else atom("join", b, repr(k))
        return st

    def exit_join(self, b, k, m):
        """merge behind a loop that is left in several places: which value arrives depends on the exit taken"""
        f = self.f
        for h in sorted(f.loops, key=lambda h: len(f.loops[h].blocks)):
            L = f.loops[h]
            if b in L.blocks or not f.dominates(h, b):
                continue
            out = [(e, s) for e in L.blocks for s in f.blocks[e].succ if s not in L.blocks]
            parts = []
            for p, v in sorted(m.items()):
                ed = tuple(sorted((e, s) for e, s in out if (e == p and s == b) or (p not in L.blocks and f.dominates(s, p))))
                if not ed:
                    break
                parts.append((ed, v))
            else:
                used = [e for ed, v in parts for e in ed]
                if len(used) == len(set(used)):
                    return atom("exitmux", h, tuple(parts))
        return None


class FakeUse:
    """a read of memory at the position of a call"""

    def __init__(self, call, ty):
        self.block, self.idx, self.ty, self.id, self.op, self.func = call.block, call.idx, ty, call.id, "load", call.func
        self.loc = call.loc
        self.d = {}


def rpo(f):
    seen, out = set(), []
    st = [(f.entry, iter(f.blocks[f.entry].succ))]
    seen.add(f.entry)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(f.blocks[s].succ)))
                break
        else:
            out.append(b)
            st.pop()
    return out[::-1]
