"""Ownership and initialisation analysis of the buffers an object obtains from an engine.

A forward, disjunctive dataflow: every block carries abstract states that say what each member of the object holds (nothing, a
buffer of a known creation site, a list of buffers), which elements of the lists have been exchanged, which buffers have been
written since their creation and which have been released.  Branches on members whose content is known are resolved; other
conditions split the state and are remembered.  Loop counters stay symbolic, one generic pass stands for all passes."""
import random
from poly import *
import sym, pit
from sym import Sym

A0 = atom("arg", 0)
LIMIT = 6000
MAXDEPTH = 4
UNROLL = 40
SYMS = {}
EXCEEDS = {}

# operand roles of the engine operations: r = read, w = written, m = read and written, o = read unless absent, v = list read, n = number of list elements
ROLES = {"fcompute": "_r w".replace(" ", ""), "copy_buffer": "wr", "fill_buffer": "w", "fmadd_inplace": "mr", "fmadd": "wrr", "fmaddn_inplace": "mv_n", "fmaddn_corr": "mmv_n",
         "fmaddn": "wov_n", "fmaxabs": "r", "read_buffer": "_r", "write_buffer": "w", "clamp": "m"}


class Unhandled(Exception):
    pass


class St:
    __slots__ = ("mem", "elem", "env", "facts", "unw", "freed", "frees", "live", "log", "vecs", "old", "und")

    def __init__(self):
        self.mem = {}       # member offset -> form
        self.elem = {}      # other tracked address -> form
        self.env = {}       # instruction -> form
        self.facts = {}     # condition -> truth
        self.unw = {}       # buffer form -> True (nothing written) ; list base -> frozenset of written indices | "some"
        self.freed = ()     # released buffers and lists, in order
        self.live = {}      # created buffer/list base form -> (kind, size form, count form, where)
        self.log = ()       # (method, argument forms, where)
        self.old = frozenset()      # buffers and lists whose content dates from before the last reset; "solver" objects likewise
        self.und = frozenset()      # loops (of the running function) that may have been left before
        self.vecs = {}      # address of a local list -> base form

    def copy(self):
        s = St()
        for n in ("mem", "elem", "env", "facts", "unw", "live", "vecs"):
            setattr(s, n, dict(getattr(self, n)))
        s.freed, s.log, s.old, s.und = self.freed, self.log, self.old, self.und
        return s

    def key(self):
        r = lambda d: frozenset(d.items())
        return r(self.mem), r(self.elem), r(self.env), r(self.facts), r(self.unw), self.freed, r(self.vecs), self.old, self.und


class WsFlow:
    def __init__(self, mod, cls, f, sink, args=None, engine=None, depth=0, pre=()):
        """sink(kind, where, verdict, text); engine: form of the engine pointer member, or None when the object is the engine"""
        self.mod, self.cls, self.f, self.sink = mod, cls, f, sink
        self.S = SYMS.get((f.name, cls)) or SYMS.setdefault((f.name, cls), Sym(f, this_class=cls))
        self.args = args
        self.depth = depth
        self.exits = []
        self.visits = {}
        self.pre = list(pre)
        self.stack = frozenset()
        self.again, self.memo = set(), {}

    # ---- values
    def ev(self, st, op):
        if op[0] == "a":
            if self.args is not None and op[1] < len(self.args):
                return self.args[op[1]]
            return atom("arg", op[1])
        if op[0] == "i":
            if op[1] in st.env:
                return st.env[op[1]]
            return self.fallback(self.f.insts[op[1]])
        return self.S.ev(op)

    def fallback(self, i):
        return self.formal(self.S.inst(i))

    def formal(self, v):
        if self.args is not None:
            v = subst(v, {single_atom(atom("arg", k)): a for k, a in enumerate(self.args) if single_atom(atom("arg", k)) in v.atoms(deep=True)})
        return v

    def tracked(self, v):
        return any(akey(a)[0] in ("wsbuf", "wsvec", "wsnull") for a in v.atoms(deep=True))

    def off(self, a):
        c = (a - A0).const()
        return int(c) if c is not None else None

    def inst(self, st, i):
        """value of a pure instruction on this path, None when the path adds nothing to its form"""
        o = i.ops
        if i.op == "load":
            a = self.ev(st, o[0])
            k = self.off(a)
            if k is not None and k in st.mem:
                return st.mem[k]
            if a in st.elem:
                return st.elem[a]
            if a.const() is not None:
                return atom("wsnull", int(a.const()))
            if self.tracked(a):
                return atom("ld", a, 8, 0)
            if k is not None and st.facts.get(("dirty", k)) is None:
                return atom("ld", a, {"i1": 1, "i8": 1, "i32": 4}.get(i.ty, 8), 0) if i.ty != "double" else None
            if self.args is not None:
                b = single_atom(self.S.inst(i))
                if b is not None and akey(b)[0] == "ld":
                    return atom("ld", a, akey(b)[2], 0)
            return None
        if i.op == "getelementptr":
            b = self.ev(st, o[0])
            d = self.S.inst(i) - self.S.ev(o[0])
            mp = {}
            if self.args is not None:
                mp = {single_atom(atom("arg", k)): a for k, a in enumerate(self.args) if single_atom(atom("arg", k)) in d.atoms(deep=True)}
            for x in o[1:]:
                if x[0] == "i" and x[1] in st.env:
                    w = single_atom(self.S.ev(x))
                    if w is not None:
                        mp[w] = st.env[x[1]]
            return b + (subst(d, mp) if mp else d)
        if i.op in ("add", "sub", "mul", "shl") and any(x[0] == "i" and x[1] in st.env or x[0] == "a" and self.args is not None for x in o):
            x, y = self.ev(st, o[0]), self.ev(st, o[1])
            if i.op == "add":
                return x + y
            if i.op == "sub":
                return x - y
            if i.op == "mul":
                return x * y
            c = y.const()
            return x.scale(2 ** int(c)) if c is not None else None
        if i.op in ("ashr", "lshr", "sdiv", "udiv") and o[0][0] == "i" and o[0][1] in st.env:
            c = self.ev(st, o[1]).const()
            if c is not None:
                d = 2 ** int(c) if i.op in ("ashr", "lshr") else int(c)
                v = self.ev(st, o[0])
                if d and all((k / d).denominator == 1 for k in v.t.values()):
                    return v.scale(Fraction(1, d))
            return None
        if i.op in ("ptrtoint", "inttoptr", "bitcast", "zext", "sext", "trunc", "freeze"):
            return self.ev(st, o[0]) if o[0][0] == "i" and o[0][1] in st.env or o[0][0] == "a" else None
        if i.op == "select":
            t = self.truth(st, o[0])
            if t is not None:
                return self.ev(st, o[1 if t else 2])
            return None
        if i.ty == "i1" and i.op in ("icmp", "and", "or", "xor", "fcmp"):
            t = self.truth(st, ["i", i.id])
            return None if t is None else (ONE if t else ZERO)
        return None

    # ---- conditions
    def truth(self, st, op, deep=12):
        if op[0] == "c":
            return bool(op[1])
        if op[0] != "i":
            return self.fact(st, ("b", self.ev(st, op)))
        if op[1] in st.env:
            v = st.env[op[1]]
            c = v.const()
            return self.fact(st, ("b", v)) if c is None else c != 0
        i = self.f.insts[op[1]]
        if i.op == "icmp":
            return self.fact(st, self.cmpcond(st, i))
        if i.op in ("and", "or") and deep:
            x, y = self.truth(st, i.ops[0], deep - 1), self.truth(st, i.ops[1], deep - 1)
            if i.op == "and":
                return False if False in (x, y) else (True if x and y else None)
            return True if True in (x, y) else (False if x is False and y is False else None)
        if i.op == "xor" and i.ops[1][0] == "c" and i.ops[1][1]:
            x = self.truth(st, i.ops[0], deep - 1)
            return None if x is None else not x
        if i.op == "select" and deep:
            t = self.truth(st, i.ops[0], deep - 1)
            if t is not None:
                return self.truth(st, i.ops[1 if t else 2], deep - 1)
            x, y = self.truth(st, i.ops[1], deep - 1), self.truth(st, i.ops[2], deep - 1)
            return x if x == y else None
        if i.op in ("trunc", "freeze", "zext"):
            return self.truth(st, i.ops[0], deep - 1)
        return self.fact(st, self.S.cond(op))

    def cmpcond(self, st, i):
        p = i.d["pred"]
        p = {"slt": "lt", "ult": "lt", "sle": "le", "ule": "le", "sgt": "gt", "ugt": "gt", "sge": "ge", "uge": "ge"}.get(p, p)
        d = self.ev(st, i.ops[0]) - self.ev(st, i.ops[1])
        if p in ("gt", "ge"):
            d, p = -d, {"gt": "lt", "ge": "le"}[p]
        return (p, d)

    def fact(self, st, c):
        if c[0] in ("true", "false"):
            return c[0] == "true"
        if c[0] in ("and", "or"):
            v = [self.fact(st, x) for x in c[1]]
            if c[0] == "and":
                return False if False in v else (True if all(x is True for x in v) else None)
            return True if True in v else (False if all(x is False for x in v) else None)
        k, p = c
        q = p.const()
        if q is not None:
            return {"lt": q < 0, "le": q <= 0, "eq": q == 0, "ne": q != 0, "b": q != 0, "nb": q == 0}[k]
        p = self.norm(p)
        c = (k, p)
        if k in ("eq", "ne", "b", "nb"):
            z = self.nonzero(st, p)
            if z:
                return k in ("ne", "b")
        elif k in ("lt", "le"):
            for _, _, n, _ in st.live.values():
                if n is None or n.const() is not None:
                    continue
                if p == -n or k == "le" and p == ONE - n:
                    return True
                if p == n or k == "lt" and p == n - ONE:
                    return False
        if k not in ("b", "nb"):
            c = cmp(k, p)
            if c[0] in ("true", "false"):
                return c[0] == "true"
        if c in st.facts:
            return st.facts[c]
        n = cnot(c)
        if n in st.facts:
            return not st.facts[n]
        return None

    def nonzero(self, st, p):
        """a live buffer (or a place in a live list) is not null; lists are created with at least one element"""
        for q in (p, -p):
            at = [m for m in q.t if m != ()]
            if len(at) == 1 and len(at[0]) == 1 and q.t[at[0]] == 1 and q.t.get((), 0) >= 0:
                k = akey(at[0][0][0])
                if k[0] in ("wsbuf", "wsvec"):
                    return True
                if k[0] == "ld" and k[1] is not None and any(akey(x)[0] == "wsvec" for x in k[1].atoms()):
                    return True
            if any(q == n.scale(8) or q == n for k, s, n, w in st.live.values() if n is not None and not n.iszero()):
                return True
        return False

    def assume(self, st, op, truth):
        """record what a branch says, where it can be said as one condition"""
        st = st.copy()

        def rec(op, truth, deep=8):
            if op[0] != "i" or not deep:
                return
            i = self.f.insts[op[1]]
            if i.op == "icmp":
                k, p = self.cmpcond(st, i)
                p = self.norm(p)
                c = cmp(k, p)
                if c[0] not in ("true", "false"):
                    st.facts[c] = truth
                    a = single_atom(p)
                    if k in ("eq", "ne") and (k == "eq") == truth and a is not None and akey(a)[0] == "ld":
                        o = self.off(akey(a)[1])
                        if o is not None and o not in st.mem:
                            st.mem[o] = ZERO
            elif i.op in ("and", "or"):
                if (i.op == "and") == truth:
                    for x in i.ops:
                        rec(x, truth, deep - 1)
                else:
                    v = [self.truth(st, x) for x in i.ops]
                    if v.count(None) == 1:
                        rec(i.ops[v.index(None)], truth, deep - 1)
            elif i.op == "xor" and i.ops[1][0] == "c":
                rec(i.ops[0], not truth, deep - 1)
            elif i.op in ("trunc", "freeze", "zext"):
                rec(i.ops[0], truth, deep - 1)
            elif i.op == "select":
                # a || b, a && b
                t = [self.truth(st, x) for x in i.ops]
                for a, b in ((1, 2), (2, 1)):
                    if t[b] is not None and t[b] != truth:
                        rec(i.ops[0], a == 1, deep - 1)
                        rec(i.ops[a], truth, deep - 1)
                        break
            elif i.op == "load" or i.ty in ("i1", "i8"):
                v = self.norm(self.ev(st, op))
                for w, t in ((v, truth), (ONE - v, not truth)):
                    ms = [m for m in w.t]
                    if len(ms) == 1 and w.t[ms[0]] == 1 and ms[0] and all(akey(x)[0] == "ind" for x, e in ms[0]) and (t or len(ms[0]) == 1):
                        for x, e in ms[0]:
                            self.note(st, akey(x)[1], t)
                        return
                    a = single_atom(w)
                    if a is not None and akey(a)[0] == "min" and t:
                        for y in akey(a)[1]:
                            for u, tt in ((y, t), (ONE - y, not t)):
                                b = single_atom(u)
                                if b is not None and akey(b)[0] == "ind":
                                    self.note(st, akey(b)[1], tt)
                        return
                if v.const() is None:
                    st.facts[("b", v)] = truth
                    a = single_atom(v)
                    if a is not None and akey(a)[0] == "ld":
                        o = self.off(akey(a)[1])
                        if o is not None:
                            st.mem[o] = ONE if truth else ZERO
        rec(op, truth)
        return st

    def note(self, st, c, t):
        if self.args is not None:
            pass
        if c[0] == "and" and t or c[0] == "or" and not t:
            for x in c[1]:
                self.note(st, x, t)
        elif c[0] in ("eq", "ne", "lt", "le"):
            q = cmp(c[0], self.norm(c[1]))
            if q[0] not in ("true", "false"):
                st.facts[q] = t

    def live_in(self):
        """instructions whose value may be used in or after a block"""
        f = self.f
        use, dfn = {}, {}
        for b, B in f.blocks.items():
            u, d = set(), set()
            for i in B.insts:
                if i.op != "phi":
                    for o in list(i.ops) + ([i.d["target"]] if i.d.get("target") else []):
                        self.refs(o, u, d)
                d.add(i.id)
            use[b], dfn[b] = u, d
        inn = {b: set(u) for b, u in use.items()}
        ch = True
        while ch:
            ch = False
            for b, B in f.blocks.items():
                out = set()
                for t in B.succ:
                    out |= inn[t] - {i.id for i in f.blocks[t].insts if i.op == "phi"}
                    for i in f.blocks[t].insts:
                        if i.op == "phi":
                            for p, v in i.d["in"]:
                                if p == b:
                                    self.refs(v, out, ())
                            out.discard(None)
                n = use[b] | (out - dfn[b]) | {i.id for i in B.insts if i.op == "phi"}
                if n != inn[b]:
                    inn[b] = n
                    ch = True
        # conditions and addresses are looked at through their operands
        for b in inn:
            work = list(inn[b])
            while work:
                i = f.insts.get(work.pop())
                if i is None or i.op in ("call", "invoke", "phi", "load"):
                    continue
                for o in i.ops:
                    if o and o[0] == "i" and o[1] not in inn[b]:
                        inn[b].add(o[1])
                        work.append(o[1])
        return inn

    def refs(self, o, u, d):
        if isinstance(o, (list, tuple)) and o:
            if o[0] == "i":
                if o[1] not in d:
                    u.add(o[1])
            else:
                for x in o[1:]:
                    if isinstance(x, (list, tuple)):
                        self.refs(x, u, d)

    # ---- propagation
    def run(self, starts):
        f = self.f
        work = [(f.entry, None, s.copy()) for s in starts]
        for _, _, s in work:
            s.env, s.und = {}, frozenset()
        seen, n = set(), 0
        alive = self.live_in()
        while work:
            b, frm, st = work.pop()
            n += 1
            self.visits[b] = self.visits.get(b, 0) + 1
            if n > LIMIT:
                import os
                if os.environ.get("NBSA_DEBUG"):
                    print(self.visits)
                    import collections
                    for nm in ("mem", "elem", "env", "facts", "unw", "vecs"):
                        print(nm, len({r for bb, kk in seen if bb == max(self.visits, key=self.visits.get) for r in [kk[("mem", "elem", "env", "facts", "unw", "freed", "vecs").index(nm)]]}))
                    fs = collections.Counter(x for bb, kk in seen if bb == max(self.visits, key=self.visits.get) for x in kk[3])
                    for x, c in fs.most_common(40):
                        print(c, str(x)[:300])
                raise Unhandled("too many states in %s" % f.short)
            B, L = f.blocks[b], f.loops.get(b)
            if frm is not None:
                st = st.copy()
                new = {}
                for i in B.insts:
                    if i.op != "phi":
                        continue
                    v = [v for p, v in i.d["in"] if p == frm]
                    w = self.ev(st, v[0]) if v else None
                    if v and (L is None or frm not in L.blocks or b not in st.und and self.plain(w)):
                        new[i.id] = w           # the first pass starts with what enters, passes of a known number go one by one
                    else:
                        new[i.id] = self.fallback(i)        # any later pass: the counter form
                for k, v in new.items():
                    st.env[k] = v
                if L and frm not in L.blocks:
                    st.und = st.und - {b}
                elif L and b not in st.und and n > UNROLL * len(f.blocks):
                    st.und = st.und | {b}
                if L and frm in L.blocks:
                    inl = {i.id for x in L.blocks for i in f.blocks[x].insts}
                    st.env = {k: v for k, v in st.env.items() if k not in inl or k in new}
                    keep = {}
                    for c, t in st.facts.items():
                        if c[0] != "dirty" and any(akey(a)[0] in ("iv", "acc", "fin", "rec", "phi", "vcall", "call") or akey(a)[0] == "ld" and akey(a)[3] != 0 for a in c[1].atoms(deep=True)):
                            continue
                        keep[c] = t
                    st.facts = keep
                    if b in st.und:
                        st.facts[cmp("eq", self.S.iv(b))] = False
            st.env = {k: v for k, v in st.env.items() if k in alive[b]}
            st.facts = {c: t for c, t in st.facts.items() if not self.stale(c, b, alive[b])}
            k = (b, st.key())
            if k in seen:
                continue
            seen.add(k)
            self.block(B, st, work)
        return self.exits

    def counted(self, st, op):
        """does a comparison of numbers decide"""
        if op[0] != "i":
            return False
        i = self.f.insts[op[1]]
        return i.op == "icmp" and self.cmpcond(st, i)[1].const() is not None

    def plain(self, v):
        """a number, or a place in a local array"""
        return v is not None and all(akey(a)[0] == "alloca" for a in v.atoms(deep=True))

    def stale(self, c, b, alive):
        """a condition on a loop counter outside its loop, or on a result nothing looks at any more"""
        if c[0] == "dirty" or not isinstance(c[1], P):
            return False
        for a in c[1].atoms(deep=True):
            k = akey(a)
            if k[0] == "iv" and k[1] == self.S.uid:
                L = self.f.loops.get(k[2])
                if L is None or b not in L.blocks:
                    return True
            if k[0] == "ld" and self.off(k[1]) is not None:
                fl = self.mod.field_at(self.cls, self.off(k[1]))
                if fl and fl[1] in ("double", "float"):
                    return True
            if k[0] == "vcall" and k[3] == self.S.uid and k[4] not in alive:
                return True
        return False

    def block(self, B, st, work):
        states = [st.copy()]
        for i in B.insts:
            if i.op == "phi":
                continue
            if i.op in ("call", "invoke"):
                if sym.is_dbg(i):
                    continue
                nxt = []
                for s in states:
                    nxt += self.call(s, i)
                states = nxt
            elif i.op == "store":
                for s in states:
                    self.store(s, i)
            else:
                for s in states:
                    v = self.inst(s, i)
                    if v is not None:
                        s.env[i.id] = v
        t = B.term
        for s in states:
            if t.op == "br" and len(t.ops) == 3:
                fb, tb = t.ops[1][1], t.ops[2][1]
                v = self.truth(s, t.ops[0])
                if not self.counted(s, t.ops[0]):
                    s.und = s.und | {h for h, l in self.f.loops.items() if B.id in l.blocks and (fb not in l.blocks or tb not in l.blocks)}
                for tr, to in ((True, tb), (False, fb)):
                    if v is None:
                        work.append((to, B.id, self.assume(s, t.ops[0], tr)))
                    elif v == tr:
                        work.append((to, B.id, s))
            elif t.op == "ret":
                self.exits.append((s, self.ev(s, t.ops[0]) if t.ops else None))
            elif t.op == "unreachable":
                continue
            elif t.op == "invoke":
                work.append((B.succ[0], B.id, s))
            else:
                for to in B.succ:
                    work.append((to, B.id, s))

    def store(self, st, i):
        a = self.ev(st, i.ops[1])
        v = self.ev(st, i.ops[0])
        k = self.off(a)
        if k is not None:
            if v.const() is None and not self.tracked(v) and i.ops[0][0] == "i" and self.f.insts[i.ops[0][1]].ty in ("i64", "i32", "double", "float"):
                # a changed number: unknown from here on
                st.mem.pop(k, None)
                st.facts[("dirty", k)] = True
                st.mem[k] = atom("wsval", self.f.name, i.id, k)
                return
            st.mem[k] = v
        elif self.tracked(a) or self.tracked(v) or self.owned(a):
            st.elem[a] = v

    def owned(self, a):
        """a place inside an object that a member points to or that was just made"""
        return any(akey(x)[0] in ("ld", "call", "carg", "arg") for x in a.atoms()) and self.off(a) is None

    # ---- calls
    def call(self, st, i):
        v = self.S.vcall(i) if i.callee is None else None
        where = i.loc
        if v:
            cls, m = v[0], v[1]
            if cls == "nbody_engine" or "nbody_engine" in self.mod.bases(cls):
                return self.engine_op(st.copy(), i, m)
            st = st.copy()
            args = tuple(self.ev(st, o) for o in i.ops)
            st.log = st.log + ((cls + "::" + (m or "?"), args, where),)
            if (m or "").startswith("~") and args[0] in st.live:
                if args[0] in st.freed:
                    self.sink("release", where, False, "released twice: the buffer created at %s" % st.live[args[0]][3])
                st.freed = st.freed + (args[0],)
            self.on_virtual(st, i, cls, m, args)
            return [st]
        name = self.mod.callee_short(i) if i.callee else None
        if not name or i.d.get("intr"):
            if i.callee and ("memcpy" in i.callee or "memset" in i.callee):
                return [self.memory_op(st.copy(), i)]
            return [st]
        args = [self.ev(st, o) for o in i.ops]
        if name.startswith("std::vector<nbody_engine::memory"):
            return [self.vector_op(st.copy(), i, name, args)]
        tgt = self.mod.funcs.get(i.callee) if isinstance(self.mod.funcs, dict) else None
        if tgt is not None and not tgt.d_decl if hasattr(tgt, "d_decl") else tgt is not None and tgt.blocks:
            if args and self.off(args[0]) == 0 and name.split("::")[0] in self.mod.bases(self.cls):
                if tgt is self.f or tgt.name in self.stack:
                    self.recursion(st, tgt, args)
                elif self.depth < MAXDEPTH:
                    return self.enter(st, i, tgt, args)
        st = st.copy()
        st.log = st.log + ((name, tuple(args), where),)
        return [st]

    def enter(self, st, i, tgt, args):
        key = (tgt.name, tuple(args), st.key(), frozenset(st.live.items()))
        if key not in self.memo:
            n = len(st.log)
            self.memo[key] = [(s, r, s.log[n:]) for s, r in self.inner(tgt, args).run([st])]
        out = []
        for s, r, log in self.memo[key]:
            s = s.copy()
            s.log = st.log + log
            s.env = dict(st.env)
            s.und = st.und
            if r is not None:
                s.env[i.id] = r
            out.append(s)
        return self.distinct(out)

    def distinct(self, states):
        out = {}
        for s in states:
            out.setdefault(s.key(), s)
        return list(out.values())

    def inner(self, tgt, args):
        sub = self.__class__(self.mod, self.cls, tgt, self.sink, args=args, depth=self.depth + 1, pre=self.pre)
        sub.stack = self.stack | {self.f.name}
        sub.again, sub.memo = self.again, self.memo
        return sub

    def recursion(self, st, tgt, args):
        """a recursive call: looked at once for every content of the members it can start with, for any numbers as arguments
        (a count handed on is not zero)"""
        k = (tgt.name, frozenset(st.mem.items()), frozenset(st.unw.items()), st.freed)
        if k in self.again:
            return
        self.again.add(k)
        s = st.copy()
        s.env, s.facts = {}, {c: t for c, t in st.facts.items() if c[0] == "dirty" or all(akey(a)[0] == "tabn" for a in c[1].atoms())}
        given = [A0]
        for n, v in list(enumerate(args))[1:]:
            if self.is_unwritten(st, v):
                h = atom("wsbuf", tgt.name, "given", n)
                s.live[h], s.unw[h] = ("buf", None, None, self.origin(st, v)), True
                given.append(h)
            else:
                given.append(atom("arg", n))
        s.facts[cmp("eq", atom("arg", 1))] = False
        self.inner(tgt, given).run([s])

    def on_virtual(self, st, i, cls, m, args):
        pass

    def memory_op(self, st, i):
        a = self.ev(st, i.ops[0])
        k = self.off(a)
        n = self.ev(st, i.ops[2]).const()
        if k is None or n is None:
            return st
        for o in range(0, int(n), 8):
            if "memset" in i.callee:
                c = self.ev(st, i.ops[1]).const()
                if c == 0:
                    st.mem[k + o] = ZERO
                    continue
            else:
                src = self.ev(st, i.ops[1]) + topoly(o)
                ks = self.off(src)
                if ks is not None and ks in st.mem:
                    st.mem[k + o] = st.mem[ks]
                    continue
            st.mem.pop(k + o, None)
        return st

    def vector_op(self, st, i, name, args):
        m = name.split("::")[-1]
        if m == "operator=" and len(args) == 2:
            k = self.off(args[0])
            b = st.vecs.get(args[1])
            if b is None and self.off(args[1]) is not None:
                b = st.mem.get(self.off(args[1]))
            if k is not None and b is not None:
                self.overwrite(st, i, k)
                n = st.live[b][2] if b in st.live else ZERO
                st.mem[k], st.mem[k + 8] = b, b + n.scale(8)
                return st
            if b is not None:
                st.vecs[args[0]] = b
                return st
            if k is not None:
                raise Unhandled("a list is assigned from something else at %s" % i.loc)
        elif m in ("swap",) and len(args) == 2:
            a, b = self.off(args[0]), self.off(args[1])
            if a is not None and b is not None:
                for o in (0, 8, 16):
                    x, y = st.mem.get(a + o), st.mem.get(b + o)
                    for k, v in ((a + o, y), (b + o, x)):
                        if v is None:
                            st.mem.pop(k, None)
                        else:
                            st.mem[k] = v
                return st
            raise Unhandled("swap at %s" % i.loc)
        elif m.startswith("~"):
            pass
        elif m == "vector":
            k = self.off(args[0])
            if len(args) == 1 and k is not None:
                st.mem[k] = st.mem[k + 8] = st.mem[k + 16] = ZERO
            elif len(args) == 2 and args[1] in st.vecs:
                b = st.vecs[args[1]]
                st.vecs[args[0]] = b
                if k is not None:
                    st.mem[k], st.mem[k + 8] = b, b + st.live[b][2].scale(8)
            elif k is not None:
                raise Unhandled("a list is made from something else at %s" % i.loc)
        else:
            k = self.off(args[0]) if args else None
            if k is not None or args and args[0] in st.vecs:
                raise Unhandled("%s of a buffer list at %s" % (m, i.loc))
        return st

    def overwrite(self, st, i, k):
        old = st.mem.get(k)
        if old is not None and old in st.live and old not in st.freed:
            self.sink("again", i.loc, False, "the buffer created at %s is replaced by a new one without being released" % st.live[old][3])

    # ---- engine operations
    def handle(self, st, v, where, what):
        """is v a usable buffer; returns the verdict text for a bad one"""
        if v.const() == 0:
            return "there is no buffer (%s)" % what
        a = single_atom(v)
        if a is None:
            return None
        k = akey(a)
        if k[0] == "wsnull":
            return "element of a list without buffers (%s)" % what
        if k[0] == "ld" and k[3] == 0:
            base = [x for x in k[1].atoms() if akey(x)[0] == "wsvec"]
            if len(base) == 1:
                b = P({((base[0], Fraction(1)),): Fraction(1)})
                if b in st.freed:
                    return "buffer of a released list (%s)" % what
                idx = (k[1] - b).scale(Fraction(1, 8))
                self.bounds(st, idx, st.live[b][2], where, what)
                return None
        if v in st.freed:
            return "released buffer (%s)" % what
        return None

    def bounds(self, st, idx, n, where, what):
        r = self.exceeds(st, idx, n)
        if r is not False:
            self.sink("enough", where, False if r else None, "element %s of a list of %s buffers (%s)" % (show(idx)[:60], show(n)[:60], what))
        else:
            self.sink("enough", where, True, what)

    def exceeds(self, st, idx, n):
        """True when idx >= n for some values that the facts of the path allow, False when for none, None when not decided"""
        d = self.norm(idx - n)
        c = d.const()
        if c is not None:
            return c >= 0
        facts = []
        for q, t in list(st.facts.items()):
            if q[0] in ("lt", "le", "eq", "ne"):
                facts.append((q[0], self.norm(q[1]), t))
        pre = self.pre + [("lt", -n)]
        me = single_atom(A0)
        parts = lambda p: {a for a in p.atoms(deep=True) if a != me}
        ats = parts(d)
        for _ in range(3):
            for p in [p for k, p in pre] + [p for k, p, t in facts]:
                if parts(p) & ats:
                    ats |= parts(p)
        facts = [x for x in facts if parts(x[1]) & ats]
        pre = [x for x in pre if parts(x[1]) & ats]
        key = (d, tuple(pre), frozenset(facts), self.S.uid, tuple(self.args or ()))
        if key not in EXCEEDS:
            EXCEEDS[key] = self.exceed(d, pre, facts, ats)
        return EXCEEDS[key]

    def exceed(self, d, pre, facts, ats):
        leaf = sorted(a for a in ats if akey(a)[0] in ("ld", "arg", "PS", "iv", "tabn", "vcall", "call", "wsval"))
        rng = random.Random(7)
        dims = {a: akey(a) for a in leaf}
        trips = {}
        for a, k in dims.items():
            if k[0] == "iv":
                if k[1] != self.S.uid or k[2] not in self.f.loops:
                    return None
                trips[a] = self.norm(self.formal(self.S.trip(k[2])))
                if any(akey(x)[0] in ("trip", "early", "wsval") for x in trips[a].atoms(deep=True)):
                    return None
        for a in list(trips.values()):
            leaf += sorted(x for x in a.atoms(deep=True) if x not in dims and akey(x)[0] in ("ld", "arg", "PS", "tabn", "vcall", "call"))
        dims = {a: akey(a) for a in leaf}
        good = 0
        for n in range(400):
            V = pit.Valuation(seed=(7, n), sizes=())
            for a in leaf:
                if dims[a][0] != "iv":
                    V.fix[a] = float(rng.choice([0, 1, 1, 2, 2, 3, 4, 5]))
            try:
                skip = False
                for a in leaf:
                    if dims[a][0] == "iv":
                        t = V.ev(trips[a])
                        if t < 1:
                            skip = True
                            break
                        V.fix[a] = float(rng.randrange(int(t)))
                if skip or not all(self.test(V, k, p) == t for k, p, t in facts) or not all(self.test(V, k, p) for k, p in pre):
                    continue
                x = V.ev(d)
            except ZeroDivisionError:
                continue
            except pit.Undecidable:
                return None
            good += 1
            if x >= 0:
                return True if all(dims[a][0] in ("ld", "arg", "PS", "iv", "tabn") for a in leaf) else None
        return False if good >= 3 else None

    def test(self, V, k, p):
        x = V.ev(p)
        return {"lt": x < 0, "le": x <= 0, "eq": x == 0, "ne": x != 0}[k]

    def norm(self, p):
        mp = {}
        for a in p.atoms(deep=True):
            k = akey(a)
            if k[0] == "vcall" and k[2] == "problem_size":
                mp[a] = atom("PS")
            elif k[0] == "vcall" and k[1] == "nbody_butcher_table":
                mp[a] = atom("tabn", k[2])
        return subst(p, mp) if mp else p

    def is_unwritten(self, st, v):
        if st.unw.get(v) is True:
            return True
        a = single_atom(v)
        if a is not None and akey(a)[0] == "ld" and akey(a)[3] == 0:
            b, idx = self.split(akey(a)[1])
            if b is not None and b in st.unw:
                w = st.unw[b]
                c = idx.const()
                return c not in w if c is not None else not w
        return False

    def is_old(self, st, v):
        if v in st.old:
            return True
        a = single_atom(v)
        if a is not None and akey(a)[0] == "ld" and akey(a)[3] == 0:
            b, idx = self.split(akey(a)[1])
            if b is not None:
                c = idx.const()
                return b in st.old or c is not None and (b, int(c)) in st.old
        return False

    def member(self, v):
        a = single_atom(v)
        return a is not None and (akey(a)[0] in ("arg", "carg") or akey(a)[0] == "ld" and self.off(akey(a)[1]) is not None)

    def split(self, addr):
        base = [x for x in addr.atoms() if akey(x)[0] == "wsvec"]
        if len(base) != 1:
            return None, None
        b = P({((base[0], Fraction(1)),): Fraction(1)})
        return b, (addr - b).scale(Fraction(1, 8))

    def written(self, st, v):
        st.unw.pop(v, None)
        a = single_atom(v)
        if st.old:
            b = self.split(akey(a)[1])[0] if a is not None and akey(a)[0] == "ld" and akey(a)[3] == 0 else None
            ix = self.split(akey(a)[1])[1].const() if b is not None else None
            gone = {v}
            if b is not None:
                # one known place of a list, or (an unknown place) the list as a whole
                gone |= {(b, int(ix))} if ix is not None else {o for o in st.old if o == b or isinstance(o, tuple) and o[0] == b}
                if ix is not None and b in st.old:
                    n = st.live[b][2].const()
                    if n is not None:
                        st.old = st.old | {(b, j) for j in range(int(n))}
                    gone.add(b)
            st.old = st.old - gone
        if a is not None and akey(a)[0] == "ld" and akey(a)[3] == 0:
            b, idx = self.split(akey(a)[1])
            if b is not None and b in st.unw:
                c = idx.const()
                if c is None:
                    del st.unw[b]
                else:
                    st.unw[b] = st.unw[b] | {c}

    def elements(self, st, base, n):
        """handles of the first n elements of the list at base, None when n is not a number"""
        c = self.norm(n).const()
        if c is None:
            return None
        return [st.elem.get(base + 8 * k, atom("ld", base + 8 * k, 8, 0)) for k in range(int(c))]

    def engine_op(self, st, i, m):
        o = i.ops
        where = i.loc
        ev = lambda k: self.ev(st, o[k])
        if m == "create_buffer":
            h = atom("wsbuf", self.f.name, i.id)
            st.env[i.id] = h
            st.live[h] = ("buf", self.norm(ev(1)), None, where)
            st.unw[h] = True
            st.freed = tuple(x for x in st.freed if x != h)
            self.sink("size", where, None, (h, self.norm(ev(1))))
            return [st]
        if m == "create_buffers":
            h = atom("wsvec", self.f.name, i.id)
            st.vecs[ev(0)] = h
            n = self.norm(ev(3))
            st.live[h] = ("vec", self.norm(ev(2)), n, where)
            st.unw[h] = frozenset()
            st.elem = {a: v for a, v in st.elem.items() if single_atom(h) not in a.atoms()}
            self.sink("size", where, None, (h, self.norm(ev(2))))
            k = self.off(ev(0))
            if k is not None:
                self.overwrite(st, i, k)
                st.mem[k], st.mem[k + 8] = h, h + n.scale(8)
            return [st]
        if m in ("free_buffer", "free_buffers"):
            if m == "free_buffers":
                k = self.off(ev(1))
                v = st.mem.get(k) if k is not None else st.vecs.get(ev(1))
                if v is None:
                    raise Unhandled("free_buffers of an unknown list at %s" % where)
            else:
                v = ev(1)
            if v in st.live:
                if v in st.freed:
                    self.sink("release", where, False, "released twice: the buffer created at %s" % st.live[v][3])
                st.freed = st.freed + (v,)
            elif self.tracked(v):
                raise Unhandled("buffers of a list are released one by one at %s" % where)
            elif v.const() is None and not self.member(v):
                raise Unhandled("an unknown buffer is released at %s" % where)
            if m == "free_buffers" and k is not None:
                st.mem[k], st.mem[k + 8] = ZERO, ZERO
            return [st]
        roles = ROLES.get(m)
        if roles is None:
            if m == "get_y" or i.ty == "ptr":
                st.env[i.id] = atom("wsown", m or "?")
            st.log = st.log + (("nbody_engine::" + (m or "?"), tuple(ev(k) for k in range(len(o))), where),)
            return [st]
        nk = roles.find("n")
        outs = []
        argv = []
        for n, r in enumerate(roles):
            k = n + 1
            if r in "rwmo":
                v = ev(k)
                argv.append(v)
                if r == "o" and v.const() == 0:
                    continue
                bad = self.handle(st, v, where, "operand %d of %s" % (k, m))
                self.sink("exists", where, bad is None, bad or m)
                if r in "rmo" and bad is None:
                    u = self.is_unwritten(st, v)
                    self.sink("written", where, not u, "%s reads a buffer nothing has been written to since it was created at %s" % (m, self.origin(st, v)) if u else m)
                    if st.old:
                        u = self.is_old(st, v)
                        self.sink("reset", where, not u, "%s still reads, after reset, what steps before it left in the buffer created at %s" % (m, self.origin(st, v)) if u else m)
                if r in "wm":
                    outs.append(v)
            elif r == "v":
                ka = self.off(ev(k))
                base = st.mem.get(ka) if ka is not None else st.vecs.get(ev(k))
                cnt = ev(nk + 1)
                if base is None:
                    continue
                if base.const() == 0:
                    self.sink("exists", where, False, "list without buffers (operand %d of %s)" % (k, m))
                    continue
                if base in st.freed:
                    self.sink("exists", where, False, "released list (operand %d of %s)" % (k, m))
                    continue
                self.bounds(st, cnt - 1, st.live[base][2], where, "last of the %s list of %s" % (show(cnt)[:30], m))
                hs = self.elements(st, base, cnt)
                if st.old:
                    u = base in st.old or hs is not None and any(self.is_old(st, h) for h in hs)
                    self.sink("reset", where, not u, "%s still reads, after reset, what steps before it left in the list created at %s" % (m, st.live[base][3]) if u else m)
                if hs is None:
                    u = st.unw.get(base) == frozenset()
                    self.sink("written", where, not u, "%s reads a list nothing has been written to since it was created at %s" % (m, st.live[base][3]) if u else m)
                else:
                    for h in hs:
                        u = self.is_unwritten(st, h)
                        self.sink("written", where, not u, "%s reads an element nothing has been written to since it was created at %s" % (m, self.origin(st, h)) if u else m)
        for v in outs:
            self.written(st, v)
        if m == "fill_buffer":
            argv.append(self.scalar(st, i, o[2]))
        st.log = st.log + (("nbody_engine::" + m, tuple(argv), where),)
        return [st]

    def scalar(self, st, i, op):
        r = self.S.root(op)
        if r[0] == "i" and self.f.insts[r[1]].op == "alloca":
            ss = [s for s in self.S.stores() if self.S.root(s.ops[1]) == r]
            cs = {self.S.ev(s.ops[0]).const() for s in ss}
            if len(cs) == 1 and None not in cs:
                return topoly(cs.pop())
        if r[0] == "g":
            import vecflow
            c = self.S.const_load(self.S.ev(op), vecflow.FakeUse(i, "double"))
            if c is not None:
                return c
        return atom("wsval", self.f.name, i.id, 0)

    def origin(self, st, v):
        if v in st.live:
            return st.live[v][3]
        a = single_atom(v)
        if a is not None and akey(a)[0] == "ld":
            b, _ = self.split(akey(a)[1])
            if b in st.live:
                return st.live[b][3]
        return "?"
