"""Path-sensitive typestate dataflow (property simulation) over the control-flow graph.

Every program point carries a set of abstract states; a state keeps the branch facts and call outcomes that led to it, the
typestate of the tracked objects and the events of the operations that matter.  States are propagated along edges until no
new state appears.  At a loop header facts about values computed inside the loop are dropped and the events of the finished
iteration are set aside, so every iteration is covered by one generic iteration.  Nothing is run and no solver is used."""
from poly import *
from fractions import Fraction
import sym
from sym import Sym

LIMIT = 12000


class Unhandled(Exception):
    pass


class State:
    __slots__ = ("obj", "str", "mem", "facts", "res", "ev", "failed", "phi", "ts")

    def __init__(self):
        self.obj, self.str, self.mem, self.facts, self.res, self.phi, self.ts = {}, {}, {}, {}, {}, {}, {}
        self.ev, self.failed = (), ()

    def copy(self):
        s = State.__new__(State)
        s.obj = {k: dict(v) for k, v in self.obj.items()}
        for n in ("str", "mem", "facts", "res", "phi", "ts"):
            setattr(s, n, dict(getattr(self, n)))
        s.ev, s.failed = self.ev, self.failed
        return s

    def key(self):
        d = lambda x: tuple(sorted(((repr_key(k), repr_key(v)) for k, v in x.items())))
        return (tuple(sorted((repr_key(k), d(v)) for k, v in self.obj.items())), d(self.str), d(self.mem), d(self.facts), d(self.res), d(self.phi), d(self.ts), repr_key(self.ev), self.failed)

    def o(self, h):
        return self.obj.setdefault(h, {})

    def event(self, *e):
        self.ev = self.ev + (e,)


def repr_key(x):
    if isinstance(x, P):
        return ("P",) + tuple(repr(y) for y in x.key)
    if isinstance(x, (tuple, list)):
        return "(" + ",".join(str(repr_key(y)) for y in x) + ")"
    if isinstance(x, dict):
        return str(sorted((str(repr_key(k)), str(repr_key(v))) for k, v in x.items()))
    return repr(x)


class Esp:
    def __init__(self, mod, f, this_class=None, args=None, given=None):
        self.mod, self.f = mod, f
        self.S = Sym(f, this_class=this_class, args=args)
        for a, v in (given or {}).items():
            self.S.given[a] = topoly(v)
        self.exits = []           # (state, return value or None, instruction)
        self.iters = {}           # loop header -> [(state, events of one iteration)]
        self.snaps = []
        self.heads = {}           # loop header -> states entering it
        self.positive = set()     # atoms known to be > 0
        self.nonneg = set()

    # ---- values -------------------------------------------------------------------------------
    def value(self, st, p):
        p = topoly(p)
        for _ in range(12):
            mp = {}
            for a in p.atoms(deep=True):
                k = akey(a)
                if a in st.res:
                    mp[a] = st.res[a]
                elif k[0] == "ld":
                    ad = self.value(st, k[1]) if any(x in st.res for x in k[1].atoms(deep=True)) else k[1]
                    if ad in st.mem:
                        mp[a] = st.mem[ad]
                elif k[0] == "ind":
                    t = self.tri(st, k[1])
                    if t is not None:
                        mp[a] = ONE if t else ZERO
            mp = {a: v for a, v in mp.items() if single_atom(v) != a}
            if not mp:
                return p
            p = subst(p, mp)
        return p

    def val(self, st, op):
        if op[0] == "i":
            i = self.f.insts[op[1]]
            if i.id in st.phi:
                return st.phi[i.id]
            if i.op in ("zext", "sext", "trunc", "freeze") and self.known(st, i.ops[0]):
                return self.val(st, i.ops[0])
            if i.op in ("add", "sub") and (self.known(st, i.ops[0]) or self.known(st, i.ops[1])):
                x, y = self.val(st, i.ops[0]), self.val(st, i.ops[1])
                return x + y if i.op == "add" else x - y
            if i.op == "select":
                t = None
                if self.known(st, i.ops[0]):
                    q = self.val(st, i.ops[0]).const()
                    t = None if q is None else q != 0
                if t is None:
                    t = self.tri(st, self.S.cond(i.ops[0]))
                if t is not None:
                    return self.val(st, i.ops[1] if t else i.ops[2])
            if i.op in ("and", "or", "xor") and any(self.known(st, o) for o in i.ops):
                x, y = self.val(st, i.ops[0]).const(), self.val(st, i.ops[1]).const()
                if i.op == "and" and (x == 0 or y == 0):
                    return ZERO
                if x is not None and y is not None:
                    return topoly({"and": int(x) & int(y), "or": int(x) | int(y), "xor": int(x) ^ int(y)}[i.op])
                if i.ty == "i1" and i.op == "or" and (x == 1 or y == 1):
                    return ONE
            if i.op == "icmp" and i.d["pred"] in ("eq", "ne") and any(self.known(st, o) for o in i.ops):
                d = (self.val(st, i.ops[0]) - self.val(st, i.ops[1])).const()
                if d is not None:
                    return ONE if (d == 0) == (i.d["pred"] == "eq") else ZERO
            if i.ty == "i1" and i.op in ("icmp", "fcmp", "and", "or", "xor"):
                t = self.tri(st, self.S.cond(op))
                if t is not None:
                    return ONE if t else ZERO
        return self.value(st, self.S.ev(op))

    def same(self, st, p, q):
        """are two forms equal under the equalities this path has established"""
        d = self.value(st, topoly(p) - topoly(q))
        for f, b in st.facts.items():
            if d.iszero():
                return True
            if f[0] in ("eq", "ne") and (f[0] == "eq") == b:
                for m, k in f[1].t.items():
                    if len(m) == 1 and m[0][1] == 1:
                        a = m[0][0]
                        d = subst(d, {a: topoly(P({((a, 1),): 1})) - f[1] * (Fraction(1) / k)})
                        break
        return d.iszero()

    def known(self, st, op, depth=4):
        """does the value depend on something this path has fixed (a phi, a member stored before)"""
        if op[0] != "i":
            return False
        if op[1] in st.phi:
            return True
        i = self.f.insts[op[1]]
        return depth > 0 and i.op in ("zext", "sext", "trunc", "freeze", "add", "sub", "and", "or", "xor", "icmp", "select") and any(self.known(st, o, depth - 1) for o in i.ops)

    def sign(self, p):
        """'+', '-', '0', '>=' , '<=' or None"""
        c = p.const()
        if c is not None:
            return "0" if c == 0 else ("+" if c > 0 else "-")
        pos = neg = strict = False
        for m, c in p.t.items():
            s = None
            if m == ():
                s = "+"
            elif all(self.is_pos(a) for a, e in m):
                s = "+"
            elif all(self.is_pos(a) or self.is_nonneg(a) for a, e in m):
                s = ">="
            if s is None:
                return None
            if s == "+":
                strict = True
            if c > 0:
                pos = True
            else:
                neg = True
        if pos and neg:
            return None
        return ("+" if strict else ">=") if pos else ("-" if strict else "<=")

    def is_pos(self, a):
        return a in self.positive or akey(a)[0] == "delta"

    def is_nonneg(self, a):
        return a in self.nonneg or akey(a)[0] == "iv"

    def tri(self, st, c):
        k = c[0]
        if k == "true":
            return True
        if k == "false":
            return False
        if k in ("and", "or"):
            v = [self.tri(st, x) for x in c[1]]
            if k == "and":
                return False if False in v else (True if all(x is True for x in v) else None)
            return True if True in v else (False if all(x is False for x in v) else None)
        p = self.value(st, c[1])
        if k in ("b", "nb"):
            q = p.const()
            if q is not None:
                return (q != 0) == (k == "b")
            c2 = (k, p)
        else:
            s = self.sign(p)
            if k == "eq" and s in ("+", "-", "0"):
                return s == "0"
            if k == "ne" and s in ("+", "-", "0"):
                return s != "0"
            if k == "lt" and s in ("+", ">=", "0"):
                return False
            if k == "lt" and s == "-":
                return True
            if k == "le" and s in ("-", "<=", "0"):
                return True
            if k == "le" and s == "+":
                return False
            c2 = cmp(k, p)
            if c2[0] in ("true", "false"):
                return c2[0] == "true"
        if c2 in st.facts:
            return st.facts[c2]
        n = cnot(c2)
        if n in st.facts:
            return not st.facts[n]
        # implied by equalities / orderings
        for f, b in st.facts.items():
            if f[0] in ("eq", "ne", "lt", "le", "b", "nb") and c2[0] in ("eq", "ne", "lt", "le"):
                if f[0] in ("b", "nb"):
                    continue
                if (f[0] == "eq") == b and f[0] in ("eq", "ne"):       # fact: f[1] == 0
                    r = ratio(c2[1], f[1])
                    if r is not None:
                        return c2[0] in ("eq", "le")
                if f[0] in ("lt", "le"):
                    g = f if b else cnot(f)
                    r = ratio(c2[1], g[1])
                    if r is not None and r != 0:
                        if r > 0:
                            if g[0] == "lt":
                                return c2[0] in ("lt", "le", "ne")
                            if c2[0] == "le":
                                return True
                        else:
                            if g[0] == "lt":
                                return c2[0] == "ne"
                            if c2[0] == "lt":
                                return False
        return None

    def assume(self, st, c, truth):
        """state with the condition recorded, or None when it contradicts what is known"""
        t = self.tri(st, c)
        if t is not None:
            return st if t == truth else None
        st = st.copy()
        self._record(st, c, truth)
        return st

    split = False             # follow the ways a disjunction can hold as separate paths

    def assumes(self, st, c, truth):
        """the states in which the condition has this truth value"""
        if self.split and c[0] in ("and", "or") and (c[0] == "or") == truth and self.tri(st, c) is None:
            out, rest = [], [st]
            for x in c[1]:
                nxt = []
                for s in rest:
                    out += self.assumes(s, x, truth)
                    nxt += self.assumes(s, x, not truth)
                rest = nxt
            return out
        if self.split and c[0] in ("and", "or") and self.tri(st, c) is None:
            rest = [st]
            for x in c[1]:
                rest = [y for s in rest for y in self.assumes(s, x, truth)]
            return rest
        x = self.assume(st, c, truth)
        return [x] if x is not None else []

    def _record(self, st, c, truth):
        if c[0] == "and" and truth or c[0] == "or" and not truth:
            for x in c[1]:
                self._record(st, x, truth)
            return
        if c[0] in ("and", "or"):
            # remaining undecided literal of a disjunction
            left = [x for x in c[1] if self.tri(st, x) is None]
            if len(left) == 1:
                self._record(st, left[0], truth)
            return
        p = self.value(st, c[1])
        c2 = (c[0], p) if c[0] in ("b", "nb") else cmp(c[0], p)
        if c2[0] not in ("true", "false"):
            st.facts[c2] = truth
            a = single_atom(p) if c2[0] in ("b", "nb", "eq", "ne") else None
            if c2[0] in ("b", "nb") and a is not None:
                if (c2[0] == "b") == truth:
                    self.learn(st, a, True)
                else:
                    if akey(a)[0] != "arg":
                        st.res[a] = ZERO
                    self.learn(st, a, False)
            if (c2[0] == "eq") == truth and c2[0] in ("eq", "ne"):
                k0 = p.t.get((), 0)
                at = [(m, k) for m, k in p.t.items() if m != ()]
                if len(at) == 1 and len(at[0][0]) == 1 and at[0][0][0][1] == 1 and akey(at[0][0][0][0])[0] != "arg":
                    st.res[at[0][0][0][0]] = topoly(-k0 / at[0][1] if isinstance(k0, Fraction) else Fraction(-k0) / at[0][1])

    def learn(self, st, a, truth):
        """a call result became known to be true/false: hook"""

    # ---- hooks --------------------------------------------------------------------------------
    def init(self):
        return State()

    def on_call(self, st, i, name):
        return [st]

    def on_store(self, st, i):
        return st

    def on_load(self, st, i):
        return st

    # ---- propagation --------------------------------------------------------------------------
    def run(self):
        f = self.f
        work = [(f.entry, None, self.init())]
        seen = {}
        n = 0
        while work:
            b, frm, st = work.pop()
            n += 1
            if n > LIMIT:
                raise Unhandled("too many states in %s" % f.short)
            B = f.blocks[b]
            L = f.loops.get(b)
            if frm is not None:
                st = st.copy()
                phis = {}
                for i in B.insts:
                    if i.op == "phi":
                        v = [v for p, v in i.d["in"] if p == frm]
                        if v and (not (L and frm in L.blocks) or self.flag(i)):
                            phis[i.id] = self.val(st, v[0])
                        else:
                            phis[i.id] = None
                keep = {}
                for k, v in phis.items():
                    if v is None or L is not None and not (self.flag(f.insts[k]) and v.const() is not None):
                        st.phi.pop(k, None)
                    else:
                        st.phi[k] = keep[k] = v
                if L:
                    if frm in L.blocks:
                        st = self.back(st, b, L)
                        if st is None:
                            continue
                        st.phi.update(keep)
                    else:
                        self.heads.setdefault(b, []).append(st)
                        st.event("enter", b)
                        snap = (dict(st.mem), dict(st.str))
                        if snap not in self.snaps:
                            self.snaps.append(snap)
                        st.ts[("snap", b)] = self.snaps.index(snap)
            k = (b, st.key())
            if k in seen:
                continue
            seen[k] = 1
            self.block(B, st, work)
        return self

    def back(self, st, h, L):
        at = max(k for k, e in enumerate(st.ev) if e == ("enter", h))
        self.iters.setdefault(h, []).append((st, st.ev[at + 1:]))
        st = st.copy()
        st.ev = st.ev[:at + 1]
        inl = {i.id for b in L.blocks for i in self.f.blocks[b].insts}

        def inside(p):
            for a in p.atoms(deep=True):
                k = akey(a)
                if k[0] in ("iv", "acc", "fin", "rec", "phi", "vcall", "call") and self.in_loop(k, inl, h):
                    return True
                if k[0] == "ld" and len(k) > 3 and k[3] != 0:
                    return True
            return False
        st.facts = {c: v for c, v in st.facts.items() if not inside(c[1])}
        st.res = {a: v for a, v in st.res.items() if not inside(P({((a, 1),): 1})) and not inside(v)}
        st.phi = {k: v for k, v in st.phi.items() if k not in inl}
        st.mem = {k: v for k, v in st.mem.items() if not inside(topoly(v)) and not inside(k)}
        # failures of this iteration are judged with the iteration; locals changed in the loop are unknown
        if not self.outer(h):
            st.failed = tuple(x for x in st.failed if x[1] not in inl)
        else:
            st.failed = tuple(dict.fromkeys(st.failed))
        mem, strs = self.snaps[st.ts[("snap", h)]]
        st.mem = {k: v for k, v in st.mem.items() if mem.get(k) == v}
        st.str = {k: v for k, v in st.str.items() if strs.get(k) == v}
        return self.widen(st, h, L)

    def outer(self, h):
        """is the loop nested in another one"""
        return any(h in M.blocks for g, M in self.f.loops.items() if g != h)

    def flag(self, i):
        """a loop-carried flag: every value that flows into it around the loop is a truth value"""
        return i.op == "phi" and i.ty in ("i1", "i8")

    def widen(self, st, h, L):
        for k in [k for k in st.ts if k[0] == "st"]:
            del st.ts[k]
        return st

    def in_loop(self, k, inl, h):
        if k[0] == "iv":
            return k[2] == h
        return k[-1] in inl if k[0] != "call" else k[-1] in inl

    def block(self, B, st, work):
        states = [st]
        for i in B.insts:
            if i.op in ("call", "invoke"):
                if sym.is_dbg(i):
                    continue
                name = self.mod.callee_short(i) if i.callee else None
                nxt = []
                for s in states:
                    nxt += self.on_call(s, i, name) if not (i.d.get("intr") and not self.mem_intr(i)) else [s]
                states = nxt
            elif i.op == "store":
                states = [self.on_store(s, i) for s in states]
            elif i.op == "load":
                for s in states:
                    self.on_load(s, i)
        t = B.term
        for s in states:
            if t.op == "br" and len(t.ops) == 3:
                c = self.S.cond(t.ops[0])
                fb, tb = t.ops[1][1], t.ops[2][1]
                pv = None
                if self.known(s, t.ops[0]):
                    q = self.val(s, t.ops[0]).const()
                    pv = None if q is None else q != 0
                for truth, to in ((True, tb), (False, fb)):
                    if pv is not None:
                        if pv == truth:
                            work.append((to, B.id, s))
                        continue
                    for x in self.assumes(s, c, truth):
                        work.append((to, B.id, x))
            elif t.op == "ret":
                self.exits.append((s, self.val(s, t.ops[0]) if t.ops else None, t))
            elif t.op == "unreachable":
                continue
            elif t.op == "switch":
                q = self.val(s, t.ops[0])
                if q.const() is not None:
                    work.append((dict((c, d) for c, d in t.d["cases"]).get(int(q.const()), t.d["def"]), B.id, s))
                    continue
                rest = s
                for c, d in t.d["cases"]:
                    if rest is None:
                        break
                    x = self.assume(rest, cmp("eq", q - topoly(c)), True)
                    if x is not None:
                        work.append((d, B.id, x))
                    rest = self.assume(rest, cmp("eq", q - topoly(c)), False)
                if rest is not None:
                    work.append((t.d["def"], B.id, rest))
            else:
                for to in B.succ:
                    work.append((to, B.id, s))

    def mem_intr(self, i):
        return "memcpy" in (i.callee or "") or "memset" in (i.callee or "") or "memmove" in (i.callee or "")


# ---- Qt files, text streams and strings -------------------------------------------------------------------------------

def flat(*parts):
    out = []
    for p in parts:
        for x in (p if isinstance(p, tuple) and p and isinstance(p[0], tuple) else (p,)):
            if out and x[0] == "lit" and out[-1][0] == "lit":
                out[-1] = ("lit", out[-1][1] + x[1])
            elif x != ("lit", ""):
                out.append(x)
    return tuple(out)


class QtFlow(Esp):
    """typestate of QFile / QTextStream / QString objects; fallible operations fork into success and failure"""

    def fork(self, st, i, kind, ok, bad):
        """states for success and failure of a fallible call; ok/bad: result value or None"""
        a, b = st.copy(), st.copy()
        r = single_atom(self.S.inst(i)) if i.ty != "void" else None
        if r is not None:
            if ok is not None:
                a.res[r] = topoly(ok)
            if bad is not None:
                b.res[r] = topoly(bad)
        b.failed = b.failed + ((kind, i.id),)
        return a, b

    # strings
    def sv(self, st, h):
        """value of the QString (or C string) at h"""
        h = topoly(h)
        if h in st.str:
            return st.str[h]
        a = single_atom(h)
        if a is not None and akey(a)[0] == "g":
            G = self.mod.globals.get(akey(a)[1])
            if G and "str" in G:
                return (("lit", G["str"]),)
            if G and G.get("init", [""])[0] == "zero":
                return (("lit", ""),)
        return (("obj", h),)

    def strict_local(self, h):
        return any(akey(m[0][0])[0] == "alloca" for m in h.t if len(m) == 1)

    def stream_of(self, st, p):
        return self.value(st, p)

    def on_store(self, st, i):
        a = self.value(st, self.S.store_addr(i)) if hasattr(self.S, "store_addr") else self.value(st, self.S.ev(i.ops[1]))
        v = self.val(st, i.ops[0])
        st = st.copy()
        if self.strict_local(a):
            st.mem[a] = v
        else:
            st.event("store", a, v, i.id)
            for k in [k for k in st.ts if k[0] == "st" and (a - k[1]).const() is None]:
                del st.ts[k]
            st.ts[("st", a)] = v
        return st

    def on_load(self, st, i):
        """a member stored before on this path"""
        st.phi.pop(i.id, None)
        if any(k[0] == "st" for k in st.ts):
            v = st.ts.get(("st", self.val(st, i.ops[0])))
            if v is not None:
                st.phi[i.id] = v

    def forget(self, st):
        for k in [k for k in st.ts if k[0] == "st"]:
            del st.ts[k]

    def on_call(self, st, i, name):
        S = self.S
        ev = lambda k: self.val(st, i.ops[k])
        n = name or ""
        c = i.callee or ""
        res = single_atom(S.inst(i)) if i.ty != "void" else None
        n = n.split("<")[0] + ("::" + n.rsplit("::", 1)[1] if "<" in n and "::" in n.rsplit(">", 1)[-1] else "") if "<" in n and not n.endswith("<<") and "operator<" not in n else n
        if n.startswith(("QMessageLogger::", "QDebug::")) or "QDebug" in c:
            return [st]
        st = st.copy()
        m = n.split("::")[-1]
        cls = n.split("::")[0]
        if cls in ("QFile", "QFileDevice", "QIODevice"):
            return self.file_op(st, i, m, ev, res, c)
        if cls == "QTextStream":
            return self.text_op(st, i, m, ev, res, c)
        if cls == "QString" or n == "operator+":
            return self.string_op(st, i, m, ev, res, c)
        if n == "operator<<" and "QTextStream" in c and len(i.ops) == 2 and i.ops[1][0] == "fn":
            if res is not None:
                st.res[res] = ev(0)
            w = self.mod.demangle(i.ops[1][1])
            if "endl" in w:
                st.event("emit", ev(0), (("lit", "\n"),), i.id)
            if "endl" in w or "flush" in w:
                return self.tflush(st, i, ev(0))
            st.event("emit", ev(0), (("?", i.id),), i.id)
            return [st]
        if m in ("endl", "flush") and "QTextStream" in (c + self.mod.demangle(c)):
            if res is not None:
                st.res[res] = ev(0)
            if m == "endl":
                st.event("emit", ev(0), (("lit", "\n"),), i.id)
            return self.tflush(st, i, ev(0))
        if (c.startswith("_ZorN9QIODevice") or cls == "QFlags" and m == "operator|") and res is not None:
            x, y = ev(0), ev(1)
            if cls == "QFlags" and x.const() is None:
                x = self.value(st, st.mem.get(x, x))
            if x.const() is not None and y.const() is not None:
                st.res[res] = topoly(int(x.const()) | int(y.const()))
            return [st]
        if n == "QChar::QChar":
            st.mem[ev(0)] = ev(1)
            return [st]
        if n == "QFlags::QFlags":
            st.mem[ev(0)] = ev(1)
            return [st]
        if cls in ("QList", "QStringList") and m in ("size", "count", "length") and res is not None:
            st.res[res] = atom("lsize", ev(0))
            return [st]
        if cls in ("QList", "QStringList") and m in ("operator[]", "at", "value") and res is not None:
            l, k = ev(0), ev(1)
            st.res[res] = atom("lpart", l, k)
            st.event("part", l, k, self.tri(st, cmp("lt", k - atom("lsize", l))), i.id)
            return [st]
        return self.other(st, i, name, ev, res)

    def other(self, st, i, name, ev, res):
        if not (name or "").startswith("Q"):
            self.forget(st)
        st.event("call", name, tuple(ev(k) for k in range(len(i.ops))), i.id)
        return [st]

    def isopen(self, st, h):
        return st.o(h).get("open")

    def file_op(self, st, i, m, ev, res, c):
        h = ev(0)
        if m == "QFile":
            st.obj[h] = {"open": False, "name": self.sv(st, ev(1)) if len(i.ops) > 1 else None}
        elif m == "setFileName":
            st.o(h)["name"] = self.sv(st, ev(1))
        elif m == "open":
            mode = ev(1)
            a, b = self.fork(st, i, "open", 1, 0)
            nm = st.o(h).get("name")
            a.o(h).update(open=True, mode=mode, dirty=False, part=st.o(h).get("part", 0) + 1)
            a.event("open", h, nm, mode, True, i.id)
            b.o(h).update(open=False)
            b.event("open", h, nm, mode, False, i.id)
            return [a, b]
        elif m == "isOpen":
            o = st.o(h).get("open")
            if o is None:
                a, b = st.copy(), st.copy()
                a.o(h)["open"] = True
                b.o(h)["open"] = False
                a.res[res], b.res[res] = ONE, ZERO
                a.event("isopen", h, True, i.id)
                b.event("isopen", h, False, i.id)
                return [a, b]
            st.res[res] = ONE if o else ZERO
        elif m in ("close", "~QFile"):
            if m == "~QFile" and not st.o(h).get("open"):
                st.obj.pop(h, None)
                return [st]
            if st.o(h).get("dirty"):
                st.event("close-dirty", h, i.id)
            st.o(h).update(open=False, dirty=False)
            st.event("close", h, i.id)
            if m == "~QFile":
                st.obj.pop(h, None)
        elif m == "flush":
            a, b = self.fork(st, i, "flush", 1, 0)
            a.o(h)["dirty"] = False
            a.event("flush", h, True, i.id)
            b.event("flush", h, False, i.id)
            return [a, b] if st.o(h).get("dirty") is not False else [a]
        elif m == "write":
            if "ERK10QByteArray" in c or len(i.ops) < 3:
                st.event("write", h, None, None, True, i.id)
                st.o(h)["dirty"] = True
                return [st]
            src, sz = ev(1), ev(2)
            a, b = self.fork(st, i, "write", sz, sz - atom("delta", i.id))
            a.o(h)["dirty"] = True
            a.event("write", h, src, sz, True, i.id)
            b.o(h)["dirty"] = True
            b.event("write", h, src, sz, False, i.id)
            return [a, b]
        elif m == "read" and len(i.ops) == 3:
            dst, sz = ev(1), ev(2)
            a, b = self.fork(st, i, "read", sz, sz - atom("delta", i.id))
            a.event("read", h, dst, sz, True, i.id)
            b.event("read", h, dst, sz, False, i.id)
            return [a, b]
        elif m == "seek":
            a, b = self.fork(st, i, "seek", 1, 0)
            a.event("seek", h, ev(1), True, i.id)
            b.event("seek", h, ev(1), False, i.id)
            return [a, b]
        elif m == "pos":
            p = atom("pos", i.id)
            st.res[res] = p
            st.event("pos", h, p, i.id)
        elif m in ("errorString", "fileName", "size", "atEnd", "error", "exists"):
            pass
        else:
            st.event("fileop", h, m, i.id)
        return [st]

    def text_op(self, st, i, m, ev, res, c):
        h = ev(0)
        if m == "QTextStream":
            st.obj[h] = {"device": ev(1) if len(i.ops) > 1 else None}
        elif m == "setDevice":
            st.o(h)["device"] = ev(1)
            st.event("device", h, ev(1), i.id)
        elif m == "operator<<":
            if res is not None:
                st.res[res] = h
            st.o(h)["pending"] = True
            sig = c[c.index("ls") + 2:] if "ls" in c else ""
            x = ev(1)
            if "PFRS_S0_E" in sig or "PF" in sig:
                a = single_atom(x)
                fn = akey(a)[1] if a is not None and akey(a)[0] == "fnptr" else ""
                d = self.mod.demangle(fn) if fn else ""
                if "endl" in d:
                    st.event("emit", h, (("lit", "\n"),), i.id)
                    return self.tflush(st, i, h)
                if "flush" in d:
                    return self.tflush(st, i, h)
                st.event("emit", h, (("?", i.id),), i.id)
            elif sig.startswith("EPKc"):
                st.event("emit", h, self.sv(st, x), i.id)
            elif sig.startswith("ERK7QString") or sig.startswith("ERK10QByteArray"):
                st.event("emit", h, self.sv(st, x), i.id)
            elif sig.startswith(("E5QChar", "Ec")):
                q = x.const()
                st.event("emit", h, ((("lit", chr(int(q))),) if q is not None else (("chr", x),)), i.id)
            else:
                st.event("emit", h, ((("num", x) if not sig.startswith("Ed") and not sig.startswith("Ef") else ("real", x)),), i.id)
        elif m == "flush":
            return self.tflush(st, i, h)
        elif m == "status":
            st.res[res] = topoly(2) if st.o(h).get("bad") else ZERO
        elif m in ("setRealNumberPrecision", "setRealNumberNotation", "setNumberFlags", "setFieldWidth", "setPadChar", "setIntegerBase"):
            st.event("cfg", h, m, ev(1), i.id)
        elif m == "~QTextStream":
            if st.o(h).get("pending"):
                st.event("tlost", h, i.id)
            st.event("tend", h, i.id)
            st.obj.pop(h, None)
        elif m == "readLine":
            if i.ty == "void" and i.ops:
                st.str[h] = (("line", i.id),)
        else:
            if m not in ("atEnd",):
                st.event("textop", h, m, i.id)
        return [st]

    def tflush(self, st, i, h):
        st.o(h)["pending"] = False
        a, b = self.fork(st, i, "tflush", None, None)
        a.event("tflush", h, True, i.id)
        b.event("tflush", h, False, i.id)
        b.o(h)["bad"] = True
        return [a, b]

    def string_op(self, st, i, m, ev, res, c):
        if m == "operator+":
            a, b = self.sv(st, ev(1)), self.sv(st, ev(2))
            st.str[ev(0)] = flat(a, b)
        elif m == "number":
            x = ev(1)
            base = ev(2).const() if len(i.ops) > 2 else 10
            st.str[ev(0)] = (("num", x),) if base == 10 else (("?", i.id),)
        elif m == "QString":
            if len(i.ops) == 2:
                st.str[ev(0)] = self.sv(st, ev(1))
            elif len(i.ops) == 1:
                st.str[ev(0)] = (("lit", ""),)
            else:
                st.str[ev(0)] = (("?", i.id),)
        elif m in ("fromUtf8", "fromLatin1", "fromAscii", "fromLocal8Bit"):
            st.str[ev(0)] = self.sv(st, ev(1))
        elif m == "operator=":
            st.str[ev(0)] = self.sv(st, ev(1))
            if res is not None:
                st.res[res] = ev(0)
            if not self.strict_local(ev(0)):
                st.event("sassign", ev(0), st.str[ev(0)], i.id)
        elif m == "clear":
            st.str[ev(0)] = (("lit", ""),)
            st.event("sassign", ev(0), (("lit", ""),), i.id)
        elif m in ("append", "operator+="):
            st.str[ev(0)] = flat(self.sv(st, ev(0)), self.sv(st, ev(1)))
            if res is not None:
                st.res[res] = ev(0)
        elif m == "~QString":
            st.str.pop(ev(0), None)
        elif m in ("toDouble", "toULongLong", "toLongLong", "toInt", "toUInt", "toLong", "toULong", "toFloat"):
            return self.conv(st, i, m, ev, res)
        else:
            return self.other_string(st, i, m, ev, res, c)
        return [st]

    def conv(self, st, i, m, ev, res):
        src = self.sv(st, ev(0))
        okp = ev(1)
        a, b = self.fork(st, i, "conv", None, None)
        for s, good in ((a, True), (b, False)):
            if not okp.iszero():
                s.mem[okp] = ONE if good else ZERO
            s.event("conv", src, m, good, i.id)
        return [a, b]

    def sep(self, st, op, c):
        """separator a string is split at"""
        v = self.val(st, op)
        if "splitE5QChar" in c:
            q = v.const()
            return (("lit", chr(int(q))),) if q is not None else (("chr", v),)
        return self.sv(st, v)

    def other_string(self, st, i, m, ev, res, c):
        if m == "split" and i.ty == "void":
            st.event("split", ev(0), self.sv(st, ev(1)), self.sep(st, i.ops[2], c), i.id)
            st.facts = {k: v for k, v in st.facts.items() if atom("lsize", ev(0)) not in (k[1],) and single_atom(atom("lsize", ev(0))) not in k[1].atoms(deep=True)}
            return [st]
        if m in ("startsWith", "operator==", "compare") and res is not None:
            st.event("cmp", m, self.sv(st, ev(0)), self.sv(st, ev(1)), P({((res, 1),): 1}), i.id)
            return [st]
        if m in ("mid", "left") and i.ty == "void" and len(i.ops) >= 3:
            p, n = (ev(2), ev(3) if len(i.ops) > 3 else topoly(-1)) if m == "mid" else (ZERO, ev(2))
            st.str[ev(0)] = (("sub", self.sv(st, ev(1)), p, n),)
            return [st]
        if m == "truncate" and len(i.ops) == 2:
            st.str[ev(0)] = (("sub", self.sv(st, ev(0)), ZERO, ev(1)),)
            return [st]
        if m in ("trimmed", "simplified") and i.ty == "void" and len(i.ops) == 2:
            st.str[ev(0)] = (("trim", self.sv(st, ev(1))),)
            return [st]
        if m == "indexOf" and res is not None and "RKS_" in c + "RKS_" and len(i.ops) >= 2:
            st.event("index", self.sv(st, ev(0)), self.sv(st, ev(1)), P({((res, 1),): 1}), ev(2).const() if len(i.ops) > 2 else 0, i.id)
            return [st]
        if m not in ("isEmpty", "size", "length", "isNull"):
            st.event("strop", m, i.id)
        # results delivered in a hidden first argument are unknown strings
        if i.ty == "void" and i.ops:
            st.str[ev(0)] = (("?", i.id),)
        return [st]
