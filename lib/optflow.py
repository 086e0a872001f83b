"""Propagation of option values through the code that builds objects from an option map.

The function is specialised for an assumption on some options (for example solver = "rk4"): a test of an assumed
option is decided by constant propagation and only the branch it selects is followed; a test of anything else is
followed both ways and remembered as a fact.  Values are small terms over the options:

    ('c', n) ('f', x) ('null',) ('s', text)          constants
    ('v', x)                                          a QVariant holding x
    ('opt', key, default)                             the option `key`, or `default` when it is not given
    ('to', kind, v)                                   a conversion of a QVariant (kind: Double, UInt, ...)
    ('p', base, off)                                  an address
    ('map', entries)                                  the option map with entries overridden / removed
    (op, a, b ...)                                    arithmetic;  ('?', n) unknown
"""
import os

MAXPATHS = 400


class Many(Exception):
    pass


class Path:
    __slots__ = ("mem", "facts", "calls", "fresh")

    def __init__(self):
        self.mem = {}; self.facts = (); self.calls = (); self.fresh = 0

    def copy(self):
        p = Path(); p.mem = dict(self.mem); p.facts = self.facts; p.calls = self.calls; p.fresh = self.fresh
        return p

    def unknown(self, *tag):
        self.fresh += 1
        return ("?", self.fresh) + tag


def const(v):
    if v is None:
        return None
    if v[0] in ("c", "f"):
        return v[1]
    if v == ("null",):
        return 0
    return None


def mentions(v, key):
    if isinstance(v, tuple):
        if v[:1] == ("opt",) and v[1] == key:
            return True
        return any(mentions(x, key) for x in v[1:])
    return False


def options(v, out=None):
    out = set() if out is None else out
    if isinstance(v, tuple):
        if v[:1] == ("opt",):
            out.add(v[1])
        for x in v[1:]:
            options(x, out)
    return out


class Walk:
    def __init__(self, mod, assume, summary=(), maxdepth=8, keep=()):
        self.keep = set(keep)
        self.mod = mod; self.assume = assume; self.summary = set(summary); self.maxdepth = maxdepth
        self.frame = 0; self.npaths = 0; self.seen = set()

    # --- values --------------------------------------------------------------------------------
    def gstr(self, name):
        g = self.mod.globals.get(name)
        if g is None:
            return None
        s = g.get("str")
        return s

    def val(self, env, st, op):
        k = op[0]
        if k == "c":
            return ("c", op[1])
        if k == "f":
            try:
                return ("f", float.fromhex(op[1]))
            except (ValueError, TypeError):
                return st.unknown()
        if k in ("null", "undef", "zero"):
            return ("null",)
        if k == "i":
            return env.get(("i", op[1])) or st.unknown()
        if k == "a":
            return env.get(("a", op[1])) or st.unknown()
        if k == "g":
            s = self.gstr(op[1])
            return ("lit", s) if s is not None else ("p", ("g", op[1]), 0)
        if k == "gepc":
            b = self.val(env, st, op[1])
            if b[0] == "p":
                return ("p", b[1], b[2] + op[2])
            return st.unknown()
        if k == "fn":
            return ("fn", op[1])
        return st.unknown()

    # --- one function ---------------------------------------------------------------------------
    def run(self, f, args, st=None, depth=0):
        """-> list of (state, returned value)"""
        st = st or Path()
        self.frame += 1
        env = {("a", n): v for n, v in enumerate(args)}
        env["frame"] = self.frame
        self.seen.add(f.name)
        return self.walk(f, f.entry, None, env, st, depth, {}, None)

    def walk(self, f, blk, frm, env, st, depth, visits, stop):
        out = []
        work = [(blk, frm, env, st, visits)]
        while work:
            b, fr, env, st, vis = work.pop()
            if stop is not None and b == stop and fr is not None and fr != "enter":
                out.append((st, ("back",)))
                continue
            n, k, nf = vis.get(b, (0, 0, -1))
            n, k = (n, k + 1) if nf == len(st.facts) else (n + 1, 0)      # k: passes decided by constants alone
            if n > 2 or k > 40:
                out.append((st, ("cut",)))
                continue
            vis = dict(vis); vis[b] = (n, k, len(st.facts))
            B = f.blocks[b]
            new = {}
            for i in B.insts:
                if i.op != "phi":
                    break
                v = [v for p, v in i.d["in"] if p == fr]
                new[("i", i.id)] = self.val(env, st, v[0]) if v else (env.get(("i", i.id)) or st.unknown())
            env = dict(env); env.update(new)
            states = [(env, st)]
            for i in B.insts[:-1]:
                if i.op == "phi":
                    continue
                nxt = []
                for e, s in states:
                    nxt += self.step(f, i, e, s, depth)
                states = nxt
                if len(states) > MAXPATHS:
                    raise Many("too many paths through %s" % f.short)
            t = B.term
            for e, s in states:
                if t.op == "ret":
                    out.append((s, self.val(e, s, t.ops[0]) if t.ops else None))
                elif t.op == "br" and len(B.succ) == 1:
                    work.append((B.succ[0], b, e, s, vis))
                elif t.op == "br":
                    c = self.val(e, s, t.ops[0])
                    work += [(B.succ[0 if w else 1], b, e, x, vis) for w, x in self.truth(s, c)]
                elif t.op == "switch":
                    c = self.val(e, s, t.ops[0])
                    k = const(c)
                    if k is not None:
                        work.append((dict((x, y) for x, y in t.d["cases"]).get(k, t.d["def"]), b, e, s, vis))
                    else:
                        for x, y in t.d["cases"]:
                            z = s.copy(); z.facts += ((("eq", c, ("c", x)), True),)
                            work.append((y, b, e, z, vis))
                        z = s.copy(); z.facts += ((("other", c), True),)
                        work.append((t.d["def"], b, e, z, vis))
                elif t.op == "invoke":
                    for e2, s2 in self.step(f, t, e, s, depth):
                        work.append((B.succ[0], b, e2, s2, vis))
                elif t.op == "unreachable":
                    out.append((s, ("dead",)))
                else:
                    out.append((s, ("cut",)))
            if len(work) + len(out) > MAXPATHS:
                raise Many("too many paths through %s" % f.short)
        return out

    def truth(self, st, c):
        k = const(c)
        if k is not None:
            return [(bool(k), st)]
        if c[0] == "not":
            return [(not w, s) for w, s in self.truth(st, c[1])]
        for x, w in st.facts:
            if x == c:
                return [(w, st)]
        # a second comparison of the same text with another literal
        if c[0] == "streq":
            for x, w in st.facts:
                if w and x[0] == "streq" and x[1] == c[1] and x[2] != c[2]:
                    return [(False, st)]
        r = []
        for w in (True, False):
            z = st.copy(); z.facts += ((c, w),)
            r.append((w, z))
        return r

    # --- one instruction ------------------------------------------------------------------------
    def step(self, f, i, env, st, depth):
        op = i.op
        def put(v, s=None):
            e = dict(env); e[("i", i.id)] = v
            return [(e, s or st)]
        if op == "alloca":
            return put(("p", ("al", env["frame"], i.id), 0))
        if op in ("zext", "sext", "bitcast", "freeze", "addrspacecast", "ptrtoint", "inttoptr"):
            return put(self.val(env, st, i.ops[0]))
        if op in ("trunc", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "fneg"):
            v = self.val(env, st, i.ops[0]); k = const(v)
            if k is not None and op in ("sitofp", "uitofp"):
                return put(("f", float(k)))
            if k is not None and op in ("fptosi", "fptoui"):
                return put(("c", int(k)))
            if k is not None and op == "fneg":
                return put(("f", -k))
            if op == "trunc" and i.ty == "i1":
                return put(v)
            return put((op, i.ty, v))
        if op in ("add", "sub", "mul", "fadd", "fsub", "fmul", "fdiv", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr"):
            a = self.val(env, st, i.ops[0]); b = self.val(env, st, i.ops[1])
            x, y = const(a), const(b)
            if x is not None and y is not None:
                try:
                    r = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "fadd": lambda: x + y, "fsub": lambda: x - y,
                         "fmul": lambda: x * y, "fdiv": lambda: x / y, "udiv": lambda: x // y, "and": lambda: x & y, "or": lambda: x | y,
                         "xor": lambda: x ^ y, "shl": lambda: x << y, "urem": lambda: x % y}[op]()
                    return put(("f" if op[0] == "f" else "c", r))
                except (KeyError, ZeroDivisionError, TypeError):
                    pass
            if op == "xor" and y in (1, -1) and i.ty == "i1":
                return put(("not", a))
            if op in ("add", "fadd", "mul", "fmul") and repr(b) < repr(a):
                a, b = b, a
            return put((op, a, b))
        if op in ("icmp", "fcmp"):
            a = self.val(env, st, i.ops[0]); b = self.val(env, st, i.ops[1]); p = i.d["pred"]
            if i.ops[0] == ["null"]:
                a, b = b, a
            x, y = const(a), const(b)
            if y == 0 and a[0] == "p" and p in ("eq", "ne"):
                return put(("c", int(p == "ne")))
            if x is not None and y is not None:
                q = p[1:] if p[0] in "usof" and p not in ("une",) and len(p) == 3 else p
                r = {"eq": x == y, "ne": x != y, "une": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}.get(q)
                if r is not None:
                    return put(("c", int(r)))
            if p == "ne" and y == 0 and a[0] in ("to", "streq", "not") and i.d.get("ty0", "") in ("i1", "i8"):
                return put(a)
            if p == "ne":
                return put(("not", ("eq", a, b)))
            return put((p, a, b))
        if op == "select":
            c = self.val(env, st, i.ops[0])
            r = []
            for w, s in self.truth(st, c):
                r += put(self.val(env, s, i.ops[1 if w else 2]), s)
            return r
        if op == "getelementptr":
            b = self.val(env, st, i.ops[0])
            if b[0] == "p" and "coff" in i.d and not i.d.get("voff"):
                return put(("p", b[1], b[2] + i.d["coff"]))
            return put(st.unknown())
        if op == "load":
            a = self.val(env, st, i.ops[0])
            if a[0] == "p":
                k = (a[1], a[2])
                if k not in st.mem:
                    s = st.copy(); s.mem[k] = s.unknown("mem", a[1], a[2])
                    return put(s.mem[k], s)
                return put(st.mem[k])
            return put(st.unknown())
        if op == "store":
            a = self.val(env, st, i.ops[1])
            if a[0] == "p":
                s = st.copy(); s.mem[(a[1], a[2])] = self.val(env, st, i.ops[0])
                return [(env, s)]
            return [(env, st)]
        if op in ("call", "invoke"):
            return [(dict(list(env.items()) + ([(("i", i.id), v)] if v is not None else [])), s) for s, v in self.call(f, i, env, st, depth)]
        return put(st.unknown())

    # --- calls ----------------------------------------------------------------------------------
    def at(self, st, a):
        """the Qt value stored at address a"""
        if a is None:
            return None
        if a[0] == "lit":
            return ("s", a[1])
        if a[0] == "p":
            return st.mem.get((a[1], a[2]))
        return None

    def text(self, st, v):
        """a text argument: literal, or a QString object"""
        if v[0] == "lit":
            return ("s", v[1])
        x = self.at(st, v)
        return x if x is not None else ("?", "text", v)

    def setat(self, st, a, v):
        s = st.copy()
        if a[0] == "p":
            s.mem[(a[1], a[2])] = v
        return s

    def asvar(self, v):
        return v if v[0] in ("v", "opt", "var") else ("v", v)

    def lookup(self, st, m, key, default):
        M = self.at(st, m)
        if M is None or M[0] != "map" or key[0] != "s":
            return ("?", "lookup", M, key)
        for k, v in M[1]:
            if k == key[1]:
                if v == ("removed",):
                    return default
                return self.asvar(v)
        if any(k == "*" for k, v in M[1]):
            return default
        if key[1] in self.assume:
            x = self.assume[key[1]]
            return default if x is None else ("v", ("s", x))
        return ("opt", key[1], default)

    def override(self, st, m, key, v):
        M = self.at(st, m)
        if M is None or M[0] != "map" or key[0] != "s":
            return self.setat(st, m, ("?", "map"))
        e = tuple((k, x) for k, x in M[1] if k != key[1]) + ((key[1], v),)
        return self.setat(st, m, ("map", tuple(sorted(e, key=lambda t: t[0]))))

    def convert(self, kind, v):
        """QVariant::toX"""
        if v[0] == "v":
            x = v[1]
            if kind == "String":
                return x if x[0] == "s" else ("str", x)
            k = const(x)
            if x[0] == "s":
                try:
                    k = float(x[1]) if kind in ("Double", "Float", "Real") else int(x[1])
                except ValueError:
                    return ("to", kind, v)
            if k is not None:
                return ("f", float(k)) if kind in ("Double", "Float", "Real") else ("c", int(k))
        return ("to", kind, v)

    def call(self, f, i, env, st, depth):
        """-> [(state, value)]"""
        mod = self.mod
        if i.d.get("intr"):
            n = i.callee or ""
            if "type.test" in n:
                return [(st, ("c", 1))]
            if n.startswith("llvm.umin") or n.startswith("llvm.umax") or n.startswith("llvm.smin") or n.startswith("llvm.smax"):
                return [(st, (n.split(".")[1], self.val(env, st, i.ops[0]), self.val(env, st, i.ops[1])))]
            return [(st, st.unknown())]
        n = mod.callee_short(i) if i.callee else None
        a = [self.val(env, st, o) for o in i.ops]
        if n is None:
            return self.virtual(f, i, env, st, depth, a)
        last = n.split("::")[-1]
        cls = n[:-len(last) - 2] if "::" in n else ""
        at = lambda k: self.at(st, a[k])
        text = lambda k: self.text(st, a[k])
        if n in ("operator new", "malloc"):
            s = st.copy(); s.fresh += 1
            return [(s, ("p", ("new", s.fresh), 0))]
        if n in ("operator delete", "free"):
            s = st.copy(); s.calls += (("delete", a[0], i.loc),)
            return [(s, None)]
        if last.startswith("~") and (cls.startswith("Q") or cls.startswith("std::")):
            return [(st, None)]
        if cls == "QString":
            if last == "QString" and len(a) >= 2:
                return [(self.setat(st, a[0], text(1)), None)]
            if last == "QString":
                return [(self.setat(st, a[0], ("s", "")), None)]
            if last == "compare":
                k = [x for x in range(len(a)) if a[x][0] == "lit" or (a[x][0] == "p" and (self.at(st, a[x]) or ("?",))[0] != "?")]
                if len(k) == 2:
                    r = self.eqtext(text(k[0]), text(k[1]))
                    if r[0] == "c":
                        return [(st, ("c", 1 - r[1]))]
                return [(st, st.unknown("compare"))]
            if last in ("operator==", "operator!=") and len(a) == 3 and a[2][0] == "lit":      # QLatin1String by value
                a = [a[0], a[2]]
            if last in ("operator==", "operator!="):
                r = self.eqtext(text(0), text(1))
                return [(st, r if last == "operator==" else (("c", 1 - r[1]) if r[0] == "c" else ("not", r)))]
            if last in ("toLower", "trimmed", "simplified", "toUpper"):
                x = text(1)
                g = {"toLower": str.lower, "toUpper": str.upper}.get(last, str.strip)
                return [(self.setat(st, a[0], ("s", g(x[1])) if x[0] == "s" else (last, x)), None)]
            if last in ("isEmpty", "isNull"):
                x = text(0)
                return [(st, ("c", int(x[1] == "")) if x[0] == "s" else ("empty", x))]
            if last == "operator=":
                return [(self.setat(st, a[0], text(1)), a[0])]
            if last in ("length", "size", "count"):
                x = text(0)
                return [(st, ("c", len(x[1])) if x[0] == "s" else ("len", x))]
            if last == "startsWith":
                return [(st, ("starts", text(0), text(1)))]
            if last == "mid":
                return [(self.setat(st, a[0], ("mid", text(1), a[2], a[3] if len(a) > 3 else ("c", -1))), None)]
            if last == "split":
                return [(self.setat(st, a[0], ("split", text(1), self.sep(st, a[2]), a[3] if len(a) > 3 else ("c", 0))), None)]
            if last in ("toUtf8", "toLocal8Bit", "toLatin1"):
                return [(self.setat(st, a[0], text(1)), None)]
        if n in ("operator==", "operator!=") and len(a) == 2:
            x = self.eqtext(text(0), text(1))
            return [(st, x if n == "operator==" else (("c", 1 - x[1]) if x[0] == "c" else ("not", x)))]
        if cls == "QVariant":
            if last == "QVariant":
                if len(a) == 1:
                    v = ("var", "invalid")
                else:
                    v = self.variant(st, i, a[1])
                return [(self.setat(st, a[0], v), None)]
            if last == "operator=":
                x = at(1)
                x = ("?", "variant") if x is None else x
                if a[0][0] == "p" and a[0][1][0] == "slot":
                    return [(self.override(st, a[0][1][1], a[0][1][2], x), a[0])]
                return [(self.setat(st, a[0], x), a[0])]
            if last == "toString":
                x = at(1)
                x = x if x is not None else ("?", "variant")
                r = self.convert("String", x) if x != ("var", "invalid") else ("s", "")
                return [(self.setat(st, a[0], r), None)]
            if last.startswith("to") and len(last) > 3:
                x = self.slotval(st, a[0])
                x = x if x is not None else ("?", "variant")
                return [(st, self.convert(last[2:], x))]
            if last in ("isValid", "isNull"):
                x = self.slotval(st, a[0])
                return [(st, (last, x))]
        if cls.startswith("QMap<QString, QVariant>") or cls.startswith("QHash<QString, QVariant>"):
            if last in ("QMap", "QHash"):
                x = at(1) if len(a) > 1 else ("map", (("*", ("removed",)),))
                return [(self.setat(st, a[0], x or ("?", "map")), None)]
            if last == "operator=":
                x = at(1)
                return [(self.setat(st, a[0], x or ("?", "map")), a[0])]
            if last == "value":
                # value(sret, map, key, default)
                k = text(2)
                d = self.at(st, a[3]) if len(a) > 3 else ("var", "invalid")
                return [(self.setat(st, a[0], self.lookup(st, a[1], k, d if d is not None else ("?", "default"))), None)]
            if last == "operator[]" and i.ty == "ptr":
                return [(st, ("p", ("slot", a[0], text(1)), 0))]
            if last == "operator[]":
                return [(self.setat(st, a[0], self.lookup(st, a[1], text(2), ("var", "invalid"))), None)]
            if last == "insert":
                k = len(a) - 2
                x = self.at(st, a[k + 1])
                return [(self.override(st, a[k - 1], text(k), x if x is not None else ("?", "variant")), st.unknown())]
            if last in ("remove", "take"):
                return [(self.override(st, a[0 if last == "remove" else 1], text(1 if last == "remove" else 2), ("removed",)), st.unknown())]
            if last == "contains":
                v = self.lookup(st, a[0], text(1), ("absent",))
                if v == ("absent",):
                    return [(st, ("c", 0))]
                if v[0] == "v":
                    return [(st, ("c", 1))]
                return [(st, ("given", text(1)))]
        if cls.startswith("QList<QString>"):
            if last in ("size", "count", "length"):
                return [(st, ("size", at(0) or ("?", "list")))]
            if last in ("operator[]", "at"):
                k = 0 if i.ty == "ptr" else 1
                v = ("item", at(k) or ("?", "list"), a[k + 1])
                s = st.copy(); s.fresh += 1
                p = ("p", ("item", s.fresh), 0)
                if i.ty == "ptr":
                    s.mem[(p[1], 0)] = v
                    return [(s, p)]
                return [(self.setat(st, a[0], v), None)]
            if last in ("first", "last", "front", "back"):
                s = st.copy(); s.fresh += 1
                p = ("p", ("item", s.fresh), 0)
                s.mem[(p[1], 0)] = ("item", at(0) or ("?", "list"), ("c", 0 if last in ("first", "front") else -1))
                return [(s, p)]
        g = mod.funcs.get(i.callee)
        if g is not None and i.callee in self.summary:
            s = st.copy()
            v = ("made", n, tuple(self.at(st, x) or x for x in a))
            s.calls += (("call", n, tuple(self.at(st, x) or x for x in a), i.loc),)
            return [(s, v)]
        ctor = cls and last == cls.split("::")[-1]
        if g is not None and (ctor or not g.loops or len(g.insts) < 120) and depth < self.maxdepth and not n.startswith(("std::", "Q")) and self.small(g) and n not in self.keep:
            try:
                r = self.run(g, a, st, depth + 1)
            except RecursionError:
                raise Many("recursion")
            return [(s, v) for s, v in r if v not in (("dead",), ("cut",))]
        return self.opaque(i, n, a, st)

    def small(self, g):
        return len(g.insts) < 4000

    def opaque(self, i, n, a, st):
        s = st.copy()
        s.calls += (("call", n, tuple((self.at(st, x) or x) if x[0] == "p" and x[1][0] != "new" else x for x in a), i.loc, st.mem),)
        # what the callee may write through pointers to locals is unknown afterwards
        for x in a:
            if x[0] == "p" and x[1][0] == "al" and not n.split("::")[-1].startswith("operator<<"):
                par = self.constref(i, a.index(x))
                if not par:
                    s.mem[(x[1], x[2])] = s.unknown("out")
        s.fresh += 1
        return [(s, ("ret", n, s.fresh))]

    def constref(self, i, k):
        """the callee takes argument k by reference to const, as the mangled name says"""
        return "RK" in (i.callee or "")

    def virtual(self, f, i, env, st, depth, a):
        s = st.copy()
        tgt = None
        # the object's class is known when it was built on this path
        off = i.d.get("vslot")
        s.calls += (("vcall", None, tuple(a), i.loc),)
        s.fresh += 1
        return [(s, ("ret", None, s.fresh))]

    def slotval(self, st, a):
        if a[0] == "p" and a[1][0] == "slot":
            return self.lookup(st, a[1][1], a[1][2], ("var", "invalid"))
        return self.at(st, a)

    def sep(self, st, v):
        x = self.text(st, v)
        return x

    def variant(self, st, i, x):
        if x[0] == "lit":
            return ("v", ("s", x[1]))
        if x[0] == "p":
            y = self.slotval(st, x)
            return self.asvar(y) if y is not None else ("?", "variant")
        return ("v", x)

    def eqtext(self, x, y):
        if x[0] == "s" and y[0] == "s":
            return ("c", int(x[1] == y[1]))
        if y[0] != "s":
            x, y = y, x
        return ("streq", x, y)


def traced(v, known=()):
    """the term has no unknown part"""
    if isinstance(v, tuple):
        if v[:1] == ("?",) or (v[:1] == ("ret",) and v[1] not in known):
            return False
        return all(traced(x, known) for x in v[1:])
    return True


def classof(mod, st, v):
    """class of the object at v: the vtable its constructor left in it"""
    if v is None or v[0] != "p":
        return None
    w = st.mem.get((v[1], v[2]))
    if w and w[0] == "p" and w[1][0] == "g" and w[1][1].startswith("_ZTV"):
        return mod.demangle(w[1][1])[len("vtable for "):]
    return None
