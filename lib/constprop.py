"""Conditional constant propagation along the feasible path of a function whose integer arguments are fixed. Integers, pointers
into objects (base, byte offset) and std::vector objects of integers are tracked; everything else is unknown. A branch on an
unknown value, or an unknown call that receives a tracked object, ends the analysis with Undecided."""


class Undecided(Exception):
    pass


class Ptr:
    __slots__ = ("base", "off")

    def __init__(self, base, off=0):
        self.base, self.off = base, off

    def key(self):
        return (self.base, self.off)


class Vec:
    def __init__(self, items=(), esz=8):
        self.items, self.esz = list(items), esz


def signed(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


def width(ty):
    return int(ty[1:]) if ty and ty[0] == "i" and ty[1:].isdigit() else None


class Prop:
    VEC = ("std::vector<unsigned long", "std::vector<size_t")

    def __init__(self, mod, esz=8, limit=20000, depth=6):
        self.mod, self.esz, self.limit, self.depth = mod, esz, limit, depth
        self.mem, self.vecs, self.n, self.fresh = {}, {}, 0, 0

    def run(self, f, args, level=0):
        if level > self.depth:
            raise Undecided("call depth")
        env = {}
        self.fresh += 1
        frame = self.fresh
        b, frm = f.blocks[0] if not isinstance(f.blocks, dict) else f.blocks[min(f.blocks)], None
        while True:
            phis = {}
            for i in b.insts:
                if i.op == "phi":
                    phis[i.id] = next((self.val(v, env, args) for p, v in i.d["in"] if p == frm), None)
            env.update(phis)
            nxt = None
            for i in b.insts:
                self.n += 1
                if self.n > self.limit:
                    raise Undecided("too many steps")
                if i.op == "phi":
                    continue
                if i.op == "ret":
                    return self.val(i.ops[0], env, args) if i.ops else None
                if i.op in ("br", "switch", "invoke", "unreachable"):
                    nxt = self.branch(f, i, env, args)
                    break
                env[i.id] = self.inst(f, i, env, args, frame, level)
            if nxt is None:
                raise Undecided("no successor at %s" % b.id)
            frm, b = b.id, f.blocks[nxt]

    def branch(self, f, i, env, args):
        if i.op == "br":
            bbs = [o[1] for o in i.ops if o[0] == "bb"]
            if len(bbs) == 1:
                return bbs[0]
            c = self.val(i.ops[0], env, args)
            if not isinstance(c, int):
                raise Undecided("branch at %s depends on an unknown value" % i.loc)
            return bbs[1] if c & 1 else bbs[0]      # LLVM keeps the operands of a branch in reverse order
        if i.op == "switch":
            c = self.val(i.ops[0], env, args)
            if not isinstance(c, int):
                raise Undecided("switch at %s depends on an unknown value" % i.loc)
            return next((s for x, s in i.d["cases"] if (int(x) - c) % (1 << 64) == 0), i.d["def"])
        raise Undecided("%s at %s" % (i.op, i.loc))

    def val(self, o, env, args):
        k = o[0]
        if k == "c":
            return o[1]
        if k == "i":
            return env.get(o[1])
        if k == "a":
            return args[o[1]] if o[1] < len(args) else None
        if k == "null":
            return 0
        if k == "g":
            return Ptr(("g", o[1]), 0)
        if k == "gepc" and o[1][0] == "g":
            return Ptr(("g", o[1][1]), o[2])
        if k == "fn":
            return ("fn", o[1])
        return None

    def inst(self, f, i, env, args, frame, level):
        op = i.op
        v = lambda n: self.val(i.ops[n], env, args)
        if op == "alloca":
            return Ptr(("al", frame, i.id))
        if op == "getelementptr":
            p = v(0)
            if not isinstance(p, Ptr):
                return None
            off = i.d.get("coff")
            if off is None:
                return None
            for x, s in i.d.get("voff") or []:
                y = self.val(x, env, args)
                if not isinstance(y, int):
                    return None
                off += y * s
            return Ptr(p.base, p.off + off)
        if op == "store":
            p = v(1)
            if not isinstance(p, Ptr):
                raise Undecided("store to an unknown place at %s" % i.loc)
            x = v(0)
            if isinstance(p.base, tuple) and p.base[0] == "data":
                w = self.vecs[p.base[1]]
                n = p.off // w.esz
                if x is None or p.off % w.esz or not 0 <= n < len(w.items):
                    raise Undecided("store to element %s at %s" % (n, i.loc))
                w.items[n] = x
            else:
                self.mem[p.key()] = x
            return None
        if op == "load":
            p = v(0)
            if not isinstance(p, Ptr):
                return None
            if isinstance(p.base, tuple) and p.base[0] == "data":
                w = self.vecs[p.base[1]]
                n = p.off // w.esz
                if p.off % w.esz or not 0 <= n < len(w.items):
                    raise Undecided("load of element %s of %s at %s" % (n, len(w.items), i.loc))
                return w.items[n]
            if isinstance(p.base, tuple) and p.base[0] == "g" and p.base[1].startswith("_ZTV"):
                n = self.mod.demangle(p.base[1])
                t = self.mod.vtable(n[len("vtable for "):] if n.startswith("vtable for ") else n)
                n = p.off // 8 - 2
                return ("fn", t[n]) if t and 0 <= n < len(t) and t[n] else None
            k = p.key()
            if k in self.vecs:
                return Ptr(("data", k), 0)
            k8 = (p.base, p.off - 8)
            if k8 in self.vecs:
                return Ptr(("data", k8), self.vecs[k8].esz * len(self.vecs[k8].items))
            return self.mem.get(k)
        w = width(i.d.get("ty"))
        if op in ("add", "sub", "mul", "shl", "and", "or", "xor", "udiv", "sdiv", "urem", "srem", "lshr", "ashr"):
            a, b = v(0), v(1)
            if isinstance(a, Ptr) and isinstance(b, Ptr) and op == "sub" and a.base == b.base:
                return a.off - b.off
            if not isinstance(a, int) or not isinstance(b, int) or w is None:
                return None
            m = (1 << w) - 1
            ua, ub, sa, sb = a & m, b & m, signed(a, w), signed(b, w)
            if op in ("udiv", "sdiv", "urem", "srem") and not ub:
                raise Undecided("division by zero")
            q = lambda x, y: abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return {"add": lambda: ua + ub, "sub": lambda: ua - ub, "mul": lambda: ua * ub, "shl": lambda: ua << ub, "and": lambda: ua & ub, "or": lambda: ua | ub, "xor": lambda: ua ^ ub,
                    "udiv": lambda: ua // ub, "urem": lambda: ua % ub, "sdiv": lambda: q(sa, sb), "srem": lambda: sa - sb * q(sa, sb), "lshr": lambda: ua >> ub, "ashr": lambda: sa >> ub}[op]() & m
        if op == "icmp":
            a, b = v(0), v(1)
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.base != b.base:
                    return {"eq": 0, "ne": 1}.get(i.d["pred"])
                a, b = a.off, b.off
            if isinstance(a, Ptr) and b == 0 or isinstance(b, Ptr) and a == 0:
                return {"eq": 0, "ne": 1, "ugt": 1 if a else 0, "ult": 1 if b else 0}.get(i.d["pred"])
            if not isinstance(a, int) or not isinstance(b, int):
                return None
            p = i.d["pred"]
            m = (1 << 64) - 1
            if p in ("eq", "ne"):
                return int(((a - b) & m == 0) == (p == "eq"))
            if p[0] == "s":
                a, b = signed(a, 64), signed(b, 64)
            else:
                a, b = a & m, b & m
            return int({"gt": a > b, "lt": a < b, "ge": a >= b, "le": a <= b}[p[1:]])
        if op == "select":
            c = v(0)
            return None if not isinstance(c, int) else v(1) if c & 1 else v(2)
        if op in ("zext", "trunc", "bitcast", "freeze", "ptrtoint", "inttoptr"):
            return v(0) & ((1 << w) - 1) if isinstance(v(0), int) and w else v(0)
        if op == "sext":
            return None
        if op == "call":
            return self.call(f, i, [self.val(o, env, args) for o in i.ops], level, env, args)
        return None

    def deref(self, p):
        if isinstance(p, int):
            return p
        if isinstance(p, Ptr):
            if isinstance(p.base, tuple) and p.base[0] == "data":
                w = self.vecs[p.base[1]]
                return w.items[p.off // w.esz]
            return self.mem.get(p.key())
        return None

    def hook(self, i, callee, nm, a):
        return NotImplemented

    def virtual(self, f, i, a):
        raise Undecided("indirect call at %s" % i.loc)

    def call(self, f, i, a, level, env, args):
        callee = i.callee
        if not callee:
            t = self.val(i.d.get("target") or ["?"], env, args)
            if not (isinstance(t, tuple) and t[0] == "fn"):
                return self.virtual(f, i, a)
            callee = t[1]
        nm = self.mod.callee_short(i) if i.callee else self.mod.funcs[callee].short if callee in self.mod.funcs else callee
        nm = nm or ""
        h = self.hook(i, callee, nm, a)
        if h is not NotImplemented:
            return h
        if nm.startswith("llvm."):
            if nm.startswith(("llvm.lifetime", "llvm.dbg", "llvm.experimental", "llvm.assume", "llvm.stack")):
                return None
            if nm.startswith(("llvm.umax", "llvm.umin", "llvm.smax", "llvm.smin")):
                if all(isinstance(x, int) for x in a[:2]):
                    return max(a[:2]) if "max" in nm else min(a[:2])
                return None
        g = self.mod.funcs.get(callee)
        m = nm.rsplit("::", 1)[-1]
        if nm.startswith(self.VEC):
            return self.vector(i, m, a)
        if g is not None and not getattr(g, "decl", False) and len(list(g.all())):
            return self.run(g, a, level + 1)
        if any(isinstance(x, Ptr) and (x.key() in self.vecs or x.base == "this" and not x.off) for x in a):
            if nm.startswith("std::vector<") and (m == "vector" or m.startswith("~")):
                return None
            if any(isinstance(x, Ptr) and x.key() in self.vecs for x in a):
                raise Undecided("call of %s at %s" % (nm, i.loc))
        return None

    def vector(self, i, m, a):
        p = a[0]
        if not isinstance(p, Ptr):
            raise Undecided("unknown vector at %s" % i.loc)
        k = p.key()
        if m == "vector":
            if len(a) == 1:
                self.vecs[k] = Vec()
            elif isinstance(a[1], Ptr) and a[1].key() in self.vecs:
                self.vecs[k] = Vec(self.vecs[a[1].key()].items)
            elif isinstance(a[1], int):
                x = 0
                if len(a) > 3 or len(a) == 3 and "EmRK" in (i.callee or ""):
                    x = self.deref(a[2])
                if a[1] > 4096 or x is None:
                    raise Undecided("vector constructed at %s" % i.loc)
                self.vecs[k] = Vec([x] * a[1])
            else:
                raise Undecided("vector constructed at %s" % i.loc)
            return None
        if m == "~vector":
            self.vecs.pop(k, None)
            return None
        w = self.vecs.get(k)
        if w is None:
            raise Undecided("vector used at %s" % i.loc)
        if m in ("push_back", "emplace_back"):
            x = self.deref(a[1])
            if x is None:
                raise Undecided("unknown element at %s" % i.loc)
            w.items.append(x)
            return Ptr(("data", k), w.esz * (len(w.items) - 1))
        if m == "reserve" or m == "shrink_to_fit":
            return None
        if m == "resize":
            x = self.deref(a[2]) if len(a) > 2 else 0
            if not isinstance(a[1], int) or a[1] > 4096 or x is None:
                raise Undecided("resize at %s" % i.loc)
            w.items = w.items[:a[1]] + [x] * (a[1] - len(w.items))
            return None
        if m in ("operator[]", "at") and isinstance(a[1], int):
            return Ptr(("data", k), w.esz * a[1])
        if m in ("data", "begin", "cbegin", "front"):
            return Ptr(("data", k), 0)
        if m in ("end", "cend"):
            return Ptr(("data", k), w.esz * len(w.items))
        if m == "back":
            return Ptr(("data", k), w.esz * (len(w.items) - 1))
        if m == "pop_back":
            w.items.pop()
            return None
        if m == "clear":
            w.items = []
            return None
        if m == "size":
            return len(w.items)
        if m == "empty":
            return int(not w.items)
        if m == "operator=" and isinstance(a[1], Ptr) and a[1].key() in self.vecs:
            w.items = list(self.vecs[a[1].key()].items)
            return p
        if m == "swap" and isinstance(a[1], Ptr) and a[1].key() in self.vecs:
            o = self.vecs[a[1].key()]
            w.items, o.items = o.items, w.items
            return None
        raise Undecided("%s at %s" % (m, i.loc))
