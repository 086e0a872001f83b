"""Dependence analysis of OpenMP worksharing loops (on the outlined IR): which memory each iteration writes and reads.

The addresses of the accesses are canonical forms in the logical iteration number; two different iterations conflict when a
write of one overlaps a write or a read of the other.  Overlap is decided on the forms (footprints for small iteration
spaces); data values never matter, memory is an injective function of the address."""
import hashlib, itertools
from fractions import Fraction
from poly import *
from sym import Sym, tysize
from ir import short

PRIVATE_CALLS = ("_Znwm", "_Znam", "malloc", "calloc", "llvm.threadlocal.address", "__cxa_allocate_exception")
PURE = ("llvm.", "sqrt", "fabs", "pow", "omp_get", "__kmpc_", "std::min", "std::max")


class Unknown(Exception):
    pass


def H(*k):
    return int.from_bytes(hashlib.blake2b(repr(k).encode(), digest_size=6).digest(), "little") * 4096


class Val:
    """evaluation of an address form; `bind` gives the values of the iteration numbers and of the sizes"""
    def __init__(self, bind, lb, dep):
        self.bind, self.lb, self.dep, self.memo = bind, lb, dep, {}

    def ev(self, p, strict=False):
        r = Fraction(0)
        for m, c in p.t.items():
            v = Fraction(c)
            for a, e in m:
                if e.denominator != 1 or e < 0:
                    raise Unknown("power")
                v *= self.atom(a, index=(c != 1 or len(m) > 1), strict=strict) ** int(e)
                if v == 0:
                    break
            r += v
        return r

    def atom(self, a, index=False, strict=False):
        if a in self.bind:
            return self.bind[a]
        k = akey(a)
        t = k[0]
        if t == "ld":
            if k[1] in self.lb:
                return self.bind["N"]
            if strict:
                raise Unknown("data")
            if index and any(akey(x)[0] == "ld" and c == 1 and self.dep(x) for m, c in k[1].t.items() if len(m) == 1 for x, e in m):
                # index taken from an array that belongs to the iteration: different arrays can hold the same index
                off = sum((self.ev(P({m: c})) for m, c in k[1].t.items() if not (len(m) == 1 and c == 1 and akey(m[0][0])[0] == "ld")), Fraction(0))
                return Fraction(int(off) // 8 % 5)
            return Fraction(H("ld", self.ev(k[1]), k[2]))
        if t in ("arg", "g", "fnptr", "alloca"):
            if strict and t == "arg":
                raise Unknown("data")
            return Fraction(H(k))
        if t in ("udiv", "urem"):
            x, y = self.ev(k[1], strict), self.ev(k[2], strict)
            if y == 0:
                raise Unknown("division")
            return Fraction(x // y if t == "udiv" else x % y)
        if t in ("max", "min"):
            v = [self.ev(x, strict) for x in k[1]]
            return max(v) if t == "max" else min(v)
        if t == "p":
            return self.ev(k[1], strict)
        if t == "ind":
            c = self.cond(k[1])
            if c is None:
                raise Unknown("condition")
            return Fraction(int(c))
        raise Unknown(show_atom(a)[:60])

    def cond(self, c):
        """True / False / None (depends on data)"""
        if c[0] in ("true", "false"):
            return c[0] == "true"
        if c[0] in ("and", "or"):
            v = [self.cond(x) for x in c[1]]
            if c[0] == "and":
                return False if False in v else (None if None in v else True)
            return True if True in v else (None if None in v else False)
        try:
            x = self.ev(c[1], strict=True)
        except Unknown:
            return None
        return {"eq": x == 0, "ne": x != 0, "lt": x < 0, "le": x <= 0, "gt": x > 0, "ge": x >= 0}.get(c[0])


class Access:
    def __init__(self, kind, addr, size, inst, chain, S, base, heads):
        self.kind, self.addr, self.size, self.inst, self.chain, self.S, self.base, self.heads = kind, addr, size, inst, chain, S, base, heads

        i, T = inst, S
        while getattr(T, "_ops", None):
            T, i = T._ops
        self.top = i              # where the outlined function does it

    @property
    def where(self):
        return self.inst.loc


def bases(S, op, seen=None):
    """base operands of a pointer through address arithmetic, merges and pointer recurrences"""
    seen = set() if seen is None else seen
    op = op if op[0] != "gepc" else op[1]
    while op[0] == "gepc":
        op = op[1]
    if op[0] == "i":
        if op[1] in seen:
            return []
        seen.add(op[1])
        i = S.f.insts[op[1]]
        if i.op in ("getelementptr", "bitcast", "addrspacecast", "freeze"):
            return bases(S, i.ops[0], seen)
        if i.op == "phi":
            r = []
            for x in i.d["in"]:
                r += bases(S, x[1], seen)
            return r
        if i.op == "select":
            return bases(S, i.ops[1], seen) + bases(S, i.ops[2], seen)
    return [op]


def slice_has(S, op, stop, seen=None):
    """does the backward slice of an operand (through private memory too) reach one of the instructions in stop"""
    seen = set() if seen is None else seen
    st = [op]
    while st:
        o = st.pop()
        if o[0] == "gepc":
            st.append(o[1])
            continue
        if o[0] != "i" or o[1] in seen:
            continue
        seen.add(o[1])
        if o[1] in stop:
            return True
        i = S.f.insts[o[1]]
        if i.op == "phi":
            st += [x[1] for x in i.d["in"]]
        else:
            st += [x for x in i.ops if isinstance(x, list)]
        if i.op == "load":
            for b in bases(S, i.ops[0]):
                if b[0] == "i" and S.f.insts[b[1]].op == "alloca":
                    for s in S.stores():
                        if b in bases(S, s.ops[1]):
                            st.append(s.ops[0])
    return False


class Loop:
    """a worksharing loop"""
    def __init__(self, call, lb, trip, chunked):
        self.call, self.lb, self.trip, self.chunked, self.head, self.blocks = call, lb, trip, chunked, None, set()


class Region:
    def __init__(self, f):
        self.f, self.S = f, Sym(f)
        self.loops = []
        S = self.S
        for i in f.all():
            c = i.callee or "" if i.op in ("call", "invoke") else ""
            if c.startswith("__kmpc_for_static_init"):
                ub = S.ev(i.ops[5])
                b = [s for s in S.stores() if S.store_addr(s) == ub and f.inst_dom(s, i)]
                t = S.stored(b[-1]) + 1 if b else None
                self.loops.append(Loop(i, S.ev(i.ops[4]), t, False))
            elif c.startswith("__kmpc_dispatch_init"):
                nx = [j for j in f.all() if j.op in ("call", "invoke") and (j.callee or "").startswith("__kmpc_dispatch_next")]
                if nx:
                    self.loops.append(Loop(i, S.ev(nx[0].ops[3]), S.ev(i.ops[4]) + 1, True))
        for w in self.loops:
            best = None
            for h, L in f.loops.items():
                for i in f.blocks[h].insts:
                    if i.op != "phi":
                        break
                    v = S.ev(["i", i.id])
                    if any(akey(a)[0] == "ld" and akey(a)[1] == w.lb for a in v.atoms()) and single_linear(v, S.iv(h)):
                        if best is None or len(L.blocks) > len(f.loops[best].blocks):
                            best = h
            w.head = best
            if best is not None:
                w.blocks = set(f.loops[best].blocks)
                w.phis = {i.id for i in f.blocks[best].insts if i.op == "phi"} | {i.id for i in f.all() if i.op == "load" and S.load_addr(i) == w.lb}

    def exclusive(self, i):
        """is the instruction inside a critical section"""
        f = self.f
        for c in f.calls():
            if (c.callee or "").startswith("__kmpc_critical") and f.inst_dom(c, i):
                ends = [e for e in f.calls() if (e.callee or "").startswith("__kmpc_end_critical")]
                if ends and not any(f.inst_dom(c, e) and f.inst_dom(e, i) for e in ends):
                    return True
        return False

    def guarded(self, B):
        """is block B executed by one thread of the team only: behind single, master or the reduction"""
        f = self.f
        for c in f.calls():
            n = c.callee or ""
            if n.startswith(("__kmpc_single", "__kmpc_master", "__kmpc_masked", "__kmpc_reduce", "__kmpc_critical", "__kmpc_sections", "omp_get_thread_num")) and f.dominates(c.block.id, B) \
                    and c.block.id != B:
                return True
            if n.startswith("__kmpc_critical") and c.block.id == B:
                return True
        # last iteration
        for l in f.all():
            if l.op == "load" and f.dominates(l.block.id, B) and l.block.id != B:
                for w in self.loops:
                    k = 3 if not w.chunked else None
                    if k is not None and S_eq(self.S, l.ops[0], w.call.ops[k]):
                        return True
        return False

    # ---- accesses ----------------------------------------------------------------------------------
    def accesses(self, blocks, S=None, chain=(), heads=(), depth=0, outer=None):
        """accesses to shared memory in the blocks (helpers are looked into)"""
        S = S or self.S
        f = S.f
        for i in f.all():
            if blocks is not None and i.block.id not in blocks:
                continue
            hs = heads + tuple((S, h) for h in f.loop_chain(i.block.id) if outer is None or (h in outer[1] and h != outer[0]))
            out = []
            if i.op == "store" and not i.d.get("atomic"):
                out.append(("w", i.ops[1], lambda i=i: S.store_addr(i), max(1, tysize(S.f.insts[i.ops[0][1]].ty) if i.ops[0][0] == "i" else 8)))
            elif i.op == "load":
                out.append(("r", i.ops[0], lambda i=i: S.load_addr(i), tysize(i.ty)))
            elif i.op in ("call", "invoke"):
                n = i.callee or ""
                if n.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")):
                    ln = S.ev(i.ops[2]).const()
                    out.append(("w", i.ops[0], lambda i=i: S.ev(i.ops[0]), int(ln or 8)))
                    if not n.startswith("llvm.memset"):
                        out.append(("r", i.ops[1], lambda i=i: S.ev(i.ops[1]), int(ln or 8)))
                elif i.d.get("intr") or n.startswith(PURE) or n in PRIVATE_CALLS:
                    pass
                elif n in S.mod.funcs and depth < 4:
                    g = S.mod.funcs[n]
                    if g.short.startswith("std::") or g.short.startswith("__gnu"):
                        if writes_this(S.mod, i, g):
                            out.append(("w", i.ops[0], lambda i=i: S.ev(i.ops[0]), 8))
                    elif g.name not in chain:
                        G = Sym(g, args=[S.ev(o) if o[0] != "fn" else None for o in i.ops[:len(g.args)]], depth=S.depth + 1)
                        G._ops = (S, i)
                        yield from self.accesses(None, G, chain + (g.name,), hs, depth + 1)
                elif n:
                    g = S.mod.demangle(n)
                    if i.ops and writes_this(S.mod, i, None, g):
                        out.append(("w", i.ops[0], lambda i=i: S.ev(i.ops[0]), 8))
            for kind, op, addr, size in out:
                bs = self.base_ops(S, op)
                if bs and all(private(T, b) for T, b in bs):
                    continue
                yield Access(kind, norec(S, addr()), size, i, chain, S, bs, hs)

    def base_ops(self, S, op):
        """base operands, followed through the arguments of helpers: [(Sym, operand)]"""
        out = []
        for b in bases(S, op):
            if b[0] == "a" and getattr(S, "_ops", None):
                T, call = S._ops
                if b[1] < len(call.ops):
                    out += self.base_ops(T, call.ops[b[1]])
                    continue
            out.append((S, b))
        return out


def norec(S, p):
    """values that were being computed when the form was made"""
    mp = {a: S.inst(S.f.insts[akey(a)[2]]) for a in p.atoms(deep=True) if akey(a)[0] == "rec" and akey(a)[1] == S.uid}
    return subst(p, {a: v for a, v in mp.items() if a not in v.atoms(deep=True)}) if mp else p


def S_eq(S, a, b):
    return S.ev(a) == S.ev(b)


def single_linear(v, iv):
    a = single_atom(iv)
    return any(len(m) == 1 and m[0][0] == a and m[0][1] == 1 for m in v.t)


def private(S, b):
    if b[0] == "i":
        i = S.f.insts[b[1]]
        if i.op == "alloca":
            return True
        if i.op in ("call", "invoke") and (i.callee or "").startswith(PRIVATE_CALLS):
            return True
    return b[0] in ("null", "undef")


def writes_this(mod, i, g, dem=None):
    """does a library call modify the object its first operand points to: not when the method is const"""
    dem = dem or (g.dem if g else "")
    if not i.ops or i.ops[0][0] in ("c", "f", "fn") :
        return False
    n = short(dem)
    if dem.rstrip().endswith("const"):
        return False
    if "::" not in n or n.startswith(("QString::from", "std::min", "std::max", "std::forward", "std::move", "operator")):
        return False
    base = n.rsplit("::", 1)[-1]
    if n.startswith("std::vector") and base in ("operator[]", "at", "data", "size", "begin", "end", "front", "back", "empty", "capacity"):
        return False
    return n.startswith(("std::vector", "std::__cxx", "std::deque", "std::map", "std::set", "QVector", "QList", "QMap", "std::basic", "std::list", "std::unordered"))


def dependent(lb):
    memo = {}

    def dep(a):
        if a not in memo:
            memo[a] = False
            k = akey(a)
            memo[a] = (k[0] == "ld" and k[1] in lb) or any(dep(x) for s in sub_polys(k) for x in s.atoms())
        return memo[a]
    return dep


def sizes_of(R, acc, trips, lb, dep, w, outer=()):
    """atoms the iteration counts depend on: small naturals"""
    size = []

    def add(p):
        for x in p.atoms():
            k = akey(x)
            if k[0] in ("ld", "arg") and not (k[0] == "ld" and k[1] in lb) and not dep(x) and x not in size:
                size.append(x)
            elif k[0] in ("acc", "iv") and x in outer and x not in size:
                size.append(x)
            elif k[0] in ("udiv", "urem", "min", "max", "p", "ind"):
                for s in sub_polys(k):
                    add(s)
    if w.trip is not None:
        add(w.trip)
    for t in trips.values():
        if t is not None:
            add(t)
    for a in acc:       # sizes that occur inside divisions and minima of the addresses
        for x in a.addr.atoms():
            if akey(x)[0] in ("udiv", "urem", "min", "max"):
                for s in sub_polys(akey(x)):
                    add(s)
            elif x in outer and x not in size:
                size.append(x)
    return size


class Foot:
    """footprints of the iterations of one worksharing loop"""
    def __init__(self, R, w):
        self.R, self.w = R, w
        S = R.S
        self.lb = {w.lb}
        self.dep = dependent(self.lb)
        self.acc = [a for a in R.accesses(w.blocks, outer=(w.head, w.blocks)) if not R.exclusive(a.top)]
        self.iv0 = single_atom(S.iv(w.head))
        self.outer = set()
        for h, L in S.f.loops.items():
            if w.head in L.blocks and h != w.head and not any((c.callee or "").startswith("__kmpc_dispatch_next") and c.block.id in L.blocks for c in S.f.calls()):
                self.outer.add(single_atom(S.iv(h)))
                self.outer |= {single_atom(atom("acc", S.uid, i.id)) for i in S.f.blocks[h].insts if i.op == "phi"}
        self.trips, self.conds = {}, {}
        for a in self.acc:
            for T, h in a.heads:
                if (T.uid, h) not in self.trips:
                    self.trips[T.uid, h] = T.trip(h)
            if a.S is S:
                try:
                    self.conds[id(a)] = S.pathcond(a.inst.block.id, start=w.head)
                except Exception:
                    pass
        self.size = sizes_of(R, self.acc, self.trips, self.lb, self.dep, w, self.outer)
        self.writes, self.reads, self.whole, self.unplaced = [], [], [], []
        for a in self.acc:
            V = self.val({x: Fraction(3) for x in self.size}, 1)
            try:
                list(self.enum(a, V))
                (self.writes if a.kind == "w" else self.reads).append(a)
            except Unknown:
                if a.kind != "w":
                    continue
                bs = [T.ev(b) for T, b in a.base if not private(T, b)]
                sl = any(slice_has(T, o, w.phis) if T is S else True for T, o in addr_ops(R, a))
                if bs and not sl and not any(self.dep(x) for b in bs for x in b.atoms(deep=True)):
                    self.whole.append(a)
                else:
                    self.unplaced.append(a)

    def val(self, bind, N):
        return Val({self.iv0: Fraction(0), "N": Fraction(N), **bind}, self.lb, self.dep)

    def binds(self, c, tag=0):
        return {x: Fraction(c if n == 0 else H("s", c, n, akey(x)[0] in ("acc", "iv") and tag) // 4096 % 7 + 1) for n, x in enumerate(self.size)}

    def total(self, V):
        try:
            t = int(V.ev(self.w.trip)) if self.w.trip is not None else 5
        except Unknown:
            t = 5
        return max(0, min(t, 12))

    def enum(self, a, V):
        """the places access a touches in the iteration V stands for (all passes of the inner loops)"""
        used = a.addr.atoms(deep=True)
        hs = []
        for T, h in a.heads:
            t = self.trips[T.uid, h]
            try:
                n = int(V.ev(t)) if t is not None else 3
            except Unknown:
                n = 3
            n = max(0, min(n, 70 if len(a.heads) == 1 else 8))
            if n == 0:
                return
            x = single_atom(T.iv(h))
            hs.append((x, range(n if x in used else 1)))
        for combo in itertools.product(*[r for x, r in hs]):
            for (x, r), v in zip(hs, combo):
                V.bind[x] = Fraction(v)
            c = self.conds.get(id(a))
            if c is not None and V.cond(c) is False:
                continue
            yield int(V.ev(a.addr))

    def cover(self, accs, bind):
        """[(first byte, end, iteration, access)]"""
        V = self.val(bind, 0)
        for N in range(self.total(V)):
            V.bind["N"] = Fraction(N)
            for a in accs:
                try:
                    for x in self.enum(a, V):
                        yield x, x + a.size, N, a
                except Unknown:
                    pass


def clash(A, B, choices, seen, same=False):
    """conflicts between the writes of loop A and the accesses of loop B in different iterations"""
    out = []
    for c in choices:
        ba = A.binds(c)
        for tag in ([0] if not same else [1, 2, 3]):
            bb = B.binds(c if not same else choices[(choices.index(c) + tag) % len(choices)], tag) if same else B.binds(c)
            if same:
                # what is not different between the rounds of the enclosing loop has one value
                bb = {x: (v if akey(x)[0] in ("acc", "iv") else ba.get(x, v)) for x, v in bb.items()}
            where = {}
            for x in A.cover(A.writes, ba):
                for q in range(x[0] // 8, (x[1] - 1) // 8 + 1):
                    where.setdefault(q, []).append(x)
            for x in B.cover(B.writes + B.reads, bb):
                for q in range(x[0] // 8, (x[1] - 1) // 8 + 1):
                    for y in where.get(q, ()):
                        if x[2] != y[2] and x[0] < y[1] and y[0] < x[1]:
                            kind = "write-write" if x[3].kind == "w" else "write-read"
                            key = (kind,) + tuple(sorted((x[3].where, y[3].where)))
                            if key not in seen:
                                seen.add(key)
                                out.append((kind, y[3], x[3], (y[2], x[2])))
    return out


def conflicts(F):
    """[(kind, write, other, (n1, n2))] between different iterations of one loop"""
    big = any(abs(c) >= 512 for a in F.writes for c in a.addr.t.values())
    choices = [2, 3, 4, 5, 7, 8, 9] + ([65, 130] if big else [])
    seen, out = set(), []
    for a in F.whole:
        if a.where not in seen:
            seen.add(a.where)
            out.append(("write-write", a, a, (0, 1)))
    return out + clash(F, F, choices, seen)


def addr_ops(R, a):
    i = a.inst
    op = i.ops[1] if i.op == "store" else i.ops[0]
    out = [(a.S, op)]
    S = a.S
    while getattr(S, "_ops", None):
        T, call = S._ops
        out = [(T, o) for o in call.ops if isinstance(o, list)]
        S = T
    return out
