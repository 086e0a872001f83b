"""SSA value analysis: maps IR values to canonical polynomials (poly.P) by walking use-def chains.

It is a dataflow analysis over the SSA graph (no path is executed): merges become indicator-weighted sums through
the control dependences of the phi, loop-carried values become counters (from ScalarEvolution) or bounded sums,
local arrays are resolved element-wise through the loop nests that write them.
"""
from fractions import Fraction
from poly import *
import poly

_uid = [0]

PURE_INTR = {"llvm.sqrt": "sqrt", "llvm.fabs": "fabs", "llvm.fma": "fma", "llvm.fmuladd": "fma"}
MATH = {"sqrt": "sqrt", "sqrtf": "sqrt", "fabs": "fabs", "fabsf": "fabs", "pow": "pow", "fmin": "min", "fmax": "max", "std::sqrt": "sqrt",
        "std::fabs": "fabs", "std::abs": "fabs", "abs": "fabs", "std::pow": "pow", "fma": "fma", "rsqrt": "rsqrt", "native_rsqrt": "rsqrt", "native_sqrt": "sqrt",
        "half_sqrt": "sqrt", "native_recip": "recip", "mad": "fma"}


class Sym:
    def __init__(self, func, args=None, this_class=None, depth=0, inline_virtual=True, argtypes=None):
        self.f = func
        self.mod = func.mod
        self.args = args
        self.this_class = this_class
        self.depth = depth
        self.uid = _uid[0]
        _uid[0] += 1
        self.memo = {}
        self.cmemo = {}
        self._lconst = {}
        self.inline_virtual = inline_virtual
        self._stores = None
        self._busy = set()
        self._tmemo = {}
        self._mm = {}
        self._al = {}
        self._esc = {}
        self._vb = {}
        self.cut = {}             # instruction id -> form it is cut to
        self.given = {}           # address -> value assumed to be there on entry

    # ---- operands --------------------------------------------------------------------------
    def ev(self, op):
        k = op[0]
        if k == "i":
            return self.inst(self.f.insts[op[1]])
        if k == "c":
            v = op[1]
            if isinstance(v, str):
                v = int(v)
            return topoly(v)
        if k == "f":
            return topoly(hexfloat(op[1]))
        if k == "a":
            if self.args is not None and op[1] < len(self.args) and self.args[op[1]] is not None:
                return self.args[op[1]]
            return atom("arg", op[1])
        if k == "null":
            return ZERO
        if k == "g":
            return atom("g", op[1])
        if k == "fn":
            return atom("fnptr", op[1])
        if k == "gepc":
            return self.ev(op[1]) + op[2]
        if k == "undef":
            return atom("undef")
        if k == "zero":
            return ZERO
        return atom("op", repr(op))

    def inst(self, i):
        r = self.memo.get(i.id)
        if r is not None:
            return r
        if i.id in self._busy:
            return atom("rec", self.uid, i.id)
        self._busy.add(i.id)
        try:
            r = self._inst(i)
        finally:
            self._busy.discard(i.id)
        self.memo[i.id] = r
        return r

    def iv(self, header):
        return atom("iv", self.uid, header)

    def scev(self, s):
        if s is None:
            return None
        k = s[0]
        if k == "const":
            return topoly(s[1])
        if k == "unk":
            return self.ev(s[1])
        if k == "rec":
            a = [self.scev(x) for x in s[2:]]
            if any(x is None for x in a):
                return None
            n = self.iv(s[1])
            r = a[0]
            b = ONE
            for j, x in enumerate(a[1:]):
                b = b * (n - j) * Fraction(1, j + 1)
                r = r + x * b
            return r
        a = [self.scev(x) for x in s[1:]]
        if any(x is None for x in a):
            return None
        if k == "add":
            r = ZERO
            for x in a:
                r = r + x
            return r
        if k == "mul":
            r = ONE
            for x in a:
                r = r * x
            return r
        if k == "udiv":
            return udiv(a[0], a[1])
        if k in ("zext", "sext", "trunc", "ptrtoint"):
            return a[0]
        if k in ("umax", "smax"):
            return minmax("max", a)
        if k in ("umin", "smin"):
            return minmax("min", a)
        return None

    # ---- instructions ----------------------------------------------------------------------
    def _inst(self, i):
        op = i.op
        if op == "phi":
            return self.phi(i)
        if "sc" in i.d and i.ty != "double":
            r = self.scev(i.d["sc"])
            if r is not None:
                return r
        o = i.ops
        if op in ("fadd", "add"):
            return self.ev(o[0]) + self.ev(o[1])
        if op in ("fsub", "sub"):
            return self.ev(o[0]) - self.ev(o[1])
        if op in ("fmul", "mul"):
            return self.ev(o[0]) * self.ev(o[1])
        if op == "fneg":
            return -self.ev(o[0])
        if op == "fdiv":
            return self.ev(o[0]) * power(self.ev(o[1]), -1)
        if op == "shl":
            c = self.ev(o[1]).const()
            if c is not None:
                return self.ev(o[0]) * (2 ** int(c))
            return atom("shl", self.ev(o[0]), self.ev(o[1]))
        if op in ("udiv", "sdiv"):
            return udiv(self.ev(o[0]), self.ev(o[1]))
        if op in ("lshr", "ashr"):
            c = self.ev(o[1]).const()
            if c is not None:
                return udiv(self.ev(o[0]), topoly(2 ** int(c)))
            return atom("lshr", self.ev(o[0]), self.ev(o[1]))
        if op in ("urem", "srem"):
            return urem(self.ev(o[0]), self.ev(o[1]))
        if op in ("zext", "sext", "trunc", "fpext", "fptrunc", "bitcast", "uitofp", "sitofp", "ptrtoint", "inttoptr", "addrspacecast", "freeze"):
            if op == "zext" and self.f.insts[o[0][1]].ty == "i1" if o[0][0] == "i" else False:
                return ind(self.cond(o[0]))
            if op == "trunc" and i.ty == "i1" and o[0][0] in ("i", "a") and (self.f.insts[o[0][1]].ty if o[0][0] == "i" else "i64") in ("i32", "i64"):
                return urem(self.ev(o[0]), topoly(2))
            return self.ev(o[0])
        if op in ("fptoui", "fptosi"):
            return atom("floor", self.ev(o[0]))
        if op in ("icmp", "fcmp"):
            return ind(self.cond(["i", i.id]))
        if op == "select":
            return ite(self.cond(o[0]), self.ev(o[1]), self.ev(o[2]))
        if op == "getelementptr":
            if "coff" in i.d:
                r = self.ev(o[0]) + i.d["coff"]
                for v, s in i.d["voff"]:
                    r = r + self.ev(v) * s
                return r
            return atom("gep", self.uid, i.id)
        if op == "load":
            return self.load(i)
        if op == "alloca":
            return atom("alloca", self.uid, i.id)
        if op == "call":
            return self.call(i)
        if op in ("and", "or", "xor") and i.ty == "i1":
            return ind(self.cond(["i", i.id]))
        if op == "and" and i.ty in ("i32", "i64"):
            c = self.ev(o[1]).const()
            if c is not None and c > 0 and (int(c) & (int(c) + 1)) == 0:
                return urem(self.ev(o[0]), topoly(int(c) + 1))
        if op == "extractvalue":
            return atom("ext", self.ev(o[0]), tuple(i.d["idx"]))
        if op == "extractelement":
            return self.vec(o[0], self.ev(o[1]))
        return atom("op", op, *[self.ev(x) for x in o])

    def vec(self, op, idx):
        if op[0] == "i":
            i = self.f.insts[op[1]]
            if i.op == "insertelement":
                j = self.ev(i.ops[2])
                d = (j - idx).const()
                if d is not None:
                    if d == 0:
                        return self.ev(i.ops[1])
                    return self.vec(i.ops[0], idx)
            if i.op in ("fadd", "fsub", "fmul", "fdiv"):
                a, b = self.vec(i.ops[0], idx), self.vec(i.ops[1], idx)
                return {"fadd": lambda: a + b, "fsub": lambda: a - b, "fmul": lambda: a * b, "fdiv": lambda: a * power(b, -1)}[i.op]()
            if i.op == "fneg":
                return -self.vec(i.ops[0], idx)
            if i.op == "shufflevector":
                pass
        return atom("elem", self.ev(op), idx)

    # ---- conditions ------------------------------------------------------------------------
    def cond(self, op):
        if op[0] == "c":
            return TRUE if op[1] else FALSE
        if op[0] != "i":
            return ("b", self.ev(op))
        i = self.f.insts[op[1]]
        if i.id in self.cmemo:
            return self.cmemo[i.id]
        r = self._cond(i)
        self.cmemo[i.id] = r
        return r

    def _cond(self, i):
        o = i.ops
        if i.op in ("icmp", "fcmp"):
            p = i.d["pred"]
            if i.op == "fcmp":
                p = {"ord": "ord", "uno": "uno"}.get(p, p[1:])
            else:
                p = {"slt": "lt", "ult": "lt", "sle": "le", "ule": "le", "sgt": "gt", "ugt": "gt", "sge": "ge", "uge": "ge"}.get(p, p)
            a, b = self.ev(o[0]), self.ev(o[1])
            d = a - b
            if p == "lt":
                return cmp("lt", d)
            if p == "le":
                return cmp("le", d)
            if p == "gt":
                return cmp("lt", -d)
            if p == "ge":
                return cmp("le", -d)
            if p in ("eq", "ne"):
                # i1 indicator compared with constant
                return cmp(p, d)
            return ("b", atom("fcmp", p, a, b))
        if i.op == "xor" and i.ty == "i1":
            if o[1] == ["c", 1, 1]:
                return cnot(self.cond(o[0]))
            if o[0] == ["c", 1, 1]:
                return cnot(self.cond(o[1]))
        if i.op == "and" and i.ty == "i1":
            return cand(self.cond(o[0]), self.cond(o[1]))
        if i.op == "or" and i.ty == "i1":
            return cor(self.cond(o[0]), self.cond(o[1]))
        if i.op == "select" and i.ty == "i1":
            c, a, b = self.cond(o[0]), self.cond(o[1]), self.cond(o[2])
            return cor(cand(c, a), cand(cnot(c), b))
        if i.op in ("trunc", "freeze", "zext"):
            if i.op == "trunc":
                return ("b", self.ev(o[0]))
            return self.cond(o[0])
        if i.op == "phi" and i.ty == "i1" and i.block.id not in self.f.loops:
            c = self.gated(i, lambda v: self.cond(v), lambda c, a, b: cor(cand(c, a), cand(cnot(c), b)))
            if c is not None:
                return c
            return ("b", atom("phi", self.uid, i.id))
        return ("b", self.ev(["i", i.id]))

    # ---- phi -------------------------------------------------------------------------------
    def phi(self, i):
        b = i.block
        if b.id in self.f.loops and any(p in self.f.loops[b.id].blocks for p, _ in i.d["in"]):
            if "sc" in i.d and i.ty != "double" and i.ty != "float":
                r = self.scev(i.d["sc"])
                if r is not None:
                    return r
            return atom("acc", self.uid, i.id)
        if len(i.d["in"]) == 1:
            return self.edge_value(i.d["in"][0][0], b.id, i.d["in"][0][1])
        vals = [self.edge_value(p, b.id, v) for p, v in i.d["in"]]
        if all(v == vals[0] for v in vals):
            return vals[0]
        r = self.gated(i, None, ite)
        if r is not None:
            return r
        if "sc" in i.d and i.ty != "double":
            r = self.scev(i.d["sc"])
            if r is not None:
                return r
        return atom("phi", self.uid, i.id)

    def edge_value(self, pred, to, v):
        """value v flowing over the edge pred->to (leaving loops if the edge does)"""
        if v[0] == "i":
            d = self.f.insts[v[1]]
            h = d.block.loop
            while h is not None:
                if to not in self.f.loops[h].blocks:
                    return self.leave(d, pred, to)
                h = self.f.loops[h].parent
        return self.ev(v)

    def leave(self, d, pred, to):
        """value of instruction d (inside a loop that does not contain `to`) after leaving through pred->to"""
        # outermost-to-innermost chain of loops left
        left = [h for h in self.f.loop_chain(d.block.id) if to not in self.f.loops[h].blocks]
        if len(left) == 1:
            return self.final(d, left[0], pred)
        return atom("fin", self.uid, d.id)

    def single_exit(self, h):
        L = self.f.loops[h]
        return len(L.exiting) == 1

    def pathcond(self, B, start=None):
        """condition under which control reaches block B from the function entry (or from `start`)"""
        f = self.f
        start = f.entry if start is None else start
        if start == B:
            return TRUE
        memo = {}

        def reaches(x):
            return x == B or B in f.reach(x)

        def walk(x):
            if x == B:
                return TRUE
            if x in memo:
                # back at the loop header the path started from: another iteration
                return FALSE if x == start and start != f.entry else memo[x]
            memo[x] = None
            if not reaches(x):
                r = FALSE
            else:
                r = step(x)
            memo[x] = r
            return r

        def step(x):
            blk = f.blocks[x]
            if x in f.loops and B not in f.loops[x].blocks:
                L = f.loops[x]
                ex = {(b, s) for b in L.blocks for s in f.blocks[b].succ if s not in L.blocks}
                live = [(b, s) for b, s in ex if reaches(s)]
                if len({s for _, s in live}) != 1:
                    return None
                r = walk(live[0][1])
                if len(live) != len(ex):
                    return cand(r, ("b", atom("loopexit", self.uid, x))) if r is not None else None
                return r
            t = blk.term
            if len(blk.succ) == 1:
                return walk(blk.succ[0])
            if t.op == "br":
                c = self.cond(t.ops[0])
                a, b = walk(blk.succ[0]), walk(blk.succ[1])
                if x in f.loops and B in f.loops[x].blocks:
                    # loop header test of an enclosing loop: being in the loop is part of the iteration space
                    if blk.succ[0] not in f.loops[x].blocks:
                        return b
                    if blk.succ[1] not in f.loops[x].blocks:
                        return a
                if a is None or b is None:
                    return None
                if a == b:
                    return a
                return cor(cand(c, a), cand(cnot(c), b))
            if t.op == "switch":
                v = self.ev(t.ops[0])
                r = walk(t.d["def"])
                for cv, tgt in t.d["cases"]:
                    a = walk(tgt)
                    if a is None or r is None:
                        return None
                    c = cmp("eq", v - cv)
                    r = cor(cand(c, a), cand(cnot(c), r))
                return r
            return None
        return walk(start)

    def trip(self, h):
        """number of complete body iterations of loop h (as polynomial)"""
        if h in self._tmemo:
            return self._tmemo[h]
        L = self.f.loops[h]
        r = None
        if len(L.exiting) == 1:
            e = self.scev(L.exitcounts.get(L.exiting[0]))
            if e is not None:
                r = e if L.exiting[0] == h and not self._latch_exit(L) else e + 1
        else:
            # several exits: the header (or latch) test bounds the iterations, early exits only shorten them
            e = self.scev(L.exitcounts.get(h)) if h in L.exitcounts else None
            if e is not None:
                r = atom("early", self.uid, h, e)
        if r is None and len(L.exiting) == 1:
            r = self.stepped_trip(L)
        if r is None:
            r = atom("trip", self.uid, h)
        self._tmemo[h] = strip_neg(r)
        return self._tmemo[h]

    def stepped_trip(self, L):
        """iterations of `for(i = a; i < n; i += K)`, ScalarEvolution gives up when K > 1 could wrap"""
        b = self.f.blocks[L.exiting[0]]
        t = b.term
        if t.op != "br" or len(b.succ) != 2 or t.ops[0][0] != "i":
            return None
        c = self.f.insts[t.ops[0][1]]
        if c.op != "icmp":
            return None
        ia = intern(("iv", self.uid, L.header))
        x, y = self.ev(c.ops[0]), self.ev(c.ops[1])
        p = c.d["pred"]
        stay = b.succ[0] in L.blocks
        p = {"slt": "lt", "ult": "lt", "sle": "le", "ule": "le", "sgt": "gt", "ugt": "gt", "sge": "ge", "uge": "ge"}.get(p, p)
        if not stay:
            p = {"lt": "ge", "ge": "lt", "le": "gt", "gt": "le", "eq": "ne", "ne": "eq"}[p]
        if p in ("gt", "ge"):
            x, y = y, x
            p = {"gt": "lt", "ge": "le"}[p]
        if p == "ne":
            # until equal: counted one by one
            d = x - y
            k = d.t.get(((ia, Fraction(1)),))
            if k == -1:
                d = -d
            elif k != 1:
                return None
            x, y, p = d, ZERO, "lt"
        if p not in ("lt", "le"):
            return None
        d = x - y
        if p == "le":
            d = d - 1
        K = d.t.get(((ia, Fraction(1)),))
        if K is None or K <= 0 or K.denominator != 1:
            return None
        base = d - P({((ia, Fraction(1)),): K})
        if ia in base.atoms(deep=True):
            return None
        n = -base         # iterate while K*iv < n
        e = n if K == 1 else udiv(n + (int(K) - 1), topoly(K))
        if L.exiting[0] == L.header and not self._latch_exit(L):
            return e
        return e + 1

    def _latch_exit(self, L):
        return L.exiting[0] in L.latches and len(L.blocks) > 1 or (len(L.blocks) == 1)

    def final(self, d, h, pred):
        L = self.f.loops[h]
        if not self.single_exit(h) or L.exiting[0] != pred:
            return atom("fin", self.uid, d.id)
        T = self.trip(h)
        if any(akey(a)[0] in ("trip", "early") for a in T.atoms()):
            return atom("fin", self.uid, d.id)
        ph = None
        if d.op == "phi" and d.block.id == h:
            ph = d
            if self._latch_exit(L):
                # the header value on the last iteration: one update less
                return atom("fin", self.uid, d.id)
        else:
            for i in self.f.blocks[h].insts:
                if i.op == "phi":
                    for p, v in i.d["in"]:
                        if p in L.blocks and v == ["i", d.id]:
                            ph = i
            if ph is not None and not self._latch_exit(L):
                ph = None
        if ph is None:
            # value computed in the last iteration
            v = self.inst(d)
            last = T if (L.exiting[0] == h and not self._latch_exit(L)) else T - 1
            if any(akey(a)[0] == "acc" for a in v.atoms(deep=True)):
                return atom("fin", self.uid, d.id)
            return subst(v, {intern(("iv", self.uid, h)): last})
        base = self.inst(ph)
        if single_atom(base) is None or akey(single_atom(base))[0] != "acc":
            return subst(base, {intern(("iv", self.uid, h)): T})
        return self.reduce(ph, h, T)

    def reduce(self, ph, h, T):
        L = self.f.loops[h]
        init = nxt = None
        for p, v in ph.d["in"]:
            if p in L.blocks:
                if nxt is not None and nxt != v:
                    return atom("fin", self.uid, ph.id)
                nxt = v
            else:
                init = self.edge_value(p, h, v)
        acc = self.inst(ph)
        a = single_atom(acc)
        n = self.ev(nxt)
        d = n - acc
        mine = {intern(("acc", self.uid, i.id)) for i in self.f.blocks[h].insts if i.op == "phi"}
        if d.atoms(deep=True) & (mine - {a}):
            H = self.loop_consts(h)
            if H:
                n, d = subst(n, H), subst(d, H)
        if self.opaque(d, h):
            return atom("fin", self.uid, ph.id)
        if not (d.atoms(deep=True) & mine):
            return init + mk_sum(T, d, intern(("iv", self.uid, h)))
        s = single_atom(n)
        if s is not None and akey(s)[0] in ("max", "min"):
            ps = set(akey(s)[1])
            if acc in ps:
                ps.discard(acc)
                rest = minmax(akey(s)[0], list(ps))
                if not (rest.atoms(deep=True) & mine) and not self.opaque(rest, h):
                    ivp = intern(("iv", self.uid, h))
                    return minmax(akey(s)[0], [init, bind("red" + akey(s)[0], T, rest, ivp)])
        return atom("fin", self.uid, ph.id)

    def loop_consts(self, h):
        """accumulators of loop h that keep their first (constant) value in every pass, by induction"""
        if h in self._lconst:
            return self._lconst[h]
        L = self.f.loops[h]
        H, nxt = {}, {}
        for ph in self.f.blocks[h].insts:
            if ph.op != "phi":
                continue
            at = intern(("acc", self.uid, ph.id))
            if single_atom(self.inst(ph)) != at:
                continue
            ins = [v for p, v in ph.d["in"] if p in L.blocks]
            out = [self.edge_value(p, h, v) for p, v in ph.d["in"] if p not in L.blocks]
            if out and all(o.const() is not None and o == out[0] for o in out):
                H[at] = out[0]
                nxt[at] = [self.ev(v) for v in ins]
        while H:
            bad = [a for a in H if any(subst(v, H) != H[a] for v in nxt[a])]
            if not bad:
                break
            for a in bad:
                del H[a]
        self._lconst[h] = H
        return H

    def opaque(self, p, h):
        """does the form mention values read or returned anew in every pass of loop h"""
        L = self.f.loops[h]
        for a in p.atoms(deep=True):
            k = akey(a)
            w = None
            if k[0] == "ld" and len(k) > 3 and isinstance(k[3], tuple) and k[3][:2] == ("l", self.uid):
                w = k[3][2]
            elif k[0] in ("call", "vcall") and len(k) > 2 and k[-2] == self.uid:
                w = k[-1]
            if isinstance(w, int) and w in self.f.insts and self.f.insts[w].block.id in L.blocks:
                return True
        return False

    def gated(self, ph, getv, combine, limit=400):
        """value of a merge phi as nested selections over the branch conditions between its dominator and it"""
        inc = dict((p, v) for p, v in ph.d["in"])
        B = ph.block.id

        def val(pred):
            v = inc[pred]
            return getv(v) if getv else self.edge_value(pred, B, v)
        return self.gated_block(B, val, combine, limit)

    def gated_block(self, B, val, combine, limit=400, start=None):
        f = self.f
        D = f.blocks[B].idom if start is None else start
        if D is None:
            return None
        memo = {}
        count = [0]
        loop = f.blocks[B].loop

        def walk(x, frm):
            """resolve from entering block x coming from frm"""
            if x == B:
                return val(frm)
            if x in memo:
                return memo[x]
            count[0] += 1
            if count[0] > limit:
                return None
            memo[x] = None
            blk = f.blocks[x]
            if blk.loop is not None and blk.loop != loop and x in f.loops and B not in f.loops[x].blocks:
                # an inner loop between D and B: continue from its unique exit
                L = f.loops[x]
                ex = {(b, s) for b in L.blocks for s in f.blocks[b].succ if s not in L.blocks}
                if len({s for _, s in ex}) != 1 or len(ex) != 1:
                    return None
                (eb, es), = ex
                r = walk(es, eb)
            else:
                r = branch(x)
            memo[x] = r
            return r

        def branch(x):
            blk = f.blocks[x]
            t = blk.term
            if t.op == "br" and len(blk.succ) == 1:
                return walk(blk.succ[0], x)
            if t.op == "br":
                # ops: cond, false bb, true bb (LLVM order); succ[0] is the true successor
                c = self.cond(t.ops[0])
                a = walk(blk.succ[0], x)
                b = walk(blk.succ[1], x)
                if dead(blk.succ[0]):
                    return b
                if dead(blk.succ[1]):
                    return a
                if a is None or b is None:
                    return None
                return combine(c, a, b)
            if t.op == "switch":
                v = self.ev(t.ops[0])
                r = walk(t.d["def"], x)
                if r is None and not dead(t.d["def"]):
                    return None
                for cv, tgt in t.d["cases"]:
                    a = walk(tgt, x)
                    if a is None:
                        return None
                    r = a if r is None else combine(cmp("eq", v - cv), a, r)
                return r
            return None

        dmemo = {}

        def dead(x):
            """block from which B cannot be reached (returns, unreachable, leaves the loop)"""
            if x == B:
                return False
            if x not in dmemo:
                dmemo[x] = B not in f.reach(x)
            return dmemo[x]

        return branch(D)

    # ---- memory ----------------------------------------------------------------------------
    def addr(self, op):
        return self.ev(op)

    def root(self, op):
        """root pointer operand of an address operand (through GEPs)"""
        while True:
            if op[0] == "gepc":
                op = op[1]
                continue
            if op[0] == "i":
                i = self.f.insts[op[1]]
                if i.op in ("getelementptr", "bitcast", "addrspacecast"):
                    op = i.ops[0]
                    continue
                if i.op == "phi":
                    # pointer induction or merge: use the SCEV base when available
                    s = i.d.get("sc")
                    if s:
                        b = scev_base(s)
                        if b is not None and b != op:
                            op = b
                            continue
            return op

    def stores(self):
        if self._stores is None:
            self._stores = [i for i in self.f.all() if i.op == "store"]
        return self._stores

    def store_addr(self, s):
        r = self.scev(s.d.get("scev"))
        return r if r is not None else self.ev(s.ops[1])

    def load_addr(self, l):
        r = self.scev(l.d.get("scev"))
        return r if r is not None else self.ev(l.ops[0])

    def load(self, i):
        a = self.load_addr(i)
        sz = tysize(i.ty)
        c = self.const_load(a, i)
        if c is not None:
            return c
        rop = self.root(i.ops[0])
        if not (rop[0] == "i" and self.f.insts[rop[1]].op == "alloca"):
            # pointer picked from a table of local arrays
            lo = [m for m in a.t if len(m) == 1 and akey(m[0][0])[0] == "alloca" and akey(m[0][0])[1] == self.uid]
            if len(lo) == 1 and a.t[lo[0]] == 1:
                rop = ["i", akey(lo[0][0][0])[2]]
        if rop[0] == "i" and self.f.insts[rop[1]].op == "alloca":
            v = self.vec_field(self.f.insts[rop[1]], a, i)
            if v is not None:
                return v
            v = self.elem(self.f.insts[rop[1]], a, i)
            if v is not None:
                return v
            if self.escapes(self.f.insts[rop[1]]):
                return atom("ld", a, sz, ("l", self.uid, i.id))
        if rop[0] == "i" and self.f.insts[rop[1]].op == "load":
            v = self.vec_elem(self.f.insts[rop[1]], a, i)
            if v is not None:
                return v
        return self.mem_at(i.block.id, i.idx, a, sz, self.ev(rop))

    def local_at(self, i, a, sz):
        """content of a local address just before instruction i, or None"""
        lo = [m for m in a.t if len(m) == 1 and akey(m[0][0])[0] == "alloca" and akey(m[0][0])[1] == self.uid]
        if len(lo) != 1 or a.t[lo[0]] != 1:
            return None
        al = self.f.insts[akey(lo[0][0][0])[2]]
        v = self.elem(al, a, i)
        if v is None and not self.escapes(al):
            v = self.mem_at(i.block.id, i.idx, a, sz, self.ev(["i", al.id]))
        return v

    def refine(self, p):
        """re-read local elements whose address became constant by substitution"""
        mp = {}
        for a in p.atoms(deep=True):
            k = akey(a)
            if k[0] != "ld" or len(k) < 4 or not isinstance(k[3], tuple) or k[3][:2] != ("l", self.uid) or k[3][2] not in self.f.insts:
                continue
            i = self.f.insts[k[3][2]]
            lo = [m for m in k[1].t if len(m) == 1 and akey(m[0][0])[0] == "alloca" and akey(m[0][0])[1] == self.uid]
            if i.op != "load" or len(lo) != 1 or len(k[1].t) > 2 or (k[1] - P({lo[0]: k[1].t[lo[0]]})).const() is None:
                continue
            v = self.elem(self.f.insts[akey(lo[0][0][0])[2]], k[1], i)
            if v is not None:
                mp[a] = v
        return subst(p, mp) if mp else p

    def call_sig(self, i):
        """(parameter type strings, is const method) of a call, or None"""
        n = i.callee
        if n is None:
            v = self.vcall(i)
            if not v:
                return None
            n = None
            for c in [v[0]] + self.mod.derived(v[0]):
                n = self.mod.slot_target(c, v[3])
                if n:
                    break
            if n is None:
                return None
        if not n.startswith("_Z"):
            return None
        return signature(self.mod.demangle(n))

    def writes_through(self, i, k):
        """can call i modify memory through its operand k"""
        if i.callee and (i.callee.startswith("llvm.lifetime") or i.callee.startswith("llvm.assume") or i.callee.startswith("llvm.invariant")):
            return False
        if k >= 1 and i.callee and self.initlist(i):
            return False
        sg = self.call_sig(i)
        if sg is None:
            return True
        par, cm, method = sg
        extra = len(i.ops) - len(par)      # this and/or sret come first
        if k >= extra:
            return not is_const_ref(par[k - extra])
        if extra == 1 and method and k == 0:
            return not cm
        return True

    def initlist(self, i):
        """a container built from an initializer list, which it only reads"""
        d = self.mod.demangle(i.callee)
        return "::vector(std::initializer_list<" in d

    def escapes(self, al):
        if al.id not in self._esc:
            r = False
            for x in self.f.all():
                if x.op == "call" and not is_dbg(x) and not (x.callee or "").startswith("llvm."):
                    if any(o and o[0] in ("i", "gepc") and self.root(o) == ["i", al.id] and self.writes_through(x, k) for k, o in enumerate(x.ops)):
                        r = True
                elif x.op == "store" and self.root(x.ops[0]) == ["i", al.id]:
                    r = True
            self._esc[al.id] = r
        return self._esc[al.id]

    def unify_acc(self, end, init, tag, h):
        """loop-carried registers that mirror a memory location (equal initially, equal after every iteration)"""
        L = self.f.loops[h]
        for ph in self.f.blocks[h].insts:
            if ph.op != "phi":
                continue
            at = intern(("acc", self.uid, ph.id))
            if at not in end.atoms(deep=True):
                continue
            i0 = n0 = None
            for p, v in ph.d["in"]:
                if p in L.blocks:
                    n0 = self.ev(v)
                else:
                    i0 = self.edge_value(p, h, v)
            if i0 == init and n0 is not None and regate(subst(n0, {at: tag})) == regate(subst(end, {at: tag})):
                end = regate(subst(end, {at: tag}))
        return end

    def vec_field(self, al, a, use):
        """begin/end pointer of a local std::vector that is sized once, before every access"""
        off = (a - self.inst(al)).const()
        if off not in (0, 8) or use.ty != "ptr":
            return None
        if al.id not in self._vb:
            self._vb[al.id] = None
            muts, isvec = [], False
            esz = 8
            for x in self.f.all():
                if x.op != "call" or is_dbg(x) or not x.callee:
                    if x.op == "call" and x.callee is None and any(o and o[0] in ("i", "gepc") and self.root(o) == ["i", al.id] and self.writes_through(x, k) for k, o in enumerate(x.ops)):
                        muts.append((x, None))
                    continue
                hit = [k for k, o in enumerate(x.ops) if o and o[0] in ("i", "gepc") and self.root(o) == ["i", al.id]]
                if not hit:
                    continue
                n = self.mod.callee_short(x) or ""
                m = n.split("::")[-1]
                if hit == [0] and n.startswith("std::vector<"):
                    isvec = True
                    if "<float" in n or "<int" in n or "<unsigned int" in n:
                        esz = 4
                    if m.startswith("~"):
                        continue
                    if m == "vector" and len(x.ops) == 1:
                        continue
                    if m == "vector" and len(x.ops) >= 2 and x.ops[1][0] in ("i", "c", "a") and self.intlike(x.ops[1]):
                        muts.append((x, x.ops[1]))
                        continue
                    if m == "resize":
                        muts.append((x, x.ops[1]))
                        continue
                    if m == "reserve":
                        continue
                    if signature(self.mod.demangle(x.callee)) and not self.writes_through(x, 0):
                        continue
                if any(self.writes_through(x, k) for k in hit):
                    muts.append((x, None))
            if isvec and len(muts) == 1 and muts[0][1] is not None and not self.f.loop_chain(muts[0][0].block.id):
                self._vb[al.id] = (muts[0][0], muts[0][1], esz)
        v = self._vb[al.id]
        if v is None or not self.f.inst_dom(v[0], use):
            return None
        beg = atom("vbeg", self.uid, al.id)
        return beg if off == 0 else beg + self.ev(v[1]) * v[2]

    def intlike(self, op):
        if op[0] == "c":
            return True
        if op[0] == "a":
            return self.f.args[op[1]].get("ty", "").startswith("i") if isinstance(self.f.args[op[1]], dict) else False
        return self.f.insts[op[1]].ty.startswith("i")

    def vec_elem(self, ld, a, i):
        """element of a local std::vector filled by one unconditional push_back per iteration of one loop"""
        p = ld.ops[0]
        rop = self.root(p)
        if rop[0] != "i" or self.f.insts[rop[1]].op != "alloca":
            return None
        al = self.f.insts[rop[1]]
        base = self.ev(["i", ld.id])
        push = []
        for x in self.f.all():
            if x.op == "call" and x.callee and x.ops and x.ops[0] == ["i", al.id]:
                n = self.mod.callee_short(x) or ""
                m = n.split("::")[-1]
                if m in ("push_back", "emplace_back"):
                    push.append(x)
                elif "vector" in n and (m in ("reserve", "_M_realloc_insert") or m.startswith("~") or m == "vector" or m == "_Vector_base"):
                    continue
                elif "vector" in n or "Vector" in n:
                    if m.startswith("~") or m.startswith("_Vector") or m == "vector":
                        continue
                    return None
        if len(push) != 1 or len(push[0].ops) < 2:
            return None
        x = push[0]
        lc = [h for h in self.f.loop_chain(x.block.id) if i.block.id not in self.f.loops[h].blocks]
        if len(lc) != 1 or not all(self.f.dominates(x.block.id, la) for la in self.f.loops[lc[0]].latches):
            return None
        idx = (a - base).scale(Fraction(1, tysize(i.ty)))
        src = self.root(x.ops[1])
        if src[0] == "i" and self.f.insts[src[1]].op == "alloca":
            v = None
            for s in x.block.insts[:x.idx]:
                if s.op == "store" and s.ops[1] == x.ops[1]:
                    v = self.ev(s.ops[0])
            if v is None:
                return None
        else:
            v = atom("ld", self.ev(x.ops[1]), tysize(i.ty), 0)
        return subst(v, {intern(("iv", self.uid, lc[0])): idx})

    # ---- memory contents (gated memory SSA) --------------------------------------------------
    def aliases(self, rk, a, sz):
        """[(store, 'must'|'may')] of the stores that can touch [a, a+sz) with the same root pointer"""
        key = (rk, a, sz)
        if key in self._al:
            return self._al[key]
        out = []
        for s in self.stores():
            r2 = self.ev(self.root(s.ops[1]))
            if r2 != rk:
                continue
            c = (self.store_addr(s) - a).const()
            ssz = tysize(s.d["sty"])
            if c is not None and (c >= sz or -c >= ssz):
                continue
            if c is None and self.disjoint(self.store_addr(s), a, ssz, sz):
                continue
            out.append((s, "must" if c == 0 and ssz == sz else "may"))
        self._al[key] = out
        return out

    def disjoint(self, A, a, s1, s2):
        """A (any iteration of its loops) and a (any iteration) never overlap, counters ranging over their loops"""
        ren = {}
        back = {}
        for x in A.atoms():
            k = akey(x)
            if k[0] == "iv" and k[1] == self.uid:
                y = atom("ivp", k[1], k[2])
                ren[x] = y
                back[single_atom(y)] = k[2]
        d = subst(A, ren) - a if ren else A - a
        return any(nonneg(x - s2) for x in self.bounds(d, -1)) or any(nonneg(-x - s1) for x in self.bounds(d, 1))

    def bounds(self, d, side, depth=0):
        """upper (side=1) or lower (side=-1) bounds of d over the ranges of its loop counters"""
        # innermost counters first
        cand_ = []
        for x in d.atoms():
            k = akey(x)
            if k[0] in ("iv", "ivp") and k[1] == self.uid:
                cand_.append((len(self.f.loop_chain(k[2])), x, k))
        if not cand_:
            return [d]
        if depth > 6:
            return []
        _, x, k = max(cand_, key=lambda q: (q[0], q[1]))
        co = d.t.get(((x, Fraction(1)),))
        if co is None or any(x in dict(m) for m in d.t if m != ((x, Fraction(1)),)):
            return []
        rest = d - P({((x, Fraction(1)),): co})
        if (co > 0) != (side > 0):
            return self.bounds(rest, side, depth + 1)
        T = self.trip(k[2])
        if k[0] == "ivp":
            T = subst(T, {intern(("iv", self.uid, h)): atom("ivp", self.uid, h) for h in self.f.loops})
        t = single_atom(T)
        alts = list(akey(t)[1]) if t is not None and akey(t)[0] == "min" else [T]
        out = []
        for u in alts:
            out += self.bounds(rest + (u - 1).scale(co), side, depth + 1)
        return out

    def mem_at(self, bid, idx, a, sz, rk):
        """content of address a just before instruction idx of block bid"""
        al = self.aliases(rk, a, sz)
        if not al:
            return self.given[a] if a in self.given else atom("ld", a, sz, 0)
        here = [(s, k) for s, k in al if s.block.id == bid and s.idx < idx]
        if here:
            s, k = max(here, key=lambda x: x[0].idx)
            if k == "must":
                return self.stored(s)
            return self.opaque_mem(a, sz, s.id)
        return self.mem_in(bid, a, sz, rk)

    def stored(self, s):
        """value of a store; floating constants that the compiler copies as integers are read as such"""
        o = s.ops[0]
        if o[0] == "c" and s.d.get("sty") == "i64" and abs(int(o[1])) >= 1 << 53:
            import struct
            x = struct.unpack("<d", struct.pack("<q", int(o[1])))[0]
            if 1e-40 < abs(x) < 1e40:
                return topoly(Fraction(x))
        return self.ev(o)

    def opaque_mem(self, a, sz, where):
        return atom("ld", a, sz, ("l", self.uid, where))

    def mem_out(self, bid, a, sz, rk):
        return self.mem_at(bid, 1 << 30, a, sz, rk)

    def mem_in(self, bid, a, sz, rk):
        key = (bid, a, sz)
        if key in self._mm:
            r = self._mm[key]
            return r if r is not None else self.opaque_mem(a, sz, ("c", bid))
        self._mm[key] = None
        r = self._mem_in(bid, a, sz, rk)
        self._mm[key] = r
        return r

    def _mem_in(self, bid, a, sz, rk):
        f = self.f
        b = f.blocks[bid]
        if bid == f.entry:
            return self.given[a] if a in self.given else atom("ld", a, sz, 0)
        # no aliasing store reaches this block at all
        al = self.aliases(rk, a, sz)
        if not any(bid in f.reach(s.block.id) for s, k in al):
            return self.given[a] if a in self.given else atom("ld", a, sz, 0)
        if bid in f.loops:
            L = f.loops[bid]
            inl = [(s, k) for s, k in al if s.block.id in L.blocks]
            outside = [p for p in b.pred if p not in L.blocks]
            if len(outside) != 1:
                return self.opaque_mem(a, sz, ("h", bid))
            if not inl:
                return self.mem_edge(outside[0], bid, a, sz, rk)
            ia = intern(("iv", self.uid, bid))
            if all(k == "must" for s, k in inl):
                if ia in a.atoms() and self.injective(a, bid):
                    return self.mem_edge(outside[0], bid, a, sz, rk)
                if ia not in a.atoms(deep=True):
                    return atom("macc", self.uid, bid, a, sz)
            return self.opaque_mem(a, sz, ("h", bid))
        preds = b.pred
        vals = {p: self.mem_edge(p, bid, a, sz, rk) for p in preds}
        first = vals[preds[0]]
        if all(v == first for v in vals.values()):
            return first
        r = self.gated_block(bid, lambda p: vals[p], ite)
        return r if r is not None else self.opaque_mem(a, sz, ("m", bid))

    def injective(self, a, h):
        ia = intern(("iv", self.uid, h))
        co = a.t.get(((ia, Fraction(1)),))
        rest = [m for m in a.t if ia in dict(m) and m != ((ia, Fraction(1)),)]
        if co is None or rest:
            return False
        return ia not in (a - P({((ia, Fraction(1)),): co})).atoms(deep=True)

    def mem_edge(self, p, to, a, sz, rk):
        """content of a when control goes p -> to, leaving the loops that contain p but not `to`"""
        f = self.f
        left = [h for h in f.loop_chain(p) if to not in f.loops[h].blocks]
        if not left:
            return self.mem_out(p, a, sz, rk)
        return self.mem_exit(left[0], p, a, sz, rk)

    def mem_exit(self, h, p, a, sz, rk):
        f = self.f
        L = f.loops[h]
        al = [(s, k) for s, k in self.aliases(rk, a, sz) if s.block.id in L.blocks]
        outside = [q for q in f.blocks[h].pred if q not in L.blocks]
        if not al and len(outside) == 1:
            return self.mem_edge(outside[0], h, a, sz, rk)
        if len(L.exiting) != 1 or len(outside) != 1 or len(L.latches) != 1:
            return self.opaque_mem(a, sz, ("x", h))
        T = self.trip(h)
        if any(akey(x)[0] in ("trip", "early") for x in T.atoms()):
            return self.opaque_mem(a, sz, ("x", h))
        ia = intern(("iv", self.uid, h))
        if all(k == "must" for s, k in al):
            if ia in a.atoms(deep=True):
                return self.opaque_mem(a, sz, ("x", h))
            # repeatedly updated location
            tag = atom("macc", self.uid, h, a, sz)
            end = self.mem_out(L.latches[0], a, sz, rk)
            init = self.mem_edge(outside[0], h, a, sz, rk)
            ta = single_atom(tag)
            end = self.unify_acc(end, init, tag, h)
            if any(akey(x)[0] == "macc" and akey(x)[2] == h and x != ta for x in end.atoms(deep=True)):
                return self.opaque_mem(a, sz, ("x", h))
            if ta not in end.atoms(deep=True):
                last = subst(end, {ia: T - 1})
                return ite(cmp("eq", T), init, last) if ia in end.atoms(deep=True) or T.const() is None else last
            d = end - tag
            if ta not in d.atoms(deep=True):
                return init + mk_sum(T, d, ia)
            s = single_atom(end)
            if s is not None and akey(s)[0] in ("max", "min"):
                ps = set(akey(s)[1])
                if tag in ps:
                    ps.discard(tag)
                    rest = minmax(akey(s)[0], list(ps))
                    if ta not in rest.atoms(deep=True):
                        return minmax(akey(s)[0], [init, bind("red" + akey(s)[0], T, rest, ia)])
            return self.opaque_mem(a, sz, ("x", h))
        # a loop of constant length over computed positions: the last iteration that stores here
        tc = T.const()
        if tc is not None and tc <= 64 and len(al) == 1 and ia not in a.atoms(deep=True) and not self.injective(self.store_addr(al[0][0]), h):
            A = self.store_addr(al[0][0])
            if len(f.loop_chain(al[0][0].block.id)) == len(f.loop_chain(h)) and f.dominates(al[0][0].block.id, L.latches[0]):
                ds = [(subst(A, {ia: topoly(n)}) - a).const() for n in range(int(tc))]
                if all(d is not None for d in ds):
                    hit = [n for n, d in enumerate(ds) if abs(d) < sz]
                    if not hit:
                        return self.mem_edge(outside[0], h, a, sz, rk)
                    if ds[hit[-1]] == 0:
                        return subst(self.mem_out(L.latches[0], A, sz, rk), {ia: topoly(hit[-1])})
        # one element per iteration: solve the stored address for the counter
        As = {self.store_addr(s) for s, k in al}
        sols = []
        for A in As:
            if self.injective(A, h) and ia not in a.atoms(deep=True):
                co = A.t[((ia, Fraction(1)),)]
                sol = (a - (A - P({((ia, Fraction(1)),): co}))).scale(1 / co)
                c = sol.const()
                if c is not None and (c.denominator != 1 or c < 0):
                    continue
                if c is None and any(x.denominator != 1 for x in sol.t.values()):
                    continue
                sols.append((A, sol))
            else:
                return self.opaque_mem(a, sz, ("x", h))
        if len(sols) != 1:
            return self.opaque_mem(a, sz, ("x", h))
        A, sol = sols[0]
        v = subst(self.mem_out(L.latches[0], A, sz, rk), {ia: sol})
        own = a.atoms(deep=True)
        if any(x in v.atoms(deep=True) and x not in own for x in (intern(("iv", self.uid, q)) for q in f.loops if q != h and q not in f.loop_chain(p))):
            return self.opaque_mem(a, sz, ("x", h))
        if single_atom(IDX) in sol.atoms() or sol.const() is not None:
            # a probe of the array: the loop covers only its own range
            if not nonneg(sol) and nonneg(-sol - 1):
                return self.mem_edge(outside[0], h, a, sz, rk)
            if not nonneg(sol) and sol.const() is None and single_atom(IDX) == single_atom(sol - sol.t.get((), 0)):
                v = ite(cmp("lt", sol), self.mem_edge(outside[0], h, a, sz, rk), v)
            if nonneg(sol - T):
                return self.mem_edge(outside[0], h, a, sz, rk)
            if not nonneg(T - 1 - sol):
                return ite(cmp("lt", sol - T), v, self.mem_edge(outside[0], h, a, sz, rk))
        return v

    def may_reach(self, s, l, same_addr=False, addr=None):
        """can control flow from s to l (excluding going round a loop on which the address is injective)"""
        if s.block is l.block and s.idx < l.idx:
            return True
        skip = set()
        if same_addr and addr is not None:
            ats = addr.atoms()
            for h in self.f.loop_chain(l.block.id):
                if intern(("iv", self.uid, h)) in ats:
                    for la in self.f.loops[h].latches:
                        skip.add((la, h))
        return l.block.id in self.f.reach(s.block.id, skip)

    def const_load(self, a, i):
        # constant global element
        at = [m for m in a.t if len(m) == 1 and akey(m[0][0])[0] == "g"]
        if len(at) != 1:
            return None
        g = akey(at[0][0][0])[1]
        off = (a - P({at[0]: a.t[at[0]]})).const()
        G = self.mod.globals.get(g)
        if off is None or not G or not G.get("const"):
            return None
        return const_global(self, G, int(off), i.ty)

    def elem(self, al, a, use):
        """element of a local array/object at address a as seen by load `use`"""
        base = self.inst(al)
        st = [s for s in self.stores() if self.root(s.ops[1]) == ["i", al.id]]
        # escaping address (passed to calls) -> unknown unless it is only read before
        for x in self.f.all():
            if x.op == "call" and not is_dbg(x):
                for k, o in enumerate(x.ops):
                    if o and o[0] in ("i", "gepc") and self.root(o) == ["i", al.id]:
                        if (x.callee or "").startswith("llvm.memset") or ((x.callee or "").startswith("llvm.memcpy") and k == 0 and x.ops[1][0] in ("g", "gepc")):
                            st.append(x)
                            continue
                        if not self.writes_through(x, k):
                            continue
                        if self.f.inst_dom(use, x) and not self.may_reach(x, use):
                            continue
                        return None
        reach = [s for s in st if self.may_reach(s, use)]
        if not reach:
            return atom("uninit", self.uid, al.id)
        return self._elem(al, a, use, reach, 0)

    def _elem(self, al, a, use, st, depth):
        if depth > 6 or not st:
            return None
        f = self.f
        # drop stores to provably different elements
        cand_ = []
        for s in st:
            if s.op == "call":
                cand_.append(s)
                continue
            c = (self.store_addr(s) - a).const()
            if c is not None and c != 0:
                continue
            cand_.append(s)
        if not cand_:
            return atom("undef")
        # the last store: one that every other candidate reaches and that dominates (its outermost non-common loop does) the use
        useloops = f.loop_chain(use.block.id)

        def anchor(s):
            lc = f.loop_chain(s.block.id)
            extra = [h for h in lc if h not in useloops]
            return (extra[0] if extra else None), extra

        order = []
        for s in cand_:
            h, extra = anchor(s)
            order.append((s, h, extra))
        last = None
        for s, h, extra in order:
            ok = True
            for s2, h2, e2 in order:
                if s2 is s:
                    continue
                b1 = h if h is not None else s.block.id
                b2 = h2 if h2 is not None else s2.block.id
                if h is not None and h == h2:
                    ok = False
                    break
                # s2 must be before s: s2's anchor dominates s's anchor
                if not (f.dominates(b2, b1) and (b1 != b2 or s2.idx < s.idx)):
                    ok = False
                    break
            if ok:
                last = (s, h, extra)
        if last is None:
            return None
        s, h, extra = last
        b = h if h is not None else s.block.id
        if not f.dominates(b, use.block.id):
            return None
        if s.op == "call" and "memcpy" in s.callee:
            off = (a - self.ev(s.ops[0])).const()
            src = self.ev(s.ops[1])
            if off is None:
                return None
            return self.const_load(src + off, use)
        if s.op == "call":
            return ZERO if self.ev(s.ops[1]).const() == 0 else None
        # the store must be unconditional inside its loops
        for n, x in enumerate(extra):
            inner = extra[n + 1] if n + 1 < len(extra) else s.block.id
            if not all(f.dominates(inner, la) for la in f.loops[x].latches):
                return None
        A = self.store_addr(s)
        ivs = [x for x in extra if intern(("iv", self.uid, x)) in A.atoms()]
        mp = {}
        if ivs:
            if len(ivs) != 1:
                return None
            ia = intern(("iv", self.uid, ivs[0]))
            stride = A.t.get(((ia, Fraction(1)),))
            if stride is None or any(ia in dict(m) for m in A.t if m != ((ia, Fraction(1)),)):
                return None
            sol = (a - (A - P({((ia, Fraction(1)),): stride}))).scale(1 / Fraction(stride))
            mp[ia] = sol
        elif (A - a).const() != 0:
            return None
        rep = [x for x in extra if x not in ivs]
        rest = [x for x in cand_ if x is not s]
        # self-referencing value?
        tag = atom("self", self.uid, al.id)
        V = self._value_with_self(s, al, A, tag)
        if V is None:
            return None
        ta = single_atom(tag)
        if ta in V.atoms(deep=True):
            dlt = V - tag
            if ta in dlt.atoms(deep=True):
                return None
            prev = self._elem(al, a, use, rest, depth + 1)
            if prev is None:
                return None
            dlt = subst(dlt, mp) if mp else dlt
            for x in reversed(rep):
                dlt = mk_sum(self.trip(x), dlt, intern(("iv", self.uid, x)))
            return prev + dlt
        for x in rep:
            if intern(("iv", self.uid, x)) in V.atoms(deep=True):
                return None
        return subst(V, mp) if mp else V

    def _value_with_self(self, s, al, A, tag):
        """value stored by s with loads of the same element (previous content) replaced by tag"""
        f = self.f
        pre = {}
        # loads from the same array element feeding this store (same iteration)
        for l in f.all():
            if l.op == "load" and self.root(l.ops[0]) == ["i", al.id]:
                if self.load_addr(l) == A and f.inst_dom(l, s):
                    pre[l.id] = tag
        saved, csaved = self.memo, self.cmemo
        self.memo, self.cmemo = dict(self.cut, **pre) if self.cut else dict(pre), {}
        try:
            return self.stored(s)
        finally:
            self.memo, self.cmemo = saved, csaved

    # ---- calls -----------------------------------------------------------------------------
    def vcall(self, i):
        """(static class, method, object operand, slot offset) of a virtual call, or None"""
        t = i.d.get("target")
        if not t or t[0] != "i":
            return None
        ld = self.f.insts[t[1]]
        if ld.op != "load":
            return None
        p = ld.ops[0]
        off = 0
        if p[0] == "i" and self.f.insts[p[1]].op == "getelementptr" and not self.f.insts[p[1]].d.get("voff"):
            off = self.f.insts[p[1]].d.get("coff", 0)
            p = self.f.insts[p[1]].ops[0]
        if p[0] != "i" or self.f.insts[p[1]].op != "load":
            return None
        vt = self.f.insts[p[1]]
        cls = None
        for x in self.f.all():
            if x.op == "call" and (x.callee or "").endswith("type.test") and x.ops[0] == ["i", vt.id]:
                n = x.ops[1][1]
                cls = self.mod.demangle(n)
                if cls.startswith("typeinfo name for "):
                    cls = cls[len("typeinfo name for "):]
                break
        if cls is None:
            return None
        return cls, self.mod.slot_method(cls, off), vt.ops[0], off

    def call(self, i):
        c = i.callee
        if c is None:
            v = self.vcall(i)
            if v and self.this_class and self.inline_virtual and i.ops and self.ev(i.ops[0]) == atom("arg", 0) and self.args is None:
                tgt = self.mod.slot_target(self.this_class, v[3])
                r = self.pure_call(tgt, i)
                if r is not None:
                    return r
            if v:
                t = self.devirt(v[0], v[3])
                if t is not None:
                    r = self.pure_call(t, i)
                    if r is not None:
                        return r
                return atom("vcall", v[0], v[1], self.uid, i.id)
            return atom("call", self.uid, i.id)
        if c.startswith("__dynamic_cast") or c == "__dynamic_cast":
            return self.ev(i.ops[0])
        name = None
        if c.startswith("llvm."):
            b = ".".join(c.split(".")[:2])
            if b in PURE_INTR:
                name = PURE_INTR[b]
            elif b in ("llvm.umax", "llvm.smax", "llvm.maxnum", "llvm.maximum"):
                name = "max"
            elif b in ("llvm.umin", "llvm.smin", "llvm.minnum", "llvm.minimum"):
                name = "min"
            elif b == "llvm.pow" or b == "llvm.powi":
                name = "pow"
            elif b in ("llvm.cttz", "llvm.ctlz", "llvm.ctpop"):
                return atom("fn", b[5:], self.ev(i.ops[0]), topoly(int(i.ty[1:]) if i.ty[1:].isdigit() else 64))
            elif b == "llvm.usub":
                a, bb = self.ev(i.ops[0]), self.ev(i.ops[1])
                return minmax("max", [a - bb, ZERO])
            elif b in ("llvm.launder", "llvm.strip", "llvm.expect", "llvm.ssa"):
                return self.ev(i.ops[0])
        else:
            sh = self.mod.callee_short(i)
            name = MATH.get(sh)
            if name is None and sh and sh.split("<")[0] in ("std::pow", "std::sqrt", "std::fabs", "std::abs") and sh.endswith(">"):
                name = MATH[sh.split("<")[0]]
            if name is None and sh and sh in ("strtod", "strtold", "atof"):
                s = self.cstring(i.ops[0])
                if s is not None:
                    try:
                        return topoly(Fraction(s.strip()))
                    except ValueError:
                        return ZERO
        if name:
            a = [self.ev(x) for x in i.ops]
            if name == "sqrt":
                return power(a[0], Fraction(1, 2))
            if name == "rsqrt":
                return power(a[0], Fraction(-1, 2))
            if name == "recip":
                return power(a[0], -1)
            if name == "fabs":
                s = norm_sign(a[0])
                k = ratio(a[0], s) if a[0].t else None
                if a[0].const() is not None:
                    return topoly(abs(a[0].const()))
                return atom("fn", "fabs", s).scale(abs(k))
            if name == "fma":
                return a[0] * a[1] + a[2]
            if name in ("min", "max"):
                return minmax(name, a[:2])
            if name == "pow":
                e = a[1].const()
                if e is not None and (e * 2).denominator == 1:
                    return power(a[0], e)
                return atom("fn", "pow", *a)
        r = self.pure_call(c, i)
        if r is not None:
            return r
        return atom("call", c, *self.passes(i), self.uid, i.id)

    def passes(self, i):
        """the pass numbers of the loops around an instruction: what tells its executions apart"""
        return [self.iv(h) for h, L in sorted(self.f.loops.items(), key=lambda x: -len(x[1].blocks)) if i.block.id in L.blocks]

    def devirt(self, cls, off):
        """the only implementation a virtual call on static class cls can reach, or None"""
        t = {self.mod.slot_target(c, off) for c in [cls] + self.mod.derived(cls)}
        t.discard(None)
        return next(iter(t)) if len(t) == 1 else None

    def pure_call(self, name, i):
        """result of a side-effect free repository function"""
        g = self.mod.funcs.get(name)
        if g is None or self.depth > 4 or len(g.blocks) > 12:
            return None
        rets = [x for x in g.all() if x.op == "ret"]
        if len(rets) != 1 or not rets[0].ops:
            return None
        for x in g.all():
            if x.op == "store" or (x.op == "call" and not x.d.get("intr") and x.callee not in self.mod.funcs and MATH.get(self.mod.callee_short(x) or "") is None):
                if x.op == "call" and x.callee is None:
                    return None
                return None
        s = Sym(g, args=[self.ev(o) for o in i.ops], depth=self.depth + 1)
        return s.ev(rets[0].ops[0])

    def cstring(self, op):
        off = 0
        if op[0] == "gepc":
            off = op[2]
            op = op[1]
        if op[0] == "g":
            G = self.mod.globals.get(op[1])
            if G and "str" in G:
                return G["str"][off:]
            if G and G.get("init", [""])[0] == "zero":
                return ""
        return None


def split_params(t):
    out, d, cur = [], 0, ""
    for c in t:
        if c in "<([":
            d += 1
        elif c in ">)]":
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


_sigs = {}


def signature(dem):
    """(parameter types, const method, is a member) from a demangled name"""
    if dem in _sigs:
        return _sigs[dem]
    r = None
    s = dem
    cm = s.endswith(" const")
    if cm:
        s = s[:-6]
    if s.endswith(")"):
        d = 0
        for k in range(len(s) - 1, -1, -1):
            if s[k] == ")":
                d += 1
            elif s[k] == "(":
                d -= 1
                if d == 0:
                    r = (split_params(s[k + 1:-1]), cm, "::" in s[:k])
                    break
    _sigs[dem] = r
    return r


def is_const_ref(t):
    t = t.strip()
    if t[-1:] in "&*":
        return t[:-1].rstrip("&").endswith("const")
    return True


def is_dbg(x):
    return (x.callee or "").startswith("llvm.dbg") or (x.callee or "").startswith("llvm.lifetime") or (x.callee or "").startswith("llvm.assume")


def scev_base(s):
    """operand of the pointer base of a SCEV address"""
    if s is None:
        return None
    k = s[0]
    if k == "rec":
        return scev_base(s[2])
    if k == "unk":
        return s[1]
    if k == "add":
        # LLVM puts the pointer operand last
        for x in reversed(s[1:]):
            b = scev_base(x) if x and x[0] in ("unk", "rec", "add") else None
            if b is not None:
                return b
    return None


def strip_neg(p):
    return p


def const_global(sym, G, off, ty):
    init = G.get("init")
    sz = tysize(ty)
    if "str" in G:
        s = G["str"].encode("latin-1", "replace") + b"\0"
        return topoly(s[off]) if off < len(s) and sz == 1 else None
    if init is None:
        return None
    if init[0] == "zero":
        return ZERO
    if init[0] == "arr":
        el = init[1:]
        if off % sz == 0 and off // sz < len(el):
            e = el[off // sz]
            if e[0] in ("f", "c", "g", "gepc", "null", "fn"):
                return sym.ev(e)
    if init[0] in ("f", "c") and off == 0:
        return sym.ev(init)
    return None


def regate(p):
    """recognise max/min in ind(x<y)*x + (1-ind)*y sums created by substitution"""
    inds = {a for m in p.t for a, e in m if akey(a)[0] == "ind"}
    for a in inds:
        on = ZERO
        off = ZERO
        for m, c in p.t.items():
            d = dict(m)
            if a in d:
                d.pop(a)
                on = on + P({tuple(sorted(d.items())): c})
            else:
                off = off + P({m: c})
        r = ite(akey(a)[1], on + off, off)
        if len(r.t) < len(p.t):
            return r
    return p


def is_size(a):
    """atoms that stand for object sizes/counts (non-negative, at least one body)"""
    return akey(a)[0] in ("ld", "arg", "vcall", "call")


def nonneg(p):
    """p >= 0 whenever every size atom is >= 1 (sufficient test)"""
    c = p.const()
    if c is not None:
        return c >= 0
    q = p
    for a in p.atoms():
        if not is_size(a):
            return False
        q = subst(q, {a: P({((a, Fraction(1)),): Fraction(1)}) + 1})
    return all(x >= 0 for x in q.t.values())


def hexfloat(s):
    if s.lower().startswith("nan") or "inf" in s.lower() or "nan" in s.lower():
        return Fraction(10) ** 400 if "-" not in s else -Fraction(10) ** 400
    return Fraction(float.fromhex(s))


def tysize(t):
    return {"double": 8, "float": 4, "ptr": 8, "i64": 8, "i32": 4, "i16": 2, "i8": 1, "i1": 1}.get(t, 8)


# ---- bounded sums -------------------------------------------------------------------------------
def bv_level(p):
    m = -1
    for a in p.atoms(deep=True):
        k = akey(a)
        if k[0] == "bv":
            m = max(m, k[1])
    return m


def bind(kind, T, body, iva):
    lvl = bv_level(body) + 1
    return atom(kind, T, subst(body, {iva: atom("bv", lvl)}))


def mk_sum(T, term, iva):
    """sum of term over iv = 0..T-1, loop-invariant factors moved out"""
    if term.iszero():
        return ZERO
    # constant trip counts of 0/1
    c = T.const()
    if c == 0:
        return ZERO
    if c == 1:
        return subst(term, {iva: ZERO})
    out = ZERO
    for m, co in term.t.items():
        inv = []
        var = []
        for a, e in m:
            if a == iva or iva in P({((a, Fraction(1)),): Fraction(1)}).atoms(deep=True):
                var.append((a, e))
            else:
                inv.append((a, e))
        I = P({tuple(sorted(inv)): co})
        if not var:
            out = out + I * T
            continue
        V = P({tuple(sorted(var)): Fraction(1)})
        if len(var) == 1 and var[0] == (iva, 1):
            out = out + I * T * (T - 1) * Fraction(1, 2)
            continue
        out = out + I * fuse(T, V, iva)
    return out


def fuse(T, V, iva):
    """sum over iva<T of V; a tiled double sum over Q*p+q is recognised and flattened"""
    s = single_atom(V)
    if s is not None and akey(s)[0] == "sum":
        Q, inner = akey(s)[1], akey(s)[2]
        lvl = bv_level(inner)
        q = intern(("bv", lvl))
        tile, total = tile_of(Q, iva, T)
        if tile is not None and iva not in total.atoms(deep=True):
            r = atom("tmpiv", 0)
            # p = (r - q) / tile
            rep = subst(inner, {iva: (r - P({((q, Fraction(1)),): Fraction(1)})).scale(1 / tile)})
            if q not in rep.atoms(deep=True):
                return bind("sum", total, rep, single_atom(r))
    return bind("sum", T, V, iva)


def tile_of(Q, p, T):
    """inner trip count Q (constant, or min(const, n - const*p)) of a tiled loop with outer counter p and trip T:
    (tile size, total iteration count)"""
    c = Q.const()
    P_ = P({((p, Fraction(1)),): Fraction(1)})
    if c is not None:
        return c, T * c
    a = single_atom(Q)
    if a is not None and akey(a)[0] == "min":
        ps = list(akey(a)[1])
        cs = [x for x in ps if x.const() is not None]
        rs = [x for x in ps if x.const() is None]
        if len(cs) == 1 and len(rs) == 1:
            c = cs[0].const()
            n = rs[0] + P_.scale(c)
            if p not in n.atoms(deep=True) and ceil_div(T, n, c):
                return c, n
    return None, None


def ceil_div(T, n, c):
    """T == ceil(n / c) in one of the forms ScalarEvolution produces"""
    k = int(c)
    forms = [udiv(n + (k - 1), topoly(k)), udiv(n - 1, topoly(k)) + 1,
             udiv(minmax("max", [n, ONE]) - 1, topoly(k)) + 1]
    return any(T == x for x in forms)


# ---- effect summaries ---------------------------------------------------------------------------
class Effect:
    """for idx in [0, count): *(base + stride*idx) = value(idx)   (value includes the old content where nothing is stored)"""

    def __init__(self, base, stride, count, value, size, loc, cond=None):
        self.base, self.stride, self.count, self.value, self.size, self.loc, self.cond = base, stride, count, value, size, loc, cond

    def __repr__(self):
        return "{%s + %s*i | i<%s} = %s" % (self.base, self.stride, self.count, self.value)


IDX = atom("idx", 0)


def effects(S, include_local=False):
    """list of Effect for every heap location group written by S.f, plus list of locations that could not be summarised"""
    f = S.f
    groups = {}
    for s in S.stores():
        rop = S.root(s.ops[1])
        if rop[0] == "i" and f.insts[rop[1]].op == "alloca" and not include_local:
            continue
        groups.setdefault(S.store_addr(s), []).append(s)
    out, bad = [], []
    for A, st in groups.items():
        try:
            e = _effect(S, A, st)
        except RecursionError:
            e = None
        if e is None:
            bad.append((A, st))
        else:
            e.stores = st
            out.append(e)
    return out, bad


def _effect(S, A, st):
    f = S.f
    rk = S.ev(S.root(st[0].ops[1]))
    sz = tysize(st[0].d["sty"])
    ivs = []
    for x in A.atoms():
        k = akey(x)
        if k[0] == "iv" and k[1] == S.uid:
            ivs.append((x, k[2]))
        elif k[0] == "iv":
            return None
    if any(x in dict(m) and m != ((x, Fraction(1)),) for x, _ in ivs for m in A.t):
        return None
    # order loops outer to inner; all stores must sit in all of them
    chain = f.loop_chain(st[0].block.id)
    ivs.sort(key=lambda q: chain.index(q[1]) if q[1] in chain else -1)
    if any(h not in f.loop_chain(s.block.id) for _, h in ivs for s in st):
        return None
    if len(ivs) == 0:
        # straight-line location: content at function exit
        rets = [i for i in f.all() if i.op == "ret"]
        if len(rets) != 1:
            return None
        v = S.mem_at(rets[0].block.id, rets[0].idx, A, sz, rk)
        return Effect(A, ZERO, ONE, v, sz, st[0].loc)
    h = ivs[-1][1]
    L = f.loops[h]
    if len(L.latches) != 1:
        return None
    early = len(L.exiting) != 1
    end = S.mem_out(L.latches[0], A, sz, rk)
    T = S.trip(h)
    old = atom("ld", A, sz, 0)
    # condition under which the innermost index loop runs, relative to the enclosing one
    base = A
    for x, hh in ivs:
        base = base - P({((x, Fraction(1)),): A.t[((x, Fraction(1)),)]})
    strides = [A.t[((x, Fraction(1)),)] for x, _ in ivs]
    outer = [hh for hh in f.loop_chain(h) if hh != h and hh not in [q[1] for q in ivs]]
    if outer:
        return None
    pre = [q for q in f.blocks[h].pred if q not in L.blocks]
    if len(pre) != 1:
        return None
    pc = S.pathcond(h)
    if pc is None:
        return None
    if len(ivs) == 1:
        idx = {ivs[0][0]: IDX}
        return Effect(base, strides[0], T, subst(end, idx), sz, st[0].loc, cond=pc)
    if len(ivs) == 2:
        (p, hp), (q, hq) = ivs
        tile, total = tile_of(T, p, S.trip(hp))
        if tile is not None and strides[0] == strides[1] * tile:
            Q = P({((q, Fraction(1)),): Fraction(1)})
            v = subst(end, {p: (IDX - Q).scale(1 / tile)})
            if q not in v.atoms(deep=True):
                pc2 = map_cond(pc, lambda z: subst(z, {p: (IDX - Q).scale(1 / tile)}))
                return Effect(base, strides[1], total, v, sz, st[0].loc, cond=pc2)
    return None
