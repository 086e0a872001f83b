"""Constant propagation through loop recurrences: for fixed sizes the header phis of a loop are followed from their initial
forms through their latch forms until the form of an exit condition holds."""
import pit
from poly import *


class Unroll(pit.Valuation):
    def __init__(self, S, seed, extra=None, limit=200):
        pit.Valuation.__init__(self, seed, sizes=(), extra=extra)
        self.S, self.limit, self.env, self.visit = S, limit, {}, None
        self.came = {}          # the edge by which a block was entered last

    def _atom(self, a):
        k = akey(a)
        if k[0] in ("acc", "fin") and k[1] == self.S.uid:
            i = self.S.f.insts[k[2]]
            if k[0] == "acc" and k[2] in self.env:
                return self.env[k[2]]
            ch = self.S.f.loop_chain(i.block.id)
            if not ch:
                raise pit.Undecidable(show_atom(a))
            h = i.block.id if i.block.id in self.S.f.loops else ch[0]
            if h in [x[0] for x in self.active()]:
                raise pit.Undecidable(show_atom(a))
            end = self.run(h)[-1]
            keep = dict(self.env)
            self.env.update(end[0])
            self.memo.clear()
            try:
                return self.env[k[2]] if k[2] in self.env else self.ev(self.S.inst(i))
            finally:
                self.env = keep
                self.memo.clear()
        if k[0] == "phi" and len(k) == 3 and k[1] == self.S.uid and self.S.f.insts[k[2]].block.id in self.came:
            i = self.S.f.insts[k[2]]
            for p, v in i.d["in"]:
                if p == self.came[i.block.id]:
                    return self.ev(self.S.ev(v))
        return pit.Valuation._atom(self, a)

    def active(self):
        return [(self.S.f.insts[i].block.id, i) for i in self.env]

    def iva(self, h):
        return intern(("iv", self.S.uid, h))

    def phis(self, h):
        out = {}
        L = self.S.f.loops[h]
        for i in self.S.f.blocks[h].insts:
            if i.op != "phi":
                continue
            ini = [v for p, v in i.d["in"] if p not in L.blocks]
            nxt = {p: v for p, v in i.d["in"] if p in L.blocks}
            if single_atom(self.S.inst(i)) == intern(("acc", self.S.uid, i.id)):
                out[i.id] = (ini, nxt)
        return out

    def run(self, h, want=None):
        """the values of the header phis at the beginning of every iteration, and the edge by which the loop is left:
        [(env, None) ..., (env, (block, succ))]; phis whose forms are not numbers are left out"""
        S, f = self.S, self.S.f
        L = f.loops[h]
        ph = self.phis(h)
        keep, iv0 = dict(self.env), self.fix.get(self.iva(h))
        out = []

        def num(v):
            try:
                return self.ev(S.ev(v))
            except pit.Undecidable:
                return None
        try:
            cur = {i: num(ini[0]) if len(ini) == 1 else None for i, (ini, nxt) in ph.items()}
            for it in range(self.limit):
                self.env = dict(keep)
                self.env.update({i: v for i, v in cur.items() if v is not None})
                self.fix[self.iva(h)] = float(it)
                self.memo.clear()
                x, frm = h, None
                while True:
                    if x not in L.blocks:
                        out.append((dict(self.env), (frm, x), it))
                        return out
                    if x == h and frm is not None:
                        break
                    if x != h and x in f.loops:
                        e = self.run(x)[-1]
                        frm, x = e[1]
                        self.came[x] = frm
                        continue
                    if self.visit:
                        self.visit(x)
                    frm, x = x, self.succ(x)
                    self.came[x] = frm
                out.append((dict(self.env), None, it))
                cur = {i: num(nxt[frm]) for i, (ini, nxt) in ph.items()}
            raise pit.Undecidable("more than %d iterations" % self.limit)
        finally:
            self.env = keep
            if iv0 is None:
                self.fix.pop(self.iva(h), None)
            else:
                self.fix[self.iva(h)] = iv0
            self.memo.clear()

    def step(self, h, env, it=1):
        """one pass through the body of loop h with the header phis as given:
        (blocks passed, edge by which the loop is left or None, phis at the start of the next pass or None)"""
        S, f = self.S, self.S.f
        L = f.loops[h]
        keep, iv0 = dict(self.env), self.fix.get(self.iva(h))
        seen = []
        self.came = {}
        try:
            self.env = dict(keep)
            self.env.update(env)
            self.fix[self.iva(h)] = float(it)
            self.memo.clear()
            x, frm = h, None
            while True:
                if x not in L.blocks:
                    return seen, (frm, x), None
                if x == h and frm is not None:
                    return seen, None, {i: self.ev(S.ev(nxt[frm])) for i, (ini, nxt) in self.phis(h).items() if i in env}
                if x != h and x in f.loops:
                    e = self.run(x)[-1]
                    frm, x = e[1]
                    self.came[x] = frm
                    continue
                seen.append(x)
                frm, x = x, self.succ(x)
                self.came[x] = frm
        finally:
            self.env = keep
            if iv0 is None:
                self.fix.pop(self.iva(h), None)
            else:
                self.fix[self.iva(h)] = iv0
            self.memo.clear()

    def given(self, env, p):
        keep = self.env
        self.env = dict(keep)
        self.env.update(env)
        self.memo.clear()
        try:
            return self.ev(p)
        finally:
            self.env = keep
            self.memo.clear()

    def walk(self, visit):
        """the blocks in the order in which they are passed for these sizes"""
        f = self.S.f
        self.visit = visit
        x = f.entry
        try:
            while x is not None:
                if x in f.loops:
                    frm, x = self.run(x)[-1][1]
                    self.came[x] = frm
                    self.memo.clear()
                    continue
                self.visit(x)
                frm, x = x, self.succ(x) if f.blocks[x].succ else None
                self.came[x] = frm
                self.memo.clear()
        finally:
            self.visit = None

    def succ(self, b):
        blk = self.S.f.blocks[b]
        if len(blk.succ) == 1:
            return blk.succ[0]
        t = blk.insts[-1]
        if t.op == "br":
            return blk.succ[0] if self.cond(self.S.cond(t.ops[0])) else blk.succ[1]
        if t.op == "switch":
            v = self.rnd(self.ev(self.S.ev(t.ops[0])))
            for c, s in t.d["cases"]:
                if int(c) == v:
                    return s
            return t.d["def"]
        raise pit.Undecidable("branch at %s" % t.loc)
