"""In-memory view of the normalised program exported by tool/nbx."""
import json, re


class Inst:
    __slots__ = ("id", "op", "ty", "ops", "block", "idx", "d", "func")

    def __init__(self, d, block, idx, func):
        self.id = d["id"]; self.op = d["op"]; self.ty = d.get("ty", "void"); self.ops = d.get("ops", [])
        self.block = block; self.idx = idx; self.d = d; self.func = func

    @property
    def loc(self):
        l = self.d.get("loc")
        return "%s:%d" % (l[0], l[1]) if l else self.func.where

    @property
    def callee(self):
        return self.d.get("callee")

    def __repr__(self):
        return "<%%%d %s %s>" % (self.id, self.op, self.callee or "")


class Loop:
    def __init__(self, d):
        self.header = d["header"]; self.parent = d.get("parent"); self.pre = d.get("pre")
        self.blocks = set(d["blocks"]); self.latches = d["latches"]; self.exiting = d["exiting"]
        self.btc = d["btc"]; self.exitcounts = {b: s for b, s in d["exitcounts"]}


class Block:
    __slots__ = ("id", "succ", "pred", "insts", "loop", "idom", "ipdom", "func")

    @property
    def term(self):
        return self.insts[-1]


class Func:
    def __init__(self, d, mod):
        self.mod = mod; self.name = d["name"]; self.dem = d["dem"]; self.file = d.get("file", "?"); self.line = d.get("line", 0)
        self.args = d["args"]; self.rty = d["rty"]; self.local = d["local"]
        self.blocks = {}; self.insts = {}
        for b in d["blocks"]:
            B = Block(); B.id = b["id"]; B.succ = b["succ"]; B.pred = []; B.loop = b.get("loop"); B.idom = b.get("idom"); B.ipdom = b.get("ipdom"); B.func = self
            B.insts = []
            for n, i in enumerate(b["insts"]):
                I = Inst(i, B, n, self)
                B.insts.append(I); self.insts[I.id] = I
            self.blocks[B.id] = B
        for B in self.blocks.values():
            for s in B.succ:
                if B.id not in self.blocks[s].pred:
                    self.blocks[s].pred.append(B.id)
        self.loops = {l["header"]: Loop(l) for l in d["loops"]}
        self.entry = d["blocks"][0]["id"]
        self._dom = {}; self._reach = None

    @property
    def where(self):
        return "%s:%d" % (self.file, self.line)

    @property
    def short(self):
        return short(self.dem)

    def all(self):
        for b in self.blocks.values():
            for i in b.insts:
                yield i

    def calls(self, pred=None):
        for i in self.all():
            if i.op in ("call", "invoke") and not i.d.get("intr") and (pred is None or pred(i)):
                yield i

    def dominates(self, a, b):
        """block a dominates block b"""
        while b is not None:
            if a == b:
                return True
            b = self.blocks[b].idom
        return False

    def postdominates(self, a, b):
        while b is not None:
            if a == b:
                return True
            b = self.blocks[b].ipdom
        return False

    def inst_dom(self, x, y):
        if x.block is y.block:
            return x.idx < y.idx
        return self.dominates(x.block.id, y.block.id)

    def reach(self, a, skip_edges=()):
        """set of blocks reachable from successors of a (a itself only through a cycle)"""
        seen = set(); st = [s for s in self.blocks[a].succ if (a, s) not in skip_edges]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            for s in self.blocks[x].succ:
                if (x, s) not in skip_edges:
                    st.append(s)
        return seen

    def loop_chain(self, bid):
        """headers of loops containing block, outermost first"""
        r = []; h = self.blocks[bid].loop
        while h is not None:
            r.append(h); h = self.loops[h].parent
        return r[::-1]


ODD = re.compile(r"^std::(vector|_Vector_base)<.*::(_M_allocate|_M_check_len|_M_insert_aux|_M_realloc_insert|_M_realloc_append|_M_fill_insert|_M_range_insert|_M_fill_assign|insert|emplace)(<.*)?$")


def odd_growth(mod, f):
    """does the function make a std::vector grow in another way than by push_back or resize"""
    return any(i.op in ("call", "invoke") and i.callee and ODD.match(mod.callee_short(i) or "") for i in f.all())


def short(dem):
    """Demangled name without the parameter list and return type."""
    s = dem
    s = re.sub(r"\[abi:[^\]]*\]", "", s)
    # cut parameter list at the matching top-level '('
    depth = 0; cut = None
    i = 0
    if s.startswith("(anonymous namespace)::"):
        i = len("(anonymous namespace)::")
    while i < len(s):
        c = s[i]
        if s.startswith("operator()", i):
            i += len("operator()"); continue
        if s.startswith("operator<<", i) or s.startswith("operator>>", i):
            i += 10; continue
        if s.startswith("operator<", i) or s.startswith("operator>", i):
            i += 9; continue
        if s.startswith("(anonymous namespace)", i):
            i += len("(anonymous namespace)"); continue
        if c == "<":
            depth += 1
        elif c == ">":
            depth -= 1
        elif c == "(" and depth == 0:
            cut = i; break
        i += 1
    if cut is not None:
        s = s[:cut]
    # drop return type of templates: last space at depth 0
    depth = 0; sp = -1
    for i, c in enumerate(s):
        if c == "<" and not s[:i].endswith("operator") and not s[:i].endswith("operator<"):
            depth += 1
        elif c == ">" and depth > 0:
            depth -= 1
        elif c == " " and depth == 0 and not s[:i].endswith("operator") and "operator" not in s[:i]:
            sp = i
    return s[sp + 1:]


_dem_cache = {}


class Module:
    def __init__(self, path):
        d = json.load(open(path))
        self.path = path
        self.structs = {}
        for s in d["structs"]:
            if s["name"] not in self.structs or len(s["fields"]) > len(self.structs[s["name"]]["fields"]):
                self.structs[s["name"]] = s
        self.sigs = {s["name"]: s for s in d["sigs"]}
        self.globals = d["globals"]
        self.funcs = {}
        for f in d["functions"]:
            self.funcs[f["name"]] = Func(f, self)
        self._vt = None
        self._byshort = {}
        for f in self.funcs.values():
            self._byshort.setdefault(f.short, []).append(f)

    def demangle_many(self, names):
        import subprocess
        names = [n for n in names if n not in _dem_cache]
        if names:
            out = subprocess.run(["c++filt"], input="\n".join(names) + "\n", text=True, stdout=subprocess.PIPE).stdout.split("\n")
            for n, o in zip(names, out):
                _dem_cache[n] = o

    def demangle(self, n):
        if n not in _dem_cache:
            names = set()
            for f in self.funcs.values():
                for i in f.all():
                    if i.callee:
                        names.add(i.callee)
            for g in self.globals:
                names.add(g)
            names.add(n)
            self.demangle_many(sorted(names))
        return _dem_cache[n]

    def callee_short(self, inst):
        n = short(self.demangle(inst.callee)) if inst.callee else None
        if n and "::emplace_back" in n:
            # a member template: adding one given element is what push_back does
            h = n[:n.index("::emplace_back")]
            if n[len(h):][len("::emplace_back"):][:1] in ("", "<") and h.count("<") == h.count(">"):
                n = h + ("::push_back" if len(inst.ops) == 2 else "::emplace_back")
        return n

    def by_short(self, s):
        """all functions with this qualified name (overloads)"""
        return self._byshort.get(s, [])

    def one(self, s, arg_count=None):
        c = self.by_short(s)
        if arg_count is not None:
            c = [f for f in c if len(f.args) == arg_count]
        return c[0] if c else None

    # --- class layout -------------------------------------------------------------------------
    def fields_flat(self, cls, base=0, depth=0):
        """[(offset, dotted name, type, size)] including bases and nested by-value classes' own entries"""
        out = []
        s = self.structs.get(cls)
        if not s or depth > 6:
            return out
        for f in s["fields"]:
            off = base + f["off"]
            if f["name"] == "<base>":
                out += self.fields_flat(f["type"], off, depth + 1)
            else:
                out.append((off, f["name"], f["type"], f["size"]))
        return out

    def field_at(self, cls, off):
        """(name, type, remaining offset) of the field of cls that covers byte offset off"""
        best = None
        for o, n, t, sz in self.fields_flat(cls):
            if n.startswith("_vptr"):
                if o == off:
                    return (n, t, 0)
                continue
            if o <= off < o + max(sz, 1):
                best = (n, t, off - o)
        return best

    # --- virtual tables -----------------------------------------------------------------------
    def vtable(self, cls):
        """slot offset (bytes from address point) -> function symbol, for the class's primary vtable"""
        if self._vt is None:
            self._vt = {}
            for g in self.globals:
                if g.startswith("_ZTV"):
                    init = self.globals[g].get("init")
                    if not init or init[0] != "arr":
                        continue
                    arr = init[1]
                    if arr[0] != "arr":
                        continue
                    name = self.demangle(g)
                    name = name[len("vtable for "):] if name.startswith("vtable for ") else name
                    slots = []
                    for e in arr[3:]:
                        while e[0] in ("ce",):
                            e = e[2]
                        slots.append(e[1] if e[0] == "fn" else None)
                    self._vt[name] = slots
        return self._vt.get(cls)

    def slot_method(self, cls, off):
        """method name (unqualified) that lives in vtable slot at byte offset `off` for static class cls"""
        v = self.vtable(cls)
        k = off // 8
        if v and k < len(v) and v[k] and v[k] != "__cxa_pure_virtual":
            return short(self.demangle(v[k])).split("::")[-1]
        # pure in cls (or vtable not emitted): ask any derived class
        self.vtable("")
        for name, vv in sorted(self._vt.items()):
            if cls in self.bases(name) and k < len(vv) and vv[k] and vv[k] != "__cxa_pure_virtual":
                return short(self.demangle(vv[k])).split("::")[-1]
        return None

    def slot_target(self, cls, off):
        v = self.vtable(cls)
        k = off // 8
        if v and k < len(v) and v[k] and v[k] != "__cxa_pure_virtual":
            return v[k]
        return None

    def bases(self, cls):
        """cls and all its (transitive) bases by debug info"""
        out = []; st = [cls]
        while st:
            c = st.pop()
            if c in out:
                continue
            out.append(c)
            s = self.structs.get(c)
            if s:
                st += [f["type"] for f in s["fields"] if f["name"] == "<base>"]
        return out

    def derived(self, base):
        return sorted(c for c in self.structs if c != base and base in self.bases(c))


def load(variant="seq", **kw):
    import build
    return Module(build.module(variant, **kw))
