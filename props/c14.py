"""C14: the run loop advances step by step to the end time, checks and dumps on schedule, and stops at a failed dump."""
from itertools import product
from fractions import Fraction
from streams import *
from c08 import Agg
from c12 import holds
from c13 import number
import pit, sym, solvers

KEEP = ("--keep=nbody_data_stream::write,nbody_data::print_statistics",)
A4, A5 = atom("arg", 4), atom("arg", 5)
F = Fraction


def run(ctx):
    mod = ir.load("seq", nbx_args=KEEP)
    ctx.rule("step", "a pass of the run loop is made exactly while the time of the bodies is below the end time, and advances exactly once, by the maximal step")
    ctx.rule("clamp", "before the step the state is wrapped into the box of the bodies exactly when clamping is on")
    ctx.rule("check", "after the step statistics are printed and then every visitor is shown the bodies, exactly when checking is on and the check interval has passed")
    ctx.rule("dump", "after the step the bodies are read from the engine and written to the stream, exactly when there is a stream, dumping is on and the dump interval has passed")
    ctx.rule("last", "the times of the last check and last dump are those of the passes that made one")
    ctx.rule("first", "a run that starts at time 0 writes the initial state first; a resumed run does not")
    ctx.rule("result", "run returns 0 after the end time was reached, and not 0 at once when the stream cannot be written")
    ctx.rule("settings", "the step sizes, the clamping flag, the engine and the visitors that a run uses are those that were set")
    ctx.guard("settings", "nbody_solver", lambda: settings(ctx, mod))
    ctx.guard("step", "nbody_solver::run", lambda: go(ctx, mod))


class RunFlow(QtFlow):
    """names virtual calls, and tells the time of the bodies before and after a step apart"""
    split = True

    def other(self, st, i, name, ev, res):
        v = self.S.vcall(i) if i.callee is None else None
        if v:
            name = "%s::%s" % (v[0], v[1])
        elif name:
            name = name.split("(")[0]
        st.event("call", name, tuple(ev(k) for k in range(len(i.ops))), i.id)
        return [st]


def clocks(E, time_at):
    """gives every load of the time of the bodies the name of the span it lies in: before the loop, at the beginning of a
    pass (before the step), after the step"""
    f = E.f
    adv = {}
    for i in f.all():
        if i.op in ("call", "invoke") and i.callee is None:
            v = E.S.vcall(i)
            if v and v[1] == "advise":
                adv[i.id] = i
    if len(adv) != 1:
        raise Unhandled("%d calls of advise in the run loop" % len(adv))
    a = next(iter(adv.values()))
    loops = [h for h, L in f.loops.items() if getattr(a.block, "id", a.block) in L.blocks]
    if not loops:
        raise Unhandled("advise is not called in a loop")
    h = min(loops, key=lambda x: -len(f.loops[x].blocks))
    inl = f.loops[h].blocks
    # forward: has advise been called on (all, no) paths since the loop header
    start = {f.entry: frozenset(["0"])}
    work = [f.entry]
    while work:
        b = work.pop()
        s = start[b]
        if b == h:
            s = frozenset(["b"])
        for i in f.blocks[b].insts:
            if i.id == a.id:
                s = frozenset(["a"])
        for t in f.blocks[b].succ:
            n = start.get(t, frozenset()) | s
            if n != start.get(t):
                start[t] = n
                work.append(t)
    sym_ = {"0": atom("sym", "T0"), "b": atom("sym", "Tb"), "a": atom("sym", "Ta")}
    n = 0
    for b in start:
        s = frozenset(["b"]) if b == h else start[b]
        for i in f.blocks[b].insts:
            if i.id == a.id:
                s = frozenset(["a"])
            if i.op == "load" and i.ty == "double" and E.S.ev(i.ops[0]) == time_at:
                if len(s) == 1:
                    v = sym_[next(iter(s))]
                elif b not in inl and s <= {"0", "b", "a"}:
                    v = atom("sym", "Tx")
                else:
                    raise Unhandled("the time is read where a step may or may not have been made")
                E.S.cut[i.id] = v
                n += 1
    E.S.memo.clear()
    E.S.cmemo.clear()
    E.S.memo.update(E.S.cut)
    return h, a, n


T0, TB, TA, TX = (atom("sym", n) for n in ("T0", "Tb", "Ta", "Tx"))


CACHE, ATOMS = {}, {}


def value(c, mp):
    if c[0] not in ("eq", "ne", "lt", "le"):
        return None
    at = ATOMS.get(id(c))
    if at is None or at[0] is not c:
        at = ATOMS[id(c)] = (c, tuple(c[1].atoms(deep=True)))
    k = (id(c),) + tuple(id(mp.get(a)) for a in at[1])
    if k not in CACHE:
        v = number(c[1], mp)
        CACHE[k] = None if v is None else holds(c[0], v)
    return CACHE[k]


INTERN = {}


def tp(v):
    """the constant as a form, one object for each value"""
    if isinstance(v, P):
        v = v.const()
    if v not in INTERN:
        INTERN[v] = topoly(v)
    return INTERN[v]


def allowed(facts, mp):
    und = False
    for c, t in facts.items():
        v = value(c, mp)
        if v is None:
            und = True
        elif v != t:
            return False
    return None if und else True


def go(ctx, mod):
    fs = [f for f in mod.by_short("nbody_solver::run")]
    if len(fs) != 1:
        raise Unhandled("nbody_solver::run not found")
    E = RunFlow(mod, fs[0])
    f = E.f
    ctx.saw("functions", "%s (%s)" % (f.short, f.where))
    b = Bodies(mod, A1)
    dt = roles.need(roles.accessor(mod, "nbody_solver::get_max_step", A0), "nbody_solver::get_max_step")
    eng = roles.need(roles.accessor(mod, "nbody_solver::engine", A0), "nbody_solver::engine")
    flag = clampflag(mod)
    h, adv, n = clocks(E, akey(single_atom(b.time))[1])
    E.run()
    L = f.loops[h]
    ctx.saw("paths", "%d passes, %d entries and %d exits of %s" % (len(E.iters.get(h, [])), len(E.heads.get(h, [])), len(E.exits), f.short))
    A = Agg(ctx)
    passes = []
    for st, ev in E.iters.get(h, []):
        passes.append((st, [e for e in ev if e[0] == "call"], None))
    # a pass can also end in a return
    for st, r, t in E.exits:
        at = [k for k, e in enumerate(st.ev) if e == ("enter", h)]
        if at:
            evs = [e for e in st.ev[at[-1] + 1:] if e[0] == "call"]
            passes.append((st, evs, (r, t)))
    vis = visitors(A, E, f, h, eng)
    phis = [i for i in f.blocks[h].insts if i.op == "phi" and i.ty == "double"]
    state = {}
    for i in phis:
        x = single_atom(E.S.inst(i))
        if x is None:
            raise Unhandled("loop-carried value %d" % i.id)
        ini = [v for p, v in i.d["in"] if p not in L.blocks]
        off = None
        for st in E.heads.get(h, []):
            for v in ini:
                o = resolve(E, st, v)
                o = o - T0 if o is not None else None
                if o is None or off is not None and o != off or o.atoms() & (T0.atoms() | TA.atoms() | TB.atoms()):
                    raise Unhandled("initial value of a loop-carried time")
                off = o
        back = [v for p, v in i.d["in"] if p in L.blocks]
        state[i.id] = (x, off, back)
    entry(A, E, h, b, eng)
    # which of the carried times goes with the checks and which with the dumps
    best = None
    for roles_ in product(("check", "dump"), repeat=len(state)):
        B = Agg(ctx)
        judge(B, E, f, h, passes, dict(zip(state, roles_)), state, b, eng, dt, flag, vis)
        bad = sum(v[0] is False for v in B.v.values())
        if best is None or bad < best[0]:
            best = (bad, B)
    A.v.update(best[1].v)
    ctx.saw("carried", "%d loop-carried times" % len(state))
    A.done()


def resolve(E, st, op):
    """value of an operand at the loop entry of this state"""
    if op[0] == "i" and E.f.insts[op[1]].op == "phi" and op[1] in st.phi:
        return st.phi[op[1]]
    v = E.val(st, op)
    return v


def clampflag(mod):
    """the member that set_clamp_to_box sets"""
    fs = mod.by_short("nbody_solver::set_clamp_to_box")
    if len(fs) != 1:
        raise Unhandled("set_clamp_to_box not found")
    S = sym.Sym(fs[0])
    for i in fs[0].all():
        if i.op == "store":
            return atom("ld", S.ev(i.ops[1]), 1, 0)
    raise Unhandled("set_clamp_to_box stores nothing")


def settings(ctx, mod):
    """what the setters leave in the members that the run reads"""
    A = Agg(ctx)
    for name, nargs, mem in (("set_time_step", 3, [("get_min_step", 1), ("get_max_step", 2)]), ("set_engine", 2, [("engine", 1)])):
        fs = [f for f in mod.by_short("nbody_solver::" + name) if len(f.args) == nargs]
        for f in fs:
            ctx.saw("functions", "%s (%s)" % (f.short, f.where))
            S = sym.Sym(f)
            rets = [i for i in f.all() if i.op == "ret"]
            for g, k in mem:
                x = roles.accessor(mod, "nbody_solver::" + g, A0)
                if x is None or len(rets) != 1:
                    A.put("settings", "%s, %s" % (name, g), f.where, None, "not recognised")
                    continue
                a = akey(single_atom(x))
                got = S.mem_at(rets[0].block.id, rets[0].idx, a[1], a[2], A0)
                A.put("settings", "%s, %s" % (name, g), f.where, got == atom("arg", k) if not pit.opaque_atoms(got) else None, "%s leaves %s in what %s returns" % (name, show(got)[:100], g))
    # a flag is set to what was asked for, and off in a new solver
    o = solvers.field(mod, "nbody_solver", "m_clamp_to_box")
    for f in mod.by_short("nbody_solver::set_clamp_to_box"):
        S = sym.Sym(f)
        rets = [i for i in f.all() if i.op == "ret"]
        st = [i for i in f.all() if i.op == "store"]
        addr = S.ev(st[0].ops[1]) if st else None
        if addr is None or len(rets) != 1:
            A.put("settings", "set_clamp_to_box", f.where, False if not st and o else None, "set_clamp_to_box sets nothing")
            continue
        got = S.mem_at(rets[0].block.id, rets[0].idx, addr, 1, A0)
        A.put("settings", "set_clamp_to_box", f.where, got == atom("arg", 1) if not pit.opaque_atoms(got) else None, "set_clamp_to_box sets %s" % show(got)[:100])
        for c in mod.by_short("nbody_solver::nbody_solver"):
            S = sym.Sym(c)
            rets = [i for i in c.all() if i.op == "ret"]
            if len(c.args) == 1 and len(rets) == 1:
                got = S.mem_at(rets[0].block.id, rets[0].idx, addr, 1, A0)
                A.put("settings", "a new solver does not clamp", c.where, got.const() == 0 if not pit.opaque_atoms(got) and got.const() is not None else None, "a new solver clamps")
    for f in mod.by_short("nbody_solver::add_check_visitor"):
        S = sym.Sym(f)
        at = [i for i in f.all() if i.op == "call" and i.callee and "nbody_step_visitor" in (mod.callee_short(i) or "")]
        add = [i for i in at if (mod.callee_short(i) or "").split("::")[-1] in ("push_back", "emplace_back") and (S.ev(i.ops[0]) - A0).const() is not None]
        one = len(f.blocks) == 1
        A.put("settings", "add_check_visitor", f.where, True if len(add) == 1 and one else (False if not at and one else None), "the visitor is not kept")
    A.done()


def visitors(A, E, f, h, eng):
    """call sites of visit in a loop over all visitors; -> header of that loop"""
    out = set()
    for g, its in E.iters.items():
        if g == h:
            continue
        n = 0
        for st, ev in its:
            v = [e for e in ev if e[0] == "call" and (e[1] or "").startswith("nbody_step_visitor::")]
            if not v:
                continue
            n += 1
            out.add(g)
            A.put("check", "visitor", loc(E, v[0][-1]), len(v) == 1 and len(v[0][2]) == 2 and v[0][2][1] == A1, "a visitor is not shown the bodies exactly once")
        if n and n < len(its):
            A.put("check", "every visitor", f.where, None, "some visitors are skipped")
        if n:
            iv = single_atom(E.S.iv(g))
            outs = [st for st, ev in E.iters.get(h, []) if ("enter", g) in ev]
            for st in outs:
                A.put("check", "every visitor", f.where, all_of(st, iv), "the loop over the visitors ends early or late")
    return out


def all_of(st, iv):
    """does the loop over a vector of two-pointer elements end exactly behind the last element: True, False, None"""
    mine = [(c, t) for c, t in st.facts.items() if iv in c[1].atoms() and c[0] in ("eq", "ne", "lt", "le")]
    others = sorted({a for c, t in mine for a in c[1].atoms() - {iv}}, key=repr)
    if not mine or len(others) != 2 or any(akey(a)[0] != "ld" for a in others):
        return None
    d = (akey(others[1])[1] - akey(others[0])[1]).const()
    if d is None:
        return None
    lo, hi = others if d > 0 else others[::-1]

    def ends(k, n):
        v = [number(c[1], {iv: topoly(k), lo: topoly(4096), hi: topoly(4096 + 16 * n)}) for c, t in mine]
        return None if None in v else all(holds(c[0], x) == t for (c, t), x in zip(mine, v))
    r = [(ends(n, n), [ends(k, n) for k in range(n)]) for n in (0, 1, 2, 5)]
    if any(x is None or None in y for x, y in r):
        return None
    return all(x and not any(y) for x, y in r)


def kind(e):
    return (e[1] or "").split("::")[-1]


def dumpok(evs, eng):
    """the write events of a pass and whether each comes after the bodies were read from the engine"""
    fresh, out = False, []
    for e in evs:
        k = kind(e)
        if k == "advise":
            fresh = False
        elif k == "get_data" and e[2][0] == eng and e[2][1] == A1:
            fresh = True
        elif k == "print_statistics" and e[2][0] == A1:
            fresh = True
        elif k == "write" and "nbody_data_stream" in e[1]:
            out.append((e, fresh and e[2][1] == A1 and e[2][0] == A2))
    return out


def entry(A, E, h, b, eng):
    f = E.f
    ent = [(st, [e for e in st.ev if e[0] == "call"], None) for st in E.heads.get(h, [])]
    for st, r, t in E.exits:
        if ("enter", h) not in st.ev:
            ent.append((st, [e for e in st.ev if e[0] == "call"], (r, t)))
    for stream, ddt, t0, wr in product((0, 4096), (F(-3), F(0), F(1, 64), F(5)), (F(-1), F(0), F(1, 10 ** 9), F(1, 64), F(1), F(4)), (0, -1)):
        want = stream != 0 and ddt > 0 and t0 <= 0
        mp = {single_atom(A2): tp(stream), single_atom(A4): tp(ddt), single_atom(T0): tp(t0), single_atom(A5): tp(1), single_atom(A3): tp(100)}
        got = 0
        for st, evs, ex in ent:
            w = dumpok(evs, eng)
            m2 = dict(mp)
            for e, ok in w:
                m2[single_atom(E.S.inst(f.insts[e[-1]]))] = tp(wr)
            v = allowed(st.facts, m2)
            if v is False:
                continue
            if v is None:
                got = None
                continue
            if got is not None:
                got += 1
            if bool(w) != want:
                A.put("first", "initial state", f.where, False, "with%s stream, dump interval %s and start time %s the initial state is %swritten" % ("" if stream else "out", ddt, t0, "" if w else "not "))
                continue
            A.put("first", "initial state", f.where, len(w) <= 1 and all(ok for e, ok in w), "the initial state is written without being read from the engine")
            if w:
                A.put("result", "initial write", f.where, (ex is not None and bool(nonzero(ex))) if wr else ex is None, "a failed write of the initial state is not reported" if wr else "the run ends after the initial state")
            else:
                A.put("first", "no early end", f.where, ex is None, "the run returns before its loop")
        if got == 0:
            A.put("first", "initial state", f.where, None, "no path matches")


def nonzero(ex):
    r = ex[0]
    return r is not None and r.const() is not None and r.const() != 0


def judge(A, E, f, h, passes, role, state, b, eng, dt, flag, vis):
    sd = single_atom(dt)
    D = F(2)
    un = 0
    grid = list(product((0, 4096), (F(0), F(-3), F(5)), (F(0), F(-3), F(7)), (0, 1), (F(-1, 5), F(1, 20), F(3)), (F(-1, 5), F(1, 20), F(3)), (0, -1), (F(1), F(-1, 100), F(0)), (F(1000), F(4))))
    ov = (F(-1, 5), F(1, 20), F(3))
    grid += list(product((0, 4096), (F(1, 64),), (F(1, 64), F(7)), (0,), ov, ov, (0,), (F(1),), (F(4),))) + list(product((0, 4096), (F(5),), (F(1, 64),), (0,), ov, ov, (0,), (F(1),), (F(4),)))
    prep = []
    for st, evs, ex in passes:
        prep.append((st, evs, ex, dumpok(evs, eng), [e for e in st.ev if e[0] == "enter" and e[1] in vis], relevant(st, evs)))
    for stream, ddt, cdt, clamp, cover, dover, wr, left, ta in grid:
        # time of the last check: the step ends `cover` after the moment the check is due
        lc = ta - (cdt - D / 10) - cover
        ld_ = ta - (ddt - D / 10) - dover
        end = ta - D + left
        mp = {single_atom(A2): tp(stream), single_atom(A4): tp(ddt), single_atom(A5): tp(cdt), single_atom(flag): tp(clamp), sd: tp(D),
              single_atom(TA): tp(ta), single_atom(TB): tp(ta - D), single_atom(A3): tp(end), single_atom(T0): tp(F(-7)), single_atom(TX): tp(ta - D)}
        for pid, (x, off, back) in state.items():
            o = subst(off if off is not None else topoly(0), mp)
            mp[x] = tp(topoly(lc if role[pid] == "check" else ld_) + o)
        wantc = cdt > 0 and cover >= 0
        wantd = stream != 0 and ddt > 0 and dover >= 0
        hit = 0
        for st, evs, ex, w, vents, facts in prep:
            m2 = dict(mp)
            for e, ok in w:
                m2[single_atom(E.S.inst(f.insts[e[-1]]))] = tp(wr)
            v = allowed(facts, m2)
            if v is False:
                continue
            if v is None:
                un += 1
                continue
            hit += 1
            adv = [e for e in evs if kind(e) == "advise"]
            if left <= 0:
                # the end time is reached
                A.put("step", "end", f.where, not adv and ex is not None, "a step is made although the end time is reached")
                if ex is not None and not adv:
                    A.put("result", "end", f.where, ex[0] is not None and ex[0].const() == 0, "run returns %s at the end" % (show(ex[0]) if ex[0] is not None else ""))
                continue
            if not adv:
                A.put("step", "goes on", f.where, False, "the run ends before the end time")
                continue
            A.put("step", "one step", loc(E, adv[0][-1]), len(adv) == 1 and adv[0][2][0] == A0 and adv[0][2][1] == dt, "a pass makes %d steps of %s" % (len(adv), show(adv[0][2][1])))
            pos = evs.index(adv[0])
            cl = [(k, e) for k, e in enumerate(evs) if kind(e) == "clamp"]
            if clamp:
                good = [e for k, e in cl if k < pos and e[2][0] == eng and own_y(E, e[2][1], eng) and boxed(e[2][2], b)]
                A.put("clamp", "on", f.where, bool(good), "the state is not wrapped into the box before the step")
            else:
                A.put("clamp", "off", f.where, not cl, "the state is wrapped although clamping is off")
            sts = [k for k, e in enumerate(evs) if kind(e) == "print_statistics" and e[2][0] == A1 and e[2][1] == eng]
            A.put("check", "statistics", f.where, len(sts) == (1 if wantc else 0) and all(k > pos for k in sts),
                  "statistics printed %d times, check interval %s, %s after the moment it is due" % (len(sts), cdt, cover))
            vt = bool(vents) or any(e[1].startswith("nbody_step_visitor::") for e in evs if e[1])
            A.put("check", "visitors", f.where, vt == wantc and bool(vis), "visitors are %scalled, check interval %s, %s after the moment it is due" % ("" if vt else "not ", cdt, cover))
            A.put("dump", "frame", f.where, len(w) == (1 if wantd else 0), "%d frames written, dump interval %s, %s after the moment it is due" % (len(w), ddt, dover))
            for e, ok in w:
                A.put("dump", "fresh", loc(E, e[-1]), ok and evs.index(e) > pos, "the frame is written without reading the bodies from the engine")
            if w and wr:
                A.put("result", "failed write", f.where, ex is not None and bool(nonzero(ex)), "a failed write does not end the run with an error")
                continue
            A.put("result", "goes on", f.where, ex is None, "the run returns although neither the end time is reached nor a write failed")
            if ex is not None:
                continue
            # carried times
            for pid, (x, off, back) in state.items():
                did = bool(sts) if role[pid] == "check" else bool(w)
                new = [carried(E, st, v, mp) for v in back]
                for nv in new:
                    if nv is None:
                        A.put("last", role[pid], f.where, None, "loop-carried time not recognised")
                        continue
                    val = number(nv, m2)
                    o = number(off if off is not None else topoly(0), m2)
                    if val is None or o is None:
                        A.put("last", role[pid], f.where, None, "loop-carried time %s" % show(nv))
                        continue
                    A.put("last", role[pid], f.where, val == (ta if did else (lc if role[pid] == "check" else ld_)) + o, "after a pass with%s a %s the time of the last %s is %s" % ("" if did else "out", role[pid], role[pid], show(nv)))
        if not hit:
            A.put("step", "covered", f.where, None, "no path recognised for stream %s, dump interval %s, check interval %s" % (stream != 0, ddt, cdt))
    if un and not A.v:
        A.put("step", "paths", f.where, None, "conditions not recognised")


def relevant(st, evs):
    """facts that speak about the parameters and times; those about visitors and about calls before the pass are left out"""
    mine = {e[-1] for e in evs}
    out = {}
    for c, t in st.facts.items():
        ks = {akey(a)[0] for a in c[1].atoms()}
        if "iv" in ks or ks <= {"vcall", "call"} and not any(akey(a)[-1] in mine for a in c[1].atoms()):
            continue
        out[c] = t
    return out


def carried(E, st, op, mp):
    if op[0] == "i" and op[1] in st.phi:
        return st.phi[op[1]]
    return E.val(st, op)


def own_y(E, p, eng):
    a = single_atom(p)
    if a is None:
        return False
    k = akey(a)
    return k[0] == "vcall" and k[2] == "get_y"


def boxed(p, b):
    return p == b.box or bool(p.atoms(deep=True) & b.box.atoms()) and len(p.atoms()) == 1 and p.t and all(v == 1 for v in p.t.values())
