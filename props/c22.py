"""C22: no data races in the OpenMP regions"""
import ir, race
from poly import *
from sym import Sym


def name(f):
    return f.short.split("<")[0]


def ws_rule(ctx, R, Fs):
    f = R.f
    for w in R.loops:
        inst = "%s: loop at %s" % (name(f), f.where.rsplit("/", 1)[-1])
        if w.head is None:
            ctx.undecided("iteration", inst, f.where, "iteration variable of the worksharing loop not found")
            continue
        F = race.Foot(R, w)
        Fs.append((w, F))
        c = race.conflicts(F)
        ctx.saw("accesses", "%s: %d writes, %d reads of shared memory" % (inst, len(F.writes), len(F.reads)))
        for kind, a, b, (n1, n2) in c:
            ctx.bad("iteration", "%s: %s" % (inst, "write" if kind == "write-write" else "read"), a.where,
                    "iteration %d writes %s at %s, iteration %d %s %s at %s: different threads, no order" % (
                        n1, show(a.addr)[:160], a.where, n2, "writes" if kind == "write-write" else "reads", show(b.addr)[:160], b.where))
        for a in F.unplaced:
            ctx.undecided("iteration", inst, a.where, "place written is not expressed in the iteration number: %s" % show(a.addr)[:200])
        if not c and not F.unplaced:
            ctx.ok("iteration", inst, f.where, "%d writes, %d reads" % (len(F.writes), len(F.reads)))


def barrier_between(f, a, b):
    """does every way from call a to call b pass a barrier"""
    def bar(i):
        return i.op in ("call", "invoke") and (i.callee or "").startswith("__kmpc_barrier")
    seen, st = set(), []

    def scan(bid, start):
        for i in f.blocks[bid].insts[start:]:
            if i is b:
                return "hit"
            if bar(i):
                return "bar"
        return None
    r = scan(a.block.id, a.idx + 1)
    if r == "hit":
        return False
    if r is None:
        st += f.blocks[a.block.id].succ
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        r = scan(x, 0)
        if r == "hit":
            return False
        if r is None:
            st += f.blocks[x].succ
    return True


def between_rule(ctx, R, Fs):
    f = R.f
    for w1, A in Fs:
        for w2, B in Fs:
            if w1 is w2 and not A.outer:
                continue
            if w1 is not w2 and w2.call.block.id not in f.reach(w1.call.block.id) and not (w1.call.block is w2.call.block and w1.call.idx < w2.call.idx):
                continue
            inst = "%s: loops at %s and %s" % (name(f), w1.call.loc.rsplit("/", 1)[-1], w2.call.loc.rsplit("/", 1)[-1])
            if barrier_between(f, w1.call, w2.call):
                ctx.ok("between", inst, w1.call.loc, "barrier on every path")
                continue
            bad = race.clash(A, B, [2, 3, 4, 5, 7, 8, 9], set(), same=(w1 is w2))
            for kind, a, b, (n1, n2) in bad[:3]:
                ctx.bad("between", inst, a.where, "no barrier between the loops: %s written by iteration %d of one, %s at %s by iteration %d of the other" % (
                    show(a.addr)[:160], n1, "written" if kind == "write-write" else "read", b.where, n2))
            if not bad:
                ctx.ok("between", inst, w1.call.loc, "no common place in different iterations")


def outside_rule(ctx, R, Fs):
    """what every thread of the team executes must not write shared memory"""
    f, S = R.f, R.S
    inside = set()
    for w, F in Fs:
        inside |= w.blocks
    if any(w.head is None for w in R.loops):
        return
    inst = "%s: region at %s" % (name(f), f.where.rsplit("/", 1)[-1])
    bad, n = {}, 0
    for a in R.accesses(set(f.blocks) - inside):
        if a.kind != "w":
            continue
        n += 1
        B = a.top.block.id
        if R.guarded(B) or R.exclusive(a.top):
            continue
        # per-thread places
        if any(akey(x)[0] in ("call", "vcall") or (akey(x)[0] == "ld" and akey(x)[1] == atom("arg", 0)) for x in a.addr.atoms(deep=True)):
            continue
        if any(akey(x)[0] in ("acc", "fin", "rec", "phi") for x in a.addr.atoms(deep=True)):
            ctx.undecided("team", inst, a.where, "place written is not resolved")
            continue
        if a.S.f.name.startswith(".omp_task") or "omp_task" in str(a.chain):
            continue
        bad.setdefault(a.top.loc, a)
    for w, a in sorted(bad.items()):
        ctx.bad("team", inst, w, "every thread of the team executes the write of %s at %s: no single, master, critical, reduction or worksharing construct" % (show(a.addr)[:160], a.where))
    if not bad:
        ctx.ok("team", inst, f.where, "%d writes outside of worksharing loops, all behind single / reduction" % n)


def task_rule(ctx, mod, f):
    S = Sym(f)
    tasks = [i for i in f.calls() if (i.callee or "") in ("__kmpc_omp_task", "__kmpc_omp_task_with_deps")]
    if not tasks:
        return

    def stop(i):
        return i.op in ("call", "invoke") and (i.callee or "").startswith(("__kmpc_omp_taskwait", "__kmpc_barrier", "__kmpc_end_taskgroup"))
    for t in tasks:
        inst = "%s: task at %s" % (name(f), t.loc.rsplit("/", 1)[-1])
        reached, ends = [], False
        seen, st = set(), [(t.block.id, t.idx + 1)]
        while st:
            b, k = st.pop()
            ended = False
            for i in f.blocks[b].insts[k:]:
                if stop(i):
                    ended = True
                    break
                reached.append(i)
                if i.op == "ret":
                    ends = True
            if not ended:
                for s in f.blocks[b].succ:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, 0))

        def shared_with_task(T, b):
            if b[0] == "i":
                i = T.f.insts[b[1]]
                if i.op == "load":
                    bb = [x for x in race.bases(T, i.ops[0])]
                    return not any(x[0] == "i" and (T.f.insts[x[1]].callee or "").startswith("__kmpc_omp_task_alloc") for x in bb if x[0] == "i" and T.f.insts[x[1]].op in ("call", "invoke")) \
                        and not all(race.private(T, x) for x in bb)
                if i.op in ("call", "invoke") and (i.callee or "").startswith(("_Znwm", "malloc")):
                    return T is S and f.inst_dom(i, t)
            return False
        bad = None
        for i in reached:
            if i.op in ("load", "store"):
                op = i.ops[0] if i.op == "load" else i.ops[1]
                if any(shared_with_task(S, b) for b in race.bases(S, op)):
                    bad = (i, show(S.load_addr(i) if i.op == "load" else S.store_addr(i)))
            elif i.op in ("call", "invoke") and (i.callee or "") in mod.funcs and mod.funcs[i.callee] is not f and not mod.funcs[i.callee].short.startswith(("std::", ".omp", "__")):
                g = mod.funcs[i.callee]
                G = Sym(g)
                for j in g.all():
                    if j.op in ("load", "store"):
                        op = j.ops[0] if j.op == "load" else j.ops[1]
                        if any(b[0] == "i" and g.insts[b[1]].op == "load" and not all(race.private(G, x) for x in race.bases(G, g.insts[b[1]].ops[0])) for b in race.bases(G, op)):
                            bad = (i, "what %s reads" % g.short)
                            break
            if bad:
                break
        # locals handed to the task by reference
        al = next((x for x in [t.ops[2]] if x[0] == "i"), None)
        refs = [s for s in S.stores() if any(b == al or (b[0] == "i" and f.insts[b[1]].op == "load" and al in race.bases(S, f.insts[b[1]].ops[0])) for b in race.bases(S, s.ops[1]))
                and s.ops[0][0] == "i" and f.insts[s.ops[0][1]].op == "alloca"]
        if bad:
            ctx.bad("task", inst, bad[0].loc, "the task may still be running when %s is accessed at %s: no taskwait in between" % (bad[1][:200], bad[0].loc))
        elif ends and refs:
            ctx.bad("task", inst, t.loc, "the task refers to a local of %s, which can return without waiting for it" % name(f))
        else:
            ctx.ok("task", inst, t.loc, "waited for before the data is used" if not ends else "nothing of the task is used before the end of the region")


def run(ctx):
    mod = ir.load("omp")
    ctx.rule("iteration", "no two iterations of a parallel loop touch the same shared memory, unless both only read (scratch data is private, results go to the iteration's own place or a reduction)")
    ctx.rule("between", "a parallel loop that uses what other iterations of an earlier one wrote starts after a barrier")
    ctx.rule("team", "shared memory is written by one thread of the team only outside of parallel loops")
    ctx.rule("task", "data a task works on is not used before the task is waited for")
    n = 0
    for nm, f in sorted(mod.funcs.items()):
        if ".omp_outlined_debug__" in nm and "reduction" not in nm and f.blocks:
            def region(f=f):
                R = race.Region(f)
                Fs = []
                ws_rule(ctx, R, Fs)
                between_rule(ctx, R, Fs)
                outside_rule(ctx, R, Fs)
            ctx.guard("iteration", name(f) + " " + f.where.rsplit("/", 1)[-1], region, f.where)
            ctx.saw("parallel regions", "%s %s" % (name(f), f.where))
            n += 1
        elif f.blocks and any((i.callee or "").startswith("__kmpc_omp_task") for i in f.calls()):
            ctx.guard("task", name(f), lambda f=f: task_rule(ctx, mod, f), f.where)
            ctx.saw("functions with tasks", f.short)
