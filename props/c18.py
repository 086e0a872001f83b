"""C18: the factories build what the options ask for."""
import ir, optflow, poly
from poly import atom, minmax, topoly, show
from optflow import Walk, Path, classof, const, mentions, options

KEEP = ("--keep=nbody_engine_opencl::select_devices,nbody_create_solver,nbody_create_engine,tree_layout_from_str,tree_layout_name",)
KEPT = ("nbody_engine_opencl::select_devices",)
MAP = ("p", ("P",), 0)
INT = ("UInt", "Int", "ULongLong", "LongLong")

COMMON = {"m_min_step": ("min_step", 1e-9, "real"), "m_max_step": ("max_step", 1e-2, "real"), "m_clamp_to_box": ("clamp", 0, "bool")}
RK = {"m_error_threshold": ("error_threshold", 1e-4, "real"), "m_max_recursion": ("max_recursion", 8, "int"),
      "m_refine_steps_count": ("refine_steps_count", 1, "int"), "m_substep_subdivisions": ("substep_subdivisions", 8, "int"),
      "m_correction": ("correction", 0, "bool")}
SOLVERS = {
    "adams": ("nbody_solver_adams", {"m_rank": ("rank", 1, "int"), "m_correction": ("correction", 0, "bool")}),
    "bs": ("nbody_solver_bulirsch_stoer", {"m_max_level": ("max_level", 8, "int"), "m_error_threshold": ("error_threshold", 1e-11, "real")}),
    "euler": ("nbody_solver_euler", {}), "midpoint": ("nbody_solver_midpoint", {}), "midpoint-st": ("nbody_solver_midpoint_stetter", {}),
    "rk4": ("nbody_solver_rk4", {}),
    "trapeze": ("nbody_solver_trapeze", {"m_refine_steps_count": ("refine_steps_count", 1, "int")}),
}
for _a in ("rkck", "rkdp", "rkdverk", "rkf", "rkfeagin10", "rkfeagin12", "rkfeagin14", "rkgl", "rklc"):
    SOLVERS[_a] = ("nbody_solver_" + _a, RK)
BH = {"m_distance_to_node_radius_ratio": ("distance_to_node_radius_ratio", 10, "real"), "m_tree_build_rate": ("tree_build_rate", 0, "int")}
AH = {"m_full_recompute_rate": ("full_recompute_rate", 1000, "int"), "m_max_dist_sqr": ("max_dist", 10, "square"), "m_min_force_sqr": ("min_force", 1e-4, "square")}
CYCLE, NESTED = 0, 1
LAYOUTS = {"tree": 0, "heap": 1, "heap_stackless": 2}


def run(ctx):
    mod = ir.load("seq", nbx_args=KEEP)
    ctx.rule("class", "for each documented alias the factory returns an object of the class that implements it")
    ctx.rule("option", "each option of the alias, converted to the type of the setting, or its default when it is not given, reaches the setting it is named after")
    ctx.rule("unknown", "an alias or option value that is not documented gives no object")
    ctx.rule("starter", "the starter of the Adams solver is built from the same options with the alias of starter_solver (euler when not given); without a starter there is no solver, and building it comes to an end")
    ctx.rule("device", "the OpenCL engines select the devices of the options, after the block size is set, and there is no engine when that fails")
    ctx.rule("names", "names of tree layouts and values convert into each other without loss")
    ctx.rule("arguments", "every command line argument --key=value, and only such, becomes option key with the text value")
    ctx.guard("class", "solvers", lambda: solvers(ctx, mod))
    ctx.guard("class", "engines", lambda: engines(ctx, mod))
    ctx.guard("class", "extrapolators", lambda: extrapolators(ctx, mod))
    ctx.guard("names", "layouts", lambda: names(ctx, mod))
    ctx.guard("arguments", "parser", lambda: arguments(ctx, mod))


def outcomes(ctx, mod, fn, assume):
    f = mod.one(fn)
    if f is None:
        raise LookupError("no function " + fn)
    w = Walk(mod, assume, summary=[f.name], keep=KEPT)
    st = Path(); st.mem[(("P",), 0)] = ("map", ())
    r = [(s, v) for s, v in w.run(f, [MAP], st) if v not in (("dead",), ("cut",))]
    for n in w.seen:
        ctx.saw("functions", n)
    ctx.saw("scenarios", fn + repr(sorted(assume.items())))
    ctx.analysed.setdefault("paths", set()).update("%s%r#%d" % (fn, sorted(assume.items()), k) for k in range(len(r)))
    return f, r


def enum(mod, name):
    return None


# --- one setting ------------------------------------------------------------------------------
def shape(v):
    """(kind, key, default) of a converted option, through width changes"""
    cast = None
    while v and v[0] in ("trunc", "zext", "sext", "fpext", "fptrunc", "sitofp", "uitofp", "fptosi", "fptoui") and len(v) == 3:
        if v[0][0] == "f" and v[0] != "fpext":
            cast = v[0]
        v = v[2]
    if v and v[0] == "to" and isinstance(v[2], tuple) and v[2][0] == "opt":
        d = v[2][2]
        d = d[1] if d and d[0] == "v" else None
        if d and d[0] == "s":
            try:
                d = ("f", float(d[1]))
            except ValueError:
                d = None
        return (v[1] if cast is None else cast), v[2][1], (const(d) if d else None)
    return None


def setting(v, key, default, kind, facts):
    """True / False / None and why"""
    if v is None:
        return None, "not traced"
    if kind == "square":
        if v[0] == "fmul" and v[1] == v[2]:
            return setting(v[1], key, default, "real", facts)
        if mentions(v, key) and shape(v):
            return False, "the setting is compared with squared quantities but holds the option itself"
        if not options(v) and v[0] in ("c", "f", "null") and not any(mentions(c, key) for c, w in facts):
            return False, "the option is not used: %r" % (v,)
        k = options(v)
        if k and key not in k:
            return False, "it is made of option %s" % ", ".join(sorted(k))
        return None, repr(v)
    if kind == "bool":
        if v[0] == "not" and v[1][0] == "eq" and const(v[1][2]) == 0:
            v = v[1][1]
        if v[0] == "not" and v[1][0] == "to" and mentions(v[1], key):
            return False, "the option is inverted"
    s = shape(v)
    if s:
        k, name, d = s
        if name != key:
            return False, "it holds option %s" % name
        if d is None:
            return None, "default not traced"
        if float(d) != float(default):
            return False, "its default is %r, not %r" % (d, default)
        if kind == "real" and k not in ("Double", "Real"):
            return (None if k[0] == "f" and k != "fptrunc" else False), "the option is converted by to%s" % k
        if kind == "int" and k not in INT:
            return (False if k == "Bool" else None), "the option is converted by to%s" % k
        if kind == "bool" and k not in ("Bool",) + INT:
            return None, "the option is converted by to%s" % k
        return True, ""
    if v[0] == "to" and v[2] in (("var", "invalid"),):
        return False, "the option is not looked up"
    k = options(v)
    if k and key not in k:
        return False, "it is made of option %s" % ", ".join(sorted(k))
    if v[0] in ("c", "f", "null") and not any(mentions(c, key) or key in options(c) for c, w in facts):
        return False, "the option does not reach it: it is always %r" % (v[1] if len(v) > 1 else None,)
    return None, repr(v)[:200]


def settings(ctx, mod, f, inst, s, v, cls, table):
    fields = {n: o for o, n, t, sz in mod.fields_flat(cls)}
    for name, (key, default, kind) in sorted(table.items()):
        if name not in fields:
            ctx.undecided("option", "%s.%s" % (inst, key), f.where, "no member %s in %s" % (name, cls))
            continue
        x = s.mem.get((v[1], v[2] + fields[name]))
        r, why = setting(x, key, default, kind, s.facts)
        ctx.decide(r, "option", "%s: %s -> %s.%s" % (inst, key, cls, name), f.where, why)


# --- solvers ----------------------------------------------------------------------------------
def built(ctx, mod, f, inst, outs, cls, strict=True):
    """the outcomes that return an object, after the class rule"""
    live = [(s, v) for s, v in outs if v != ("null",)]
    if not outs:
        ctx.undecided("class", inst, f.where, "no path traced to the end")
        return []
    if not live and not all(clear(x) for s, v in outs for x in s.facts):
        ctx.undecided("class", inst, f.where, "conditions not traced")
        return []
    if not live:
        ctx.bad("class", inst, f.where, "nothing is built for this documented alias: every path returns null")
        return []
    r = []
    for s, v in live:
        c = classof(mod, s, v)
        if c is None:
            ctx.undecided("class", inst, f.where, "class of the returned object not traced: %r" % (v,))
        elif c == cls:
            ctx.ok("class", inst, f.where)
            if not strict or all(map(clear, s.facts)):
                r.append((s, v))
            else:
                ctx.undecided("option", inst, f.where, "conditions not traced")
        elif not any(optfact(x) for x in s.facts):
            ctx.bad("class", inst, f.where, "the factory returns a %s, not a %s" % (c, cls))
        else:
            ctx.undecided("class", inst, f.where, "a %s under a condition on other options" % c)
    return r


def optfact(x):
    return bool(options(x[0])) or not clear(x)


def clear(x):
    return optflow.traced(x[0], KEPT)


def unknown(ctx, mod, fn, key, bad):
    for text in bad:
        f, outs = outcomes(ctx, mod, fn, {key: text})
        inst = "%s=%s" % (key, text or "(none)")
        if any(classof(mod, s, v) and all(map(clear, s.facts)) for s, v in outs):
            s, v = [(s, v) for s, v in outs if classof(mod, s, v) and all(map(clear, s.facts))][0]
            ctx.bad("unknown", inst, f.where, "a %s is built" % classof(mod, s, v))
        elif outs and all(v == ("null",) for s, v in outs):
            ctx.ok("unknown", inst, f.where)
        else:
            ctx.undecided("unknown", inst, f.where, "result not traced")


def solvers(ctx, mod):
    fn = "nbody_create_solver"
    for alias, (cls, table) in sorted(SOLVERS.items()):
        f, outs = outcomes(ctx, mod, fn, {"solver": alias})
        t = dict(COMMON); t.update(table)
        for s, v in built(ctx, mod, f, "solver=" + alias, outs, cls):
            settings(ctx, mod, f, alias, s, v, cls, t)
            if alias == "adams":
                starter(ctx, mod, f, s, v, cls)
        if alias == "adams":
            nostarter(ctx, mod, f, outs)
    unknown(ctx, mod, fn, "solver", ["", "no such solver", "rk", "ADAMS "])


def starter(ctx, mod, f, s, v, cls):
    fields = {n: o for o, n, t, sz in mod.fields_flat(cls)}
    x = s.mem.get((v[1], v[2] + fields["m_starter"])) if "m_starter" in fields else None
    if x is None or x[0] != "made" or len(x[2]) != 1 or x[2][0][0] != "map":
        k = classof(mod, s, x) if x and x[0] == "p" else None
        if k:
            ctx.bad("starter", "options of the starter", f.where, "the starter is always a %s" % k)
        elif x == ("null",):
            ctx.bad("starter", "options of the starter", f.where, "the solver has no starter")
        else:
            ctx.undecided("starter", "options of the starter", f.where, "starter not traced: %r" % (x,))
        return
    m = dict(x[2][0][1])
    a = m.get("solver")
    want = ("opt", "starter_solver", ("v", ("s", "euler")))
    same = a in (want, ("v", ("to", "String", want)))
    if same:
        ctx.ok("starter", "alias of the starter", f.where)
    elif a is None:
        ctx.bad("starter", "alias of the starter", f.where, "the starter is built with the alias of the solver itself")
    elif a[0] == "opt" or (a[0] == "v" and a[1][0] == "s"):
        ctx.bad("starter", "alias of the starter", f.where, "the starter is built with alias %r" % (a,))
    else:
        ctx.undecided("starter", "alias of the starter", f.where, repr(a))
    extra = sorted(k for k in m if k not in ("solver", "starter_solver"))
    if "*" in extra:
        ctx.bad("starter", "options of the starter", f.where, "the starter does not get the options of the run")
    elif extra:
        ctx.undecided("starter", "options of the starter", f.where, "changed for the starter: " + ", ".join(extra))
    else:
        ctx.ok("starter", "options of the starter", f.where)
    # an Adams starter asks for a starter again: it must not be the same request
    again = m.get("starter_solver")
    excluded = any(c[0] == "streq" and "starter_solver" in options(c) and c[2] == ("s", "adams") and not w for c, w in s.facts)
    if not same:
        return
    if again is None and not excluded:
        ctx.bad("starter", "starter of the starter", f.where, "with starter_solver=adams the starter is built from the same options again, without end")
    elif again in (None, ("removed",)) or (again[0] == "v" and again[1] != ("s", "adams")):
        ctx.ok("starter", "starter of the starter", f.where)
    else:
        ctx.undecided("starter", "starter of the starter", f.where, repr(again))


def nostarter(ctx, mod, f, outs):
    hit = False
    for s, v in outs:
        for c, w in s.facts:
            if c[0] == "eq" and c[1][0] == "made" and const(c[2]) == 0 and w:
                hit = True
                if classof(mod, s, v):
                    ctx.bad("starter", "unknown starter", f.where, "a solver is built although its starter could not be")
                elif v == ("null",):
                    ctx.ok("starter", "unknown starter", f.where)
    if not hit:
        if any(classof(mod, s, v) and any(k[0] == "call" and k[1] == "nbody_create_solver" for k in s.calls) for s, v in outs):
            ctx.bad("starter", "unknown starter", f.where, "the result of building the starter is not tested before it is used")
        else:
            ctx.undecided("starter", "unknown starter", f.where, "no path where the starter could not be built")


# --- engines ----------------------------------------------------------------------------------
def engines(ctx, mod):
    fn = "nbody_create_engine"
    for alias, cls in (("block", "nbody_engine_block"), ("openmp", "nbody_engine_openmp"), ("simple", "nbody_engine_simple")):
        f, outs = outcomes(ctx, mod, fn, {"engine": alias})
        built(ctx, mod, f, "engine=" + alias, outs, cls)
    f, outs = outcomes(ctx, mod, fn, {"engine": "ah"})
    for s, v in built(ctx, mod, f, "engine=ah", outs, "nbody_engine_ah"):
        settings(ctx, mod, f, "ah", s, v, "nbody_engine_ah", AH)
    for tt in ("cycle", "nested_tree", None):
        for tl in ("tree", "heap", "heap_stackless", None):
            cls = "nbody_engine_simple_bh_" + (tl or "tree")
            bh(ctx, mod, fn, "simple_bh", tt, tl, tl or "tree", cls)
    for tt in ("cycle", "nested_tree", None):
        for tl in ("heap", "heap_stackless", None):
            bh(ctx, mod, fn, "opencl_bh", tt, tl, tl or "heap", "nbody_engine_opencl_bh")
    f, outs = outcomes(ctx, mod, fn, {"engine": "opencl"})
    r = built(ctx, mod, f, "engine=opencl", outs, "nbody_engine_opencl")
    device(ctx, mod, f, "opencl", outs, r)
    unknown(ctx, mod, fn, "engine", ["", "no such engine", "simple ", "bh"])
    for a, k, t in (("simple_bh", "traverse_type", "spiral"), ("simple_bh", "tree_layout", "hash"), ("opencl_bh", "traverse_type", "spiral"),
                    ("opencl_bh", "tree_layout", "hash"), ("opencl_bh", "tree_layout", "tree")):
        f, outs = outcomes(ctx, mod, fn, {"engine": a, k: t})
        inst = "%s %s=%s" % (a, k, t)
        b = [all(map(clear, s.facts)) and classof(mod, s, v) for s, v in outs if v != ("null",)]
        if not outs:
            ctx.undecided("unknown", inst, f.where)
        elif any(b):
            ctx.bad("unknown", inst, f.where, "a %s is built" % [x for x in b if x][0])
        elif b:
            ctx.undecided("unknown", inst, f.where)
        else:
            ctx.ok("unknown", inst, f.where)


def bh(ctx, mod, fn, alias, tt, tl, layout, cls):
    asm = {"engine": alias, "traverse_type": tt, "tree_layout": tl}
    inst = "engine=%s traverse_type=%s tree_layout=%s" % (alias, tt or "(none)", tl or "(none)")
    f, outs = outcomes(ctx, mod, fn, asm)
    r = built(ctx, mod, f, inst, outs, cls)
    fields = {n: o for o, n, t, sz in mod.fields_flat(cls)}
    for s, v in r:
        settings(ctx, mod, f, inst, s, v, cls, BH)
        for name, key, want in (("m_traverse_type", "traverse_type", NESTED if tt == "nested_tree" else CYCLE), ("m_tree_layout", "tree_layout", LAYOUTS[layout])):
            if name not in fields:
                ctx.undecided("option", inst + " " + name, f.where, "no such member")
                continue
            x = s.mem.get((v[1], v[2] + fields[name]))
            k = const(x)
            if k is None:
                ctx.undecided("option", inst + " " + name, f.where, repr(x))
            elif k == want:
                ctx.ok("option", inst + " " + name, f.where)
            else:
                ctx.bad("option", inst + " " + name, f.where, "%s gets value %d, not %d" % (name, k, want))
    if alias == "opencl_bh":
        device(ctx, mod, f, inst, outs, r)


def device(ctx, mod, f, inst, outs, live):
    data = "nbody_engine_opencl::data"
    boff = {n: o for o, n, t, sz in mod.fields_flat(data)}.get("m_block_size")
    doff = {n: o for o, n, t, sz in mod.fields_flat("nbody_engine_opencl")}.get("d")
    for s, v in live:
        c = [k for k in s.calls if k[0] == "call" and k[1] == KEPT[0]]
        if len(c) != 1:
            if not c and not any("select_devices" in str(k[1]) for k in s.calls):
                ctx.bad("device", inst, f.where, "an engine is returned for which no device was selected")
            else:
                ctx.undecided("device", inst, f.where, "%d selections" % len(c))
            continue
        _, n, a, loc, mem = c[0]
        if a[0] != v:
            ctx.undecided("device", inst, loc, "another engine's devices")
            continue
        d = a[1]
        want = ("to", "String", ("opt", "device", ("v", ("s", "0:0"))))
        if d == want:
            ctx.ok("device", inst + ": device", loc)
        elif d[0] == "s" or (options(d) and (options(d) != {"device"} or (d[0] == "to" and d[2][0] == "opt"))):
            ctx.bad("device", inst + ": device", loc, "devices are selected by %r" % (d,))
        else:
            ctx.undecided("device", inst + ": device", loc, repr(d))
        for k, key in ((2, "verbose"), (3, "oclprof")):
            if k < len(a):
                r, why = setting(a[k], key, 0, "bool", s.facts)
                ctx.decide(r, "device", "%s: %s" % (inst, key), loc, why)
        if boff is not None and doff is not None:
            q = mem.get((v[1], v[2] + doff))
            now = mem.get((q[1], q[2] + boff)) if q and q[0] == "p" else None
            end = s.mem.get((q[1], q[2] + boff)) if q and q[0] == "p" else None
            r, why = setting(now, "block_size", 64, "int", s.facts)
            if r is True and now != end:
                r, why = None, "set twice"
            ctx.decide(r, "device", inst + ": block size at the selection", loc, why)
        # success is result 0
        ret = [(cc, w) for cc, w in s.facts if any(isinstance(x, tuple) and x[:2] == ("ret", KEPT[0]) for x in cc[1:])]
        if not ret:
            ctx.bad("device", inst + ": failure", loc, "the result of selecting the devices is not tested")
        elif len(ret) == 1 and ret[0][0][0] == "eq" and const(ret[0][0][2]) == 0:
            if ret[0][1]:
                ctx.ok("device", inst + ": failure", loc)
            else:
                ctx.bad("device", inst + ": failure", loc, "an engine is returned when selecting the devices failed")
        else:
            ctx.undecided("device", inst + ": failure", loc, repr(ret))
    # an engine that is not returned is deleted
    for s, v in outs:
        if v == ("null",) and any(k[0] == "call" and k[1] == KEPT[0] for k in s.calls):
            o = [k[2][0] for k in s.calls if k[0] == "call" and k[1] == KEPT[0]][0]
            dead = any((k[0] == "delete" and k[1] == o) or k[0] == "vcall" and k[2] and k[2][0] == o or (k[0] == "call" and "~" in str(k[1]) and k[2] and k[2][0] == o) for k in s.calls)
            (ctx.ok if dead else ctx.bad)("device", inst + ": engine that failed is deleted", f.where, *(() if dead else ("the engine is neither returned nor deleted",)))


# --- extrapolators, names -----------------------------------------------------------------------
def extrapolators(ctx, mod):
    f = mod.one("nbody_create_extrapolator")
    for alias, cls in (("berrut", "nbody_extrapolator_berrut"), ("neville", "nbody_extrapolator_neville"), ("no such type", None), ("", None)):
        w = Walk(mod, {})
        st = Path(); st.mem[(("T",), 0)] = ("s", alias)
        args = [("p", ("T",), 0), ("in", "engine"), ("in", "order"), ("p", ("N",), 0)]
        outs = [(s, v) for s, v in w.run(f, args[:len(f.args)], st) if v not in (("dead",), ("cut",))]
        inst = "extrapolator " + (alias or "(none)")
        ctx.saw("scenarios", inst)
        if cls:
            for s, v in built(ctx, mod, f, inst, outs, cls, False):
                fields = {n: o for o, n, t, sz in mod.fields_flat(cls)}
                e = s.mem.get((v[1], v[2] + fields["m_e"])) if "m_e" in fields else None
                if e == ("in", "engine"):
                    ctx.ok("option", inst + ": engine", f.where)
                elif e == ("null",):
                    ctx.bad("option", inst + ": engine", f.where, "the extrapolator does not get the engine")
                else:
                    ctx.undecided("option", inst + ": engine", f.where, repr(e))
        elif outs and all(v == ("null",) for s, v in outs):
            ctx.ok("unknown", inst, f.where)
        elif any(classof(mod, s, v) and all(map(clear, s.facts)) for s, v in outs):
            ctx.bad("unknown", inst, f.where, "an extrapolator is built")
        else:
            ctx.undecided("unknown", inst, f.where)


def names(ctx, mod):
    to, fr = mod.one("tree_layout_name"), mod.one("tree_layout_from_str")
    for text, n in sorted(LAYOUTS.items()):
        w = Walk(mod, {})
        st = Path(); st.mem[(("T",), 0)] = ("s", text)
        outs = w.run(fr, [("p", ("T",), 0)], st)
        k = {const(v) for s, v in outs}
        if len(k) == 1 and None not in k:
            ctx.decide(k == {n}, "names", "value of '%s'" % text, fr.where, "'%s' becomes %r, not %d" % (text, k, n))
        else:
            ctx.undecided("names", "value of '%s'" % text, fr.where)
        outs = Walk(mod, {}).run(to, [("c", n)])
        t = {v for s, v in outs}
        if len(t) == 1 and list(t)[0] and list(t)[0][0] == "lit":
            ctx.decide(list(t)[0][1] == text, "names", "name of %d" % n, to.where, "it is called '%s'" % list(t)[0][1])
        else:
            ctx.undecided("names", "name of %d" % n, to.where)
    st = Path(); st.mem[(("T",), 0)] = ("s", "no such layout")
    k = {const(v) for s, v in Walk(mod, {}).run(fr, [("p", ("T",), 0)], st)}
    if None in k or not k:
        ctx.undecided("names", "unknown layout", fr.where)
    else:
        ctx.decide(not (k & set(LAYOUTS.values())), "names", "unknown layout", fr.where, "an unknown name becomes %r" % (k,))


# --- command line -------------------------------------------------------------------------------
def arguments(ctx, mod):
    import sym
    f = mod.one("nbody_parse_arguments")
    if len(f.loops) != 1:
        return ctx.undecided("arguments", "loop", f.where, "%d loops" % len(f.loops))
    L = list(f.loops.values())[0]
    S = sym.Sym(f)
    sret = len(f.args) == 3
    argc, argv = (1, 2) if sret else (0, 1)
    # which arguments: the last one exactly when the index of the first is 1 or 0
    t = S.trip(L.header)
    first = None
    for i in f.all():
        if i.op == "load" and i.block.id in L.blocks and i.ty == "ptr":
            d = S.load_addr(i) - atom("arg", argv)
            z = subst0(d, f, L)
            if z is not None and z.const() is not None:
                first = int(z.const()) // 8
    if t is None or first is None:
        ctx.undecided("arguments", "all arguments are read", f.where, "passes: %s, first argument: %s" % (t, first))
    else:
        r = any(trips(t, x) for x in ([atom("arg", argc) - first, minmax("max", [topoly(first), atom("arg", argc)]) - first]))
        ctx.decide(r and first in (0, 1), "arguments", "all arguments are read", f.where, "the loop makes %s passes from argument %s" % (show(t), first))
    # state before the loop, then one pass of it
    w = Walk(mod, {})
    st = Path()
    w.frame += 1
    env = {("a", 0): ("p", ("OUT",), 0), ("a", argc): ("in", "argc"), ("a", argv): ("p", ("argv",), 0), "frame": w.frame}
    pre = w.walk(f, f.entry, None, env, st, 0, {}, None) if False else None
    class Stop(Exception):
        pass
    res = one_pass(w, f, L, env, st)
    if res is None:
        return ctx.undecided("arguments", "loop", f.where, "the loop body was not traced")
    arg, outs = res
    rep = False
    for s, v in outs:
        if v == ("cut",) or v == ("dead",):
            continue
        m = s.mem.get((("OUT",), 0))
        if m is None or m[0] != "map":
            ctx.undecided("arguments", "pass", f.where, "the map was not traced: %r" % (m,))
            continue
        got = s.mem.get(("stored",))
        facts = [(c, x) for c, x in s.facts]
        pos = [c for c, x in facts if x and c[0] == "starts"]
        neg = [c for c, x in facts if not x and c[0] == "starts"]
        size = [(c, x) for c, x in facts if c[0] == "eq" and c[1][0] == "size"]
        st_ = [x for x in s.calls if x[0] == "stored"]
        if len(st_) > 1:
            ctx.undecided("arguments", "pass", f.where, "several options from one argument")
            continue
        if st_:
            rep = True
            _, key, val = st_[0]
            okk = key[0] == "item" and key[1][0] == "split" and const(key[2]) is not None
            if not okk:
                ctx.undecided("arguments", "key", f.where, repr(key)[:200])
                continue
            lst = key[1]
            ctx.decide(const(key[2]) == 0, "arguments", "key", f.where, "the key is piece %r of the argument" % (const(key[2]),))
            x = val[1] if val[0] == "v" else val
            if x[0] == "item" and x[1] == lst:
                ctx.decide(const(x[2]) == 1, "arguments", "value", f.where, "the value is piece %r of the argument" % (const(x[2]),))
            else:
                ctx.undecided("arguments", "value", f.where, repr(x)[:200])
            src, sep = lst[1], lst[2]
            ctx.decide(True if sep == ("s", "=") else (False if sep[0] == "s" else None), "arguments", "separator", f.where, "the argument is split at %r" % (sep,))
            if src[0] == "mid" and src[1] == arg:
                n = const(src[2])
                ctx.decide(None if n is None else n == 2 and const(src[3]) == -1, "arguments", "prefix", f.where, "the key starts at character %r" % (n,))
            elif src == arg:
                ctx.bad("arguments", "prefix", f.where, "the prefix stays part of the key")
            else:
                ctx.undecided("arguments", "prefix", f.where, repr(src)[:200])
            if any(c[1] == arg and c[2] == ("s", "--") for c in pos):
                ctx.ok("arguments", "only --arguments", f.where)
            elif pos and all(c[2][0] == "s" for c in pos):
                ctx.bad("arguments", "only --arguments", f.where, "arguments are recognised by prefix %r" % (pos[0][2],))
            elif not pos and not neg:
                ctx.bad("arguments", "only --arguments", f.where, "arguments without -- are taken as options")
            else:
                ctx.undecided("arguments", "only --arguments", f.where, repr(facts)[:200])
            sizes = feasible(facts, ("size", lst))
            if sizes is None:
                ctx.undecided("arguments", "key and value", f.where, repr(facts)[:300])
            else:
                ctx.decide(sizes == {2}, "arguments", "key and value", f.where, "the pieces are used as key and value when their number is one of %r" % (sorted(sizes),))
        else:
            # nothing stored: the argument has no -- or is not key=value
            tested = [c[1] for c, x in facts if len(c) > 2 and isinstance(c[1], tuple) and c[1][0] == "size"]
            sizes = feasible(facts, tested[0]) if tested else None
            fine = neg or (sizes is not None and 2 not in sizes)
            if fine:
                ctx.ok("arguments", "skipped arguments", f.where)
            elif sizes is not None and len(facts) == len(tested) + len(pos):
                ctx.bad("arguments", "skipped arguments", f.where, "an argument --key=value is not stored")
            else:
                ctx.undecided("arguments", "skipped arguments", f.where, repr(facts)[:200])
            if v != ("back",) and fine:
                ctx.bad("arguments", "following arguments", f.where, "an argument that is not understood ends the reading of the command line")
    if not rep:
        ctx.bad("arguments", "options are stored", f.where, "no option is stored")


def feasible(facts, what):
    """the sizes 0..6 that the tests of `what` on this path let through"""
    r = set()
    for n in range(7):
        ok = True
        for c, w in facts:
            if what not in c:
                continue
            k = const(c[2]) if c[1] == what else None
            if k is None:
                return None
            q = c[0][1:] if len(c[0]) == 3 else c[0]
            t = {"eq": n == k, "ne": n != k, "lt": n < k, "le": n <= k, "gt": n > k, "ge": n >= k}.get(q)
            if t is None:
                return None
            ok = ok and t == w
        if ok:
            r.add(n)
    return r


def trips(t, want):
    import pit
    v = pit.equal(t, want)
    r = v[0] if isinstance(v, tuple) else v
    return r in (True, "equal")


def subst0(d, f, L):
    """the address of the first pass"""
    for a in list(d.atoms()):
        if poly.akey(a)[0] == "iv":
            d = poly.subst(d, {a: topoly(0)})
    return d


def one_pass(w, f, L, env, st):
    """the text of the argument of a pass, and the outcomes of one pass"""
    pre = [p for p in f.blocks[L.header].pred if p not in L.blocks]
    if len(pre) != 1:
        return None
    # run straight to the header
    b = f.entry; fr = None; e = env
    while b != L.header:
        for i in f.blocks[b].insts[:-1]:
            r = w.step(f, i, e, st, 0)
            if len(r) != 1:
                return None
            e, st = r[0]
        if len(f.blocks[b].succ) != 1:
            return None
        fr, b = b, f.blocks[b].succ[0]
    e = dict(e)
    for i in f.blocks[L.header].insts:
        if i.op == "phi":
            e[("i", i.id)] = ("in", "index")
    st = st.copy()
    st.mem[(("OUT",), 0)] = ("map", ())
    old_set, old_ov = w.setat, w.override
    def override(s, m, key, v):
        s = s.copy(); s.calls += (("stored", key, v),)
        return s
    w.override = override
    ARG = ("argument",)
    # a string made of argv[...] is the argument
    old_text = w.text
    def text(s, v):
        x = old_text(s, v)
        if x[0] == "?":
            return ARG
        return x
    w.text = text
    outs = []
    hdr = f.blocks[L.header]
    states = [(e, st)]
    for i in hdr.insts[:-1]:
        if i.op == "phi":
            continue
        states = [y for x in states for y in w.step(f, i, x[0], x[1], 0)]
    for ee, ss in states:
        inside = [x for x in hdr.succ if x in L.blocks]
        if len(inside) != 1:
            return None
        outs += w.walk(f, inside[0], L.header, ee, ss, 0, {}, L.header)
    return ARG, outs
