"""C09: input/output and parse failures are reported to the caller."""
from streams import *
from c08 import Agg

FUNCS = [("nbody_data_stream::write", 2), ("nbody_data_stream::open", 4), ("nbody_data_stream_reader::load", 2), ("nbody_data_stream_reader::seek", 2), ("nbody_data_stream_reader::read", 2),
         ("nbody_data::save", 2), ("nbody_data::load", 3), ("nbody_data::load_zeno_ascii", 2), ("nbody_data::load_initial", 3)]
WORD = {"open": "the file could not be opened", "read": "the file is too short or unreadable", "write": "the data were not written completely", "flush": "the data could not be flushed",
        "tflush": "the text could not be written", "seek": "the position could not be reached", "conv": "a number could not be converted"}
RECORD = ("push_back", "emplace_back", "add_body", "insert", "emplace", "operator[]")


def run(ctx):
    mod = ir.load("seq")
    ctx.rule("reported", "no path on which a file, stream or conversion operation failed ends in success")
    ctx.rule("lost", "no path that ends in success drops unflushed data (a file or text stream destroyed while its outcome is unknown)")
    ctx.rule("line", "no pass of a parsing loop records data although a conversion failed in that pass")
    ctx.rule("column", "a column of a split line is taken only after the number of columns was checked")
    ctx.rule("short", "input that ends before the announced number of bodies was read is not accepted")
    ctx.rule("dropped", "no pass of a parsing loop splits a line into columns and then neither records it nor fails, unless the line is a header, a comment or empty")
    for n, k in FUNCS:
        ctx.guard("reported", n, lambda n=n, k=k: func(ctx, mod, n, k))


def func(ctx, mod, n, k):
    E = flow(mod, n, k)
    f = E.f
    A = Agg(ctx)
    ctx.saw("functions", "%s (%s)" % (f.short, f.where))
    ctx.saw("paths", "%d exits and %d loop passes of %s" % (len(E.exits), sum(len(v) for v in E.iters.values()), f.short))
    b = Bodies(mod, A1) if n.endswith("reader::read") else None
    A.put("lost", n, f.where, True)
    for st, r, t in E.exits:
        ok = succeeded(E, r)
        late = len(st.ev)
        if b is not None:
            got = {b.array(e[2]): k for k, e in enumerate(st.ev) if e[0] == "read" and e[4]}
            if "pos" in got and "vel" in got:
                late = max(got["pos"], got["vel"])
        soft = {e[-1] for e in st.ev[late + 1:] if isinstance(e[-1], int)} - {e[-1] for e in st.ev[:late] if isinstance(e[-1], int)}
        hard = [x for x in st.failed if x[1] not in soft]
        for kind, iid in hard:
            i = f.insts[iid]
            A.put("reported", "%s: %s at %s" % (n, kind, i.loc), i.loc, None if ok is None else not ok, "%s (%s), yet %s reports success" % (WORD.get(kind, kind), i.loc, f.short))
        if ok and not hard:
            short(E, A, n, st)
        for j, e in enumerate(st.ev):
            if e[0] in ("close-dirty", "tlost") and ok and not hard:
                A.put("lost", n, f.insts[e[-1]].loc, False, "written data are dropped unflushed at %s while the function reports success" % f.insts[e[-1]].loc)
            if e[0] == "part":
                column(E, A, n, st, e)
    for h, its in E.iters.items():
        for st, ev in its:
            L = f.loops[h]
            inl = {i.id for bb in L.blocks for i in f.blocks[bb].insts}
            badid = {x[1] for x in st.failed if x[0] == "conv" and x[1] in inl}
            rec = [e for e in ev if e[0] == "store" or e[0] == "call" and (e[1] or "").split("::")[-1] in RECORD]
            if any(e[0] == "split" for e in ev):
                A.put("dropped", "%s: line split at %s" % (n, loc(E, [e for e in ev if e[0] == "split"][0][-1])), loc(E, [e for e in ev if e[0] == "split"][0][-1]), bool(rec) or excused(E, st, ev), "a data line is skipped silently")
            for iid in badid | {e[-1] for e in ev if e[0] == "conv"}:
                A.put("line", "%s: conversion at %s" % (n, loc(E, iid)), loc(E, iid), True if not (iid in badid and rec) else None if carried(E, st, iid, h) else False, "a number could not be converted at %s, yet the line is used (%s)" % (loc(E, iid), f.insts[rec[0][-1]].loc if rec else ""))
            for e in ev:
                if e[0] == "part":
                    column(E, A, n, st, e)
    A.done()


def column(E, A, n, st, e):
    l, k, v, iid = e[1:5]
    size = single_atom(atom("lsize", l))
    ivs = [a for a in k.atoms() if akey(a)[0] == "iv"]
    if v is None and ivs:
        try:
            T = {a: E.S.trip(akey(a)[2]) for a in ivs}
            T = {a: topoly(akey(single_atom(t))[3]) if single_atom(t) is not None and akey(single_atom(t))[0] == "early" else t for a, t in T.items()}
            top = subst(k, {a: t - ONE for a, t in T.items()})
            v = E.tri(st, cmp("lt", top - atom("lsize", l))) or v
            v = v if top.const() is None or v else E.tri(st, cmp("le", top + ONE - atom("lsize", l)))
            k = top
        except Exception:
            pass
    if v is None and k.const() is not None:
        v = enough(st, size, int(k.const()))
    if v is None and not any(size in c[1].atoms(deep=True) for c in st.facts) and size not in st.res:
        v = False
    A.put("column", "%s: column at %s" % (n, loc(E, iid)), loc(E, iid), v, "column %s is taken without a check that the line has that many" % show(k))


def excused(E, st, ev):
    """the line was recognised as header, comment or empty in this pass"""
    for c, b in st.facts.items():
        for a in c[1].atoms():
            k = akey(a)
            if k[0] == "call" and any(x in k[1] for x in ("10startsWith", "7isEmpty", "6isNull", "8contains", "7indexOf", "7compare")):
                if (c[0] in ("b", "ne")) == b or c[0] in ("eq", "lt", "le"):
                    return True
    return any(akey(a)[0] == "lsize" and v.iszero() for a, v in st.res.items())


def enough(st, size, k):
    """False when the facts of the path admit a line with k or fewer columns, None when they relate the number to something else"""
    fs = [(c, b) for c, b in st.facts.items() if size in c[1].atoms(deep=True)]
    if any(c[1].atoms() != {size} and set(c[1].atoms()) != {size} for c, b in fs):
        return None
    for n in range(0, k + 1):
        ok = True
        for c, b in fs:
            p = subst(c[1], {size: topoly(n)})
            if p.const() is None:
                return None
            v = (p.const() != 0) == (c[0] == "b") if c[0] in ("b", "nb") else cmp(c[0], p)[0] == "true"
            ok = ok and v == b
        if ok:
            return False
    return True


def carried(E, st, iid, h):
    """the conversion lies in an inner loop and the pass was judged by a value carried out of that loop"""
    inner = [g for g, M in E.f.loops.items() if g != h and E.f.insts[iid].block.id in M.blocks and g in E.f.loops[h].blocks]
    if not inner:
        return False
    for c in st.facts:
        for a in c[1].atoms(deep=True):
            k = akey(a)
            if k[0] in ("acc", "fin", "rec", "phi", "sumr", "sum", "trip", "early"):
                return True
    return False


def short(E, A, n, st):
    """a counted reading loop left because the input ended, in a run that reports success"""
    for c, b in st.facts.items():
        for a in c[1].atoms():
            k = akey(a)
            if k[0] == "call" and "QTextStream5atEndEv" in k[1]:
                i = E.f.insts[k[-1]]
                L = [M for M in E.f.loops.values() if i.block.id in M.blocks]
                for M in L:
                    T = single_atom(E.S.trip(M.header))
                    if T is not None and akey(T)[0] == "early":
                        end = (c[0] in ("b", "ne")) == b
                        A.put("short", "%s: loop at %s" % (n, i.loc), i.loc, not end, "the input ends early, yet the function reports success")
