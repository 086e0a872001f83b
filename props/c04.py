"""C04: Runge-Kutta coefficient tables."""
import numpy as np
import ir, tableau, consts
from consts import LD

# documented order of the method, published orders of the two weight rows (unordered)
DOC = {"rk4": (4, (4, 4)), "rkck": (5, (5, 4)), "rkdp": (5, (5, 4)), "rkdverk": (5, (6, 5)), "rkf": (7, (8, 7)),
       "rkfeagin10": (10, (10, 8)), "rkfeagin12": (12, (12, 10)), "rkfeagin14": (14, (14, 12)), "rkgl": (6, (6, 2)), "rklc": (4, (4, 2))}
NOT_EMBEDDED = ("rk4", "rkgl")


def order_of(w, tol):
    p = 0
    for n in sorted(w):
        if w[n][0] > tol:
            break
        p = n
    return p


def run(ctx):
    mod = ir.load("seq")
    st = consts.Statics(mod)
    ctx.rule("extent", "every coefficient a step of the method reads lies inside its static array")
    ctx.rule("nodes", "stage times equal the row sums of the stage matrix")
    ctx.rule("explicit", "a table that is not declared implicit has a strictly lower triangular stage matrix")
    ctx.rule("pair", "the two weight rows satisfy the rooted-tree order conditions of the published pair")
    ctx.rule("order", "the weight row that advances the solution reaches the documented order")
    ctx.rule("embedded", "a table declared embedded has two different weight rows of different order; every table but rk4 and rkgl is declared embedded")
    ctx.rule("bound", "each solver is built with its own coefficient table")
    tabs = {}
    for cls in mod.derived("nbody_butcher_table"):
        if not mod.vtable(cls):
            continue
        alias = cls.split("nbody_butcher_table_")[-1]
        try:
            t = tableau.extract(mod, cls, st)
        except consts.Unknown as e:
            ctx.undecided("order", cls, "", str(e))
            continue
        tabs[cls] = t
        ctx.saw("tables", "%s (%d stages)" % (cls, t.s))
        ctx.saw("coefficients", "%s: %d" % (cls, t.s * (t.s if t.implicit else t.s - 1) + 3 * t.s))
        if t.oob:
            ctx.bad("extent", cls, t.f_a.where, "; ".join(t.oob[:4]))
            continue
        ctx.ok("extent", cls)
        tol = 1e-18 if t.text else 4e-16
        rs = np.abs(t.A.sum(1) - t.c)
        sc = np.abs(t.A).sum(1) + 1
        i = int(np.argmax(rs / sc))
        ctx.decide(bool(rs[i] / sc[i] < 4e-16), "nodes", cls, t.f_c.where, "c[%d] = %.17g but the coefficients of that stage sum to %.17g" % (i, t.c[i], t.A.sum(1)[i]))
        if not t.implicit:
            # rows were read only below the diagonal: whatever else is in the arrays is never used
            ctx.ok("explicit", cls)
        else:
            ctx.decide(bool(np.any(np.triu(t.A) != 0)), "explicit", cls, t.f_a.where, "declared implicit but its stages depend only on earlier ones")
        if alias not in DOC:
            ctx.undecided("order", cls, "", "no documented order for this table")
            continue
        doc, pair = DOC[alias]
        F = tableau.forest(max(pair) + 1 if ctx.tier == "thorough" and max(pair) < 14 else max(pair))
        o = {}
        w = {}
        for nm in ("b1", "b2"):
            w[nm] = tableau.residuals(t.A, getattr(t, nm), F, max(F.by))
            o[nm] = order_of(w[nm], tol)
        ctx.saw("order conditions", "%s: %d rooted trees" % (cls, 2 * len(F.kids)))
        got = tuple(sorted((min(o["b1"], max(pair)), min(o["b2"], max(pair))), reverse=True))
        okp = all(g >= p for g, p in zip(got, pair))
        det = ""
        if not okp:
            for nm in ("b1", "b2"):
                n = o[nm] + 1
                if n in w[nm] and w[nm][n][1] is not None:
                    det += "%s: order %d; first failing condition is tree %s of order %d (residual %.2g). " % (nm, o[nm], tableau.tree_str(F, w[nm][n][1]), n, w[nm][n][0])
        ctx.decide(okp, "pair", cls, t.f_b2.where, "weight rows have orders %s, published pair is %s. %s" % (got, pair, det))
        if o["b2"] >= doc:
            ctx.ok("order", cls)
        else:
            ctx.bad("order", "%s: advancing weights reach order %d, documented order %d" % (cls, o["b2"], doc), t.f_b2.where,
                    "condition of tree %s fails" % tableau.tree_str(F, w["b2"][o["b2"] + 1][1]))
        if t.embedded:
            ctx.decide(o["b1"] != o["b2"] and bool(np.any(t.b1 != t.b2)), "embedded", cls, t.f_b1.where, "declared embedded but both weight rows have order %d" % o["b1"])
        elif t.embedded is False:
            ctx.decide(alias in NOT_EMBEDDED, "embedded", cls, t.f_b1.where, "this pair of weight rows is not declared embedded: steps are never subdivided")
    # association solver -> table
    for cls in mod.derived("nbody_solver_rk_butcher"):
        alias = cls.split("nbody_solver_")[-1]
        want = "nbody_butcher_table_" + alias
        fs = mod.by_short("%s::%s" % (cls, cls))
        if not fs or want not in tabs:
            ctx.undecided("bound", cls, "", "constructor or table not found")
            continue
        used = set()
        for f in fs:
            for x in f.all():
                for c in tabs:
                    if any(refers(op, c, mod) for op in x.ops) or (x.callee and mod.callee_short(x) == "%s::%s" % (c, c)):
                        used.add(c)
        if not used:
            ctx.undecided("bound", cls, fs[0].where, "table construction not found in the constructor")
        else:
            ctx.decide(used == {want}, "bound", cls, fs[0].where, "constructed with %s" % sorted(used))


def refers(op, cls, mod):
    if isinstance(op, list):
        if len(op) > 1 and op[0] == "g" and op[1].startswith("_ZTV") and mod.demangle(op[1]) == "vtable for " + cls:
            return True
        return any(refers(o, cls, mod) for o in op[1:] if isinstance(o, list))
    return False
