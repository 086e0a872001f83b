"""C02: the right-hand side is the softened Newtonian pair force, the same in every direct engine, for every body count."""
from hosteng import *


def run(ctx):
    mod = ir.load("seq")
    R = roles.EngineRoles(mod)
    ctx.rule("derivative", "position rows of f are the velocity rows of y; velocity rows are the sum over all bodies of -m_j (r_i-r_j)/max(|r|^2, floor)^(3/2); nothing else is written")
    seen = set()
    y, f = A[2], A[3]
    n = R.count()
    minr2 = Fraction(float.fromhex("0x1.5798ee2308c3ap-27"))
    minr2 = Fraction(1e-8)
    for cls in DIRECT:
        if not mod.vtable(cls):
            ctx.undecided("derivative", cls, "", "class not found")
            continue

        def mk(S):
            out = [Cell(R.data(f) + n * (8 * k), n, layout(R, y, k + 3, IDX), label="d(position %s)" % "xyz"[k]) for k in range(3)]
            out += [Cell(R.data(f) + n * (8 * (k + 3)), n, pair_accel(R, y, k, IDX, minr2, n), label="d(velocity %s)" % "xyz"[k]) for k in range(3)]
            return out
        fx = {}
        run_cells(ctx, mod, R, "derivative", cls, "fcompute", 4, mk, [y, f], seen=seen, extra_fix={single_atom(n): lambda V: float(V.rng.choice([2, 3] if V.exact else [1, 2, 3, 65, 66]))})
