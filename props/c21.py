"""C21: the adjacent-bodies engine (analysis in c19.py)"""
import ir
from c19 import Ah


def run(ctx):
    mod = ir.load("seq")
    ctx.rule("adjacent", "all forces are evaluated when the rate is 0 or divides the step or nothing is kept; then every other body is either adjacent (close or strong) or part of the kept force, and in between the force is the kept one plus those of the adjacent bodies")
    fs = [f for f in mod.by_short("nbody_engine_ah::fcompute") if f.blocks]
    if len(fs) == 1:
        ctx.guard("adjacent", fs[0].short, lambda: Ah(ctx, mod, fs[0]).run(), fs[0].where)
    else:
        ctx.undecided("adjacent", "nbody_engine_ah::fcompute", "", "not found")
