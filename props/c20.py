"""C20: traversals of the Barnes-Hut trees and the engines that use them (analysis in c19.py)"""
import ir
from c19 import KEEP, Layout, traverses, engines


def run(ctx):
    mod = ir.load("seq", nbx_args=KEEP)
    lay = Layout(mod)
    ctx.rule("force", "a node is taken as one body exactly when it is farther than its radius; then the force on the body grows by that of its mass at its mass centre, else it does not change")
    ctx.rule("visit", "the traversal starts at the root, goes on to both children of every near node, to those of no other, and ends when no node is left")
    ctx.rule("engine", "a Barnes-Hut engine builds the tree anew when it has none, the rate is 0 or divides the step, updates it otherwise, and gives every body its velocity and the force of the traversal for its place and mass divided by its mass")
    traverses(ctx, mod, lay)
    engines(ctx, mod, lay)
