#!/usr/bin/env python3
"""writes DESIGN.md from tool/design.md, the property table, the known findings and the planted changes (run by hand, not by checks)"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = {
"C01": ("The effect summary of every vector operation of every host engine (simple, openmp, block, and the generic ones in nbody_engine), with loops closed symbolically.",
        "The documented per-element formula, written once in props/c01.py; an element not specified must not be written.",
        "All body counts (bounds are forms in the count); lists of coefficients of symbolic length; buffer size = problem size.", "2 s",
        "Tests use a few sizes and values; a tail element of a tile, an alias or a special coefficient escapes them."),
"C02": ("The effect summary of fcompute of the direct engines, with the pair loop as a closed sum.", "a_i = sum_j m_j (r_j - r_i) / max(r2, eps)^(3/2), derivative of position = velocity; nothing else is written.",
        "All body counts, all tile sizes.", "7 s", "Agreement on every count, including those that are no multiple of a tile, and of softened pairs."),
"C03": ("Effect summaries of init, get_data, clock functions of every engine (host arrays of the OpenCL engines).", "The layout c*count+i, sizes of buffers, time and step rules.", "All counts.", "4 s", "Layout mistakes that cancel between init and get_data, zero-length steps, sizes that only overrun for some counts."),
"C04": ("The constants of each table, propagated from static storage to the members the solver reads.", "Rooted-tree order conditions (all trees up to the order), row sums, bounds of every index.", "Trees up to order 10 (quick 8); residual tolerance of the printed precision.", "15 s", "A wrong digit in one coefficient changes the order, not the shape of a short test run."),
"C05": ("Each fixed-formula step as a form over y, f(t, y) and dt.", "The textbook formula.", "Adams: rank 1-5 and step numbers 0..3*rank+2 enumerated.", "4 s", "Stage times, ring-buffer order after wrap-around, and re-use of a derivative from another step are invisible for autonomous right-hand sides."),
"C06": ("advise, sub_step, compute_step of the table-driven solvers, with stages as a list of vectors and coefficients symbolic.", "The scheme of a Butcher table with fixed-point refinement, the subdivision rule, the compensation rule.", "Any number of stages (closed recurrences; the identity test instantiates 1-5).", "13 s", "Recursion, refinement and rejection paths need particular thresholds."),
"C07": ("One Bulirsch-Stoer step with inner solver and extrapolator as abstract objects.", "Restart, substep, table and acceptance rules; the sequence 2, 4, 6, 8, 12, ...", "Levels up to 12 in the identity test; sequences of 3..8 (16) levels.", "1 s", "Acceptance on a later level, and what a rejected level leaves behind, need particular error sequences."),
"C08": ("All paths of the stream writer, every file operation failing or succeeding.", "Order of effects: data, flush, index line; part rules; header rules.", "All fault sequences; frames by induction over one write.", "1 s", "Crash points and full disks."),
"C09": ("All paths of every load/save/stream function.", "No success after a failed operation.", "All fault sequences.", "3 s", "Fault injection at every operation."),
"C10": ("The format the writer emits against the format the reader parses.", "Columns, separators, kinds, header keys, file names, sizes.", "All values.", "2 s", "Values that only differ beyond 32 bits, mixed-up columns with equal test values."),
"C11": ("Every public operation of the reader as one inductive step over its file and members.", "Position = frame; members after load / close / seek / read.", "All histories of operations.", "1 s", "Sequences of seek, read, load, close."),
"C12": ("Value flow from columns to arrays and back.", "Column table, units, Zeno sections, box size, digits.", "All files.", "1 s", "Equal columns in samples hide swaps."),
"C13": ("Every path of every nbody_data member function.", "Equal change of all arrays (inductive invariant); witness assignments for is_equal.", "All histories.", "2 s", "Histories, tolerances per component."),
"C14": ("The run loop and the setters.", "Conditions of passes, checks, dumps, clamping and their order.", "All intervals and step sizes.", "9 s", "Intervals that are no multiple of the step."),
"C15": ("The extrapolators as linear maps on buffers.", "Neville and Berrut recurrences.", "Rows and levels 0-4 and 7; orders 1-4; values symbolic.", "1 s", "Only accuracy is tested."),
"C16": ("print_statistics and the compensated sums as closed forms.", "P, L, V, E and relative errors.", "All bodies.", "11 s", "The tests print them."),
"C17": ("Typestate of each buffer member of each solver and extrapolator.", "Created once, before use, large enough, written before read, released once; reset = new.", "construct, three steps, reset, three steps, destroy; options set before the first step.", "20 s", "Leaks, stale reads and reset bugs have no visible result in a short run."),
"C19": ("`node::build`, `node::rebuild`, `nbody_space_heap::build_p`, `rebuild`, both `build`s: the fields of one node as forms over its children, the arguments of the recursive calls, the loops over heap levels.", "The definition of a Barnes-Hut node (mass, centre, box, radius) and of a complete heap.", "Values: every node (induction over the recursion). Sizes: heap placement 2..69, rebuild 1..40 bodies, halves for 2..130.", "4 s", "Odd counts, boxes and radii that only change the accuracy."),
"C20": ("The three `traverse` loops as one step (current node, stack, totals), the nested visitor, the three Barnes-Hut `fcompute`s.", "The definition of the traversal; direct formula of the force.", "Every node kind (far, near, leaf, close to the clamp); heap numbers of sizes 2..12; rates 0..7, steps 0..8.", "5 s", "Nodes visited twice or left out, trees not rebuilt at some step."),
"C21": ("`nbody_engine_ah::fcompute` with both evaluations.", "Direct sum split into adjacent and kept bodies.", "Every pair kind; rates 0..7, steps 0..8.", "2 s", "Thresholds and steps the tests do not use."),
"C22": ("Every outlined parallel region (21 loops), the functions that create tasks.", "Definition of a data race: two unordered accesses of different iterations, one a write.", "Every pair of accesses; footprints of 2 to 9 iterations (130 bodies for blocks).", "3 s", "Interleavings no test run can force."),
"C23": ("Every kernel (two OpenCL versions), every launch, the tree upload and the level loop of the host code.", "The operations of C01 and C02, the traversal step of C20, the node formulas of C19, written as forms.", "1 to 5 devices, 64 to 1344 bodies for host loops; heap sizes as in C20.", "15 s", "Body counts, coefficients, device counts and the OpenCL version that the simulator runs of the tests leave out."),
"C24": ("All paths of every `fcompute` with its callees; `create_buffers`, `free_buffers`, `create_buffer`, `free_buffer` and the host buffer class with allocation and release as events.", "One count per evaluation; the multiset of buffers made, held and released.", "Paths: all. Arrays of 0..5 buffers, failure at every creation.", "1 s", "A failing creation, a leak, a count lost on the sparse path."),
"C18": ("The factories, specialised for each alias.", "README / documented table of aliases, options and defaults.", "Every alias, every option.", "4 s", "Options not exercised by a test."),
}
def main():
    ps = [json.loads(l) for l in open(V + "/properties.jsonl")]
    m = json.load(open(V + "/MANIFEST.json"))
    ck = {c["property"]: c for c in m["checks"]}
    s = ""
    for p in ps:
        i = p["id"]
        if i not in ck:
            continue
        a, o, b, c, w = D[i]
        s += "### %s %s\n\n*Method*: %s.\n*Analysed*: %s\n*Oracle*: %s\n*Bounds*: %s\n*Cost*: %s.\n*Beyond tests*: %s\n" % (i, p["title"], ck[i]["technique"], a, o, b, c, w)
        if ck[i].get("level_note"):
            s += "*Limits*: %s\n" % ck[i]["level_note"]
        s += "\n"
    kf = json.load(open(V + "/known_findings.json"))["findings"]
    fx = "".join("* %s %s (%s): %s\n" % (k["commit"], k["property"], k["instance"], k["what"]) for k in kf if k["status"] == "fixed")
    op = "".join("* %s (%s): %s\n" % (k["property"], k["instance"], k["what"]) for k in kf if k["status"] == "open")
    sd = "| id | check that catches it | needs | breaks |\n| --- | --- | --- | --- |\n"
    for d in sorted(os.listdir(V + "/seeded")):
        j = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
        sd += "| %s | %s | %s | %s |\n" % (d, j["property"], j["needs"], j["what_it_breaks"])
    na = "".join("* %s %s: %s\n" % (n["property"], next(p["title"] for p in ps if p["id"] == n["property"]), n["reason"]) for n in m["not_applicable"])
    t = open(V + "/tool/design.md").read()
    for k, v in (("@PROPS@", s), ("@FIXED@", fx), ("@OPEN@", op), ("@SEEDS@", sd), ("@NA@", na)):
        t = t.replace(k, v)
    open(V + "/DESIGN.md", "w").write(t)
main()
