"""Obligation ledger, evidence and verdict of one check run."""
import json, os, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx:
    def __init__(self, pid, tier, seed, technique=""):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.items = []           # obligations
        self.analysed = {}        # kind -> set
        self.notes = []
        self.rules = {}

    def rule(self, rid, text):
        self.rules[rid] = text

    def saw(self, kind, what):
        self.analysed.setdefault(kind, set()).add(str(what))

    def ok(self, rule, inst, where="", detail=""):
        self.items.append(("ok", rule, inst, where, detail))

    def bad(self, rule, inst, where="", detail=""):
        self.items.append(("violation", rule, inst, where, detail))

    def undecided(self, rule, inst, where="", detail=""):
        self.items.append(("undecided", rule, inst, where, detail))

    def decide(self, verdict, rule, inst, where="", detail=""):
        if verdict in (True, "equal"):
            self.ok(rule, inst, where)
        elif verdict in (False, "different"):
            self.bad(rule, inst, where, detail)
        else:
            self.undecided(rule, inst, where, detail)

    def guard(self, rule, inst, fn, where=""):
        """run one obligation group; an analysis failure there is recorded as undecided, never as an alarm"""
        try:
            return fn()
        except Exception as e:      # noqa
            if os.environ.get("NBSA_DEBUG"):
                traceback.print_exc()
            self.undecided(rule, inst, where, "analysis failed: %s: %s" % (type(e).__name__, e))
            return None


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def finish(ctx, level):
    known = [k for k in load_known() if k["property"] == ctx.pid and k.get("status") == "open"]
    viol, kn = [], []
    for it in ctx.items:
        if it[0] != "violation":
            continue
        m = [k for k in known if k["rule"] == it[1] and k["instance"] == it[2]]
        (kn if m else viol).append(it)
    n = {s: sum(1 for i in ctx.items if i[0] == s) for s in ("ok", "violation", "undecided")}
    per_rule = {}
    for st, r, inst, where, det in ctx.items:
        d = per_rule.setdefault(r, {"rule": ctx.rules.get(r, r), "decided_ok": 0, "violations": 0, "undecided": 0})
        d[{"ok": "decided_ok", "violation": "violations", "undecided": "undecided"}[st]] += 1
    cov = {
        "explanation": "Static analysis of the current tree of /repo (parsed by clang, normalised SSA form; nothing executed). Every obligation is one "
                       "instance of a rule at a construct of the source; 'undecided' instances have a shape the analysis cannot judge and are not counted as discharged.",
        "obligations": len(ctx.items), "discharged": n["ok"], "undecided": n["undecided"], "violations": len(viol), "known_findings": len(kn),
        "rules": per_rule,
        "analysed": {k: sorted(v)[:400] for k, v in ctx.analysed.items()},
        "analysed_counts": {k: len(v) for k, v in ctx.analysed.items()},
        "instances": [{"status": s, "rule": r, "instance": i, "where": w, "detail": str(d)[:600]} for s, r, i, w, d in ctx.items][:3000],
        "notes": ctx.notes,
    }
    ev = {"property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "level": level, "coverage": cov, "wall_s": round(time.time() - ctx.t0, 2)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", ctx.pid + ".json")
    tmp = path + ".tmp%d" % os.getpid()
    json.dump(ev, open(tmp, "w"), indent=1, sort_keys=True)
    os.rename(tmp, path)
    for it in kn:
        print("KNOWN-FINDING: property=%s %s [%s]" % (ctx.pid, it[2], it[1]))
    print("%s: %d obligations, %d discharged, %d undecided, %d violation(s), %d known finding(s), %.1f s" % (
        ctx.pid, len(ctx.items), n["ok"], n["undecided"], len(viol), len(kn), time.time() - ctx.t0))
    if os.environ.get("NBSA_VERBOSE"):
        for it in ctx.items:
            if it[0] != "ok" or os.environ["NBSA_VERBOSE"] == "2":
                print("  ", it[0], it[1], it[2], it[3], str(it[4])[:400])
    if viol:
        rp = os.path.join(VERIF, "evidence", ctx.pid + ".violation.json")
        json.dump([{"rule": ctx.rules.get(r, r), "rule_id": r, "instance": i, "where": w, "detail": str(d)[:4000]} for s, r, i, w, d in viol], open(rp, "w"), indent=1)
        for s, r, i, w, d in viol[:20]:
            print("  violated: %s: %s at %s: %s" % (r, i, w, str(d)[:300]))
        print("VIOLATION property=%s replay=%s" % (ctx.pid, rp))
        return 1
    if not ctx.items or n["ok"] + len(kn) == 0:
        print("%s: nothing could be analysed" % ctx.pid, file=sys.stderr)
        return 2
    return 0
