#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decide property ID of the code in /repo.

Abstract interpretation of the LLVM IR that clang makes of the current
sources, plus structural queries on it; nothing is executed.
exit 0: no violation; exit 1: VIOLATION line; exit 2: analysis broken."""
import gc
import json
import os
import resource
import sys
import time
gc.disable()
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import multiprocessing as mp
import multiprocessing.connection
import ir
import oblig
import levels
import tasks

TRUSTED = ["clang 18 -O0 front end (C to LLVM IR) for the host data model",
           "the abstract interpreter, term simplifier and decision procedure in engine/ (own code)",
           "the model of the NAND driver: any documented outcome, reads return arbitrary bytes",
           "the rule tables in engine/ as the reading of the property"]


def load_known():
    """known findings: lines 'finding: property=ID rule=R func=F | text'"""
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                head, _, text = l[8:].partition("|")
                d = dict(x.split("=", 1) for x in head.split())
                d["text"] = text.strip()
                out.append(d)
    return out


def _child(t, want, q):
    resource.setrlimit(resource.RLIMIT_AS, (3600 << 20,) * 2)
    r = tasks.guard(t, want)
    q.send(r)
    q.close()


def run_all(ts, want, deadline):
    """run the tasks in forked children, at most 8 at a time"""
    todo, live, res = list(ts), [], []
    ctx = mp.get_context("fork")
    while todo or live:
        while todo and len(live) < 8:
            t = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(t, want, b))
            p.start()
            b.close()
            live.append((t, p, a, min(deadline, time.time() + t.limit)))
        mp.connection.wait([a for _, _, a, _ in live], timeout=1.0)
        for x in list(live):
            t, p, a, end = x
            r = None
            if a.poll():
                try:
                    r = a.recv()
                except EOFError:
                    r = dict(out=[], notes=[], functions=[], callsites=0, steps=0, loops=0,
                             error="analysis process died", name=t.name, wall=0)
            elif time.time() > end:
                p.kill()
                r = dict(out=[], notes=[], functions=[], callsites=0, steps=0, loops=0,
                         error="out of time", name=t.name, wall=0)
            if r is not None:
                p.join()
                res.append(r)
                live.remove(x)
    return res


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    want = {pid}
    os.environ["VERIF_TIER"] = tier
    if tier == "thorough":
        oblig.Ctx.REFBUDGET = 240.0
        oblig.Ctx.MAXREF = 12
    try:
        ts = [t for t in tasks.all_tasks() if pid in t.props]
        if not ts:
            raise ir.AnalysisBroken("no analysis for " + pid)
        tasks.preload(ts)
    except ir.AnalysisBroken as e:
        print("ANALYSIS-BROKEN %s: %s" % (pid, e))
        return 2
    ts.sort(key=lambda t: -t.weight)
    res = run_all(ts, want, t0 + (780 if tier == "quick" else 3000))
    outs = [o for r in res for o in r["out"] if o[0] == pid]
    errs = [(r["name"], r["error"]) for r in res if r["error"]]
    broken = [r for r in res if r.get("broken")]
    n = {"proved": 0, "violated": 0, "undecided": 0}
    rules = {}
    for o in outs:
        n[o[4]] += 1
        d = rules.setdefault(o[1], {"proved": 0, "violated": 0, "undecided": 0})
        d[o[4]] += 1
    known = [k for k in load_known() if k.get("property") == pid]
    viols, seen, kn = [], set(), {}
    for o in outs:
        if o[4] != "violated":
            continue
        key = (o[1], o[2], o[3])
        if key in seen:
            continue
        seen.add(key)
        k = next((k for k in known if k.get("rule") == o[1] and k.get("func") in (None, o[3])), None)
        if k is not None:
            kn[k["text"]] = kn.get(k["text"], 0) + 1
        else:
            viols.append(o)
    evd = os.path.join(HERE, "evidence")
    os.makedirs(evd, exist_ok=True)
    samples = []
    have = set()
    for o in outs:
        if o[1] not in have and len(samples) < 12:
            have.add(o[1])
            samples.append("%s in %s at %s:%s: %s" % (o[1], o[3], o[2][0], o[2][1], o[4]))
    und = sorted(set("%s in %s at %s:%s: %s" % (o[1], o[3], o[2][0], o[2][1], o[5][:200]) for o in outs if o[4] == "undecided"))
    how = levels.CLAIM.get(pid, (None, ""))
    how = how[0] and "static analysis of the LLVM IR of the current sources: " + how[0] + ". " + how[1].strip()
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": how or "static analysis of the LLVM IR of the current sources: abstract interpretation from every "
                           "public entry point with symbolic geometry, loops generalised to invariants; each rule instance is an "
                           "obligation on one abstract path (or one construct), discharged by the decision procedure of the domain",
            "obligations": len(outs), "discharged": n["proved"], "undecided": n["undecided"],
            "violated": n["violated"], "rules": rules, "samples": samples,
            "analyses": [{"unit": r["name"], "wall_s": round(r["wall"], 1), "steps": r["steps"], "obligations": len(r["out"])} for r in res],
            "functions": sorted(set(f for r in res for f in r["functions"])),
            "call_sites": sum(r["callsites"] for r in res), "loops": sum(r["loops"] for r in res),
            "undecided_list": und[:40], "notes": sorted(set(x for r in res for x in r["notes"]))[:40],
            "analysis_errors": ["%s: %s" % e for e in errs],
            "checker_cmd": "python3 check.py %s %s" % (pid, tier), "trusted_base": TRUSTED,
        },
        "assumptions": ["log2 page size <= 16, at least 2 and at most 2^18 blocks, at most 2^30 pages",
                        "the NAND driver does not modify the journal, map or caller's buffers beyond the read destination"],
        "wall_s": round(time.time() - t0, 2), "violations": len(viols),
    }
    for r in res:
        if r.get("extra"):
            ev["coverage"].setdefault("detail", {})[r["name"]] = r["extra"]
    with open(os.path.join(evd, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for t, c in kn.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, t))
    print("%s: %d obligations, %d discharged, %d undecided, %d violated; %d functions, %d call sites, %.1f s"
          % (pid, len(outs), n["proved"], n["undecided"], n["violated"], len(ev["coverage"]["functions"]),
             ev["coverage"]["call_sites"], time.time() - t0))
    for e in errs:
        print("UNDECIDED analysis of %s: %s" % e)
    for u in und[:10]:
        print("UNDECIDED", u)
    if viols:
        rp = os.path.join(evd, "replay-%s.txt" % pid)
        with open(rp, "w") as f:
            for o in viols:
                f.write("rule %s violated in %s at %s:%s\n  %s\n  path: %s\n" % (o[1], o[3], o[2][0], o[2][1], o[5], o[6]))
        for o in viols[:10]:
            print("  rule %s in %s at %s:%s: %s [path %s]" % (o[1], o[3], o[2][0], o[2][1], o[5][:400], o[6][:300]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if broken or not outs or (n["proved"] == 0):
        print("ANALYSIS-BROKEN %s: %s" % (pid, "; ".join(str(e) for e in errs) or "no obligation was decided"))
        return 2
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
