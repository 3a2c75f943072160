#!/usr/bin/env python3
"""check.py <property> : decide one property on /repo's current source.
exit 0 held, 1 violated (line "VIOLATION property=<id> replay=<path>"), 2 the analysis itself could not be carried out."""
import json, os, subprocess, sys, tempfile, time
import ir
from props import PROPS

HERE = os.path.dirname(os.path.abspath(__file__))
EV = os.path.join(HERE, "evidence")

def load_findings():
    """known-findings.txt: lines 'finding: property=<id> rule=<rule> func=<f> site=<s> | text' and 'fixed: ...' (suppress nothing)"""
    out = []
    for line in open(os.path.join(HERE, "known-findings.txt")):
        line = line.strip()
        if not line.startswith("finding:"):
            continue
        head, _, text = line[len("finding:"):].partition("|")
        d = dict(x.split("=", 1) for x in head.split())
        d["text"] = text.strip()
        out.append(d)
    return out

def inventory():
    return set(open(os.path.join(HERE, "inventory.txt")).read().split())

def owners(func, functions, inv):
    """functions of the committed inventory a report belongs to: the function itself, or, for code moved into a helper
    that did not exist when the findings were recorded, the recorded functions that (transitively) call it"""
    base = func.split(".")[0]
    if func in inv or base in inv:
        return {func, base}
    seen, todo, res = set(), [func], set()
    while todo:
        f = todo.pop()
        for c in functions.get(f, {}).get("callers", []):
            if c in seen:
                continue
            seen.add(c)
            if c in inv:
                res.add(c)
            else:
                todo.append(c)
    return res | {func}

def main():
    pid = sys.argv[1]
    P = PROPS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ir.build_tool()
    with tempfile.TemporaryDirectory(prefix="ra_") as tmp:
        bc, src = ir.build_ir(tmp)
        js = os.path.join(tmp, "r.json")
        cmd = [os.path.join(ir.TOOL, "ra"), bc, "--json", js] + P.get("args", [])
        if tier == "thorough":
            cmd.append("--thorough")
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if r.returncode or not os.path.exists(js):
            raise ir.Broken("analyser failed (%d): %s" % (r.returncode, (r.stderr or r.stdout)[-1500:]))
        d = json.load(open(js))
    missing = [l for l in r.stdout.splitlines() if l.startswith("CONTRACT-MISSING")]
    inv = inventory()
    rules = set(P["rules"])
    fnd = [f for f in load_findings() if f["property"] == pid]
    und = set()
    for u in d["undecided"]:
        a = u.split()
        und.add((a[0], a[1] if len(a) > 1 else ""))
    viol, known, hidden = [], {}, []
    for rep in d["reports"]:
        if rep["rule"] not in rules:
            continue
        own = owners(rep["func"], d["functions"], inv)
        if rep["func"].split(".")[0] not in inv and any((o, rep["site"]) in und or (o, "") in und for o in own):
            hidden.append(rep)
            continue
        hit = None
        for f in fnd:
            if f["rule"] == rep["rule"] and (f["func"] in own) and f["site"] in ("*", rep["site"]):
                hit = f
                break
        if hit:
            known.setdefault((hit["func"], hit["rule"], hit["site"]), (hit, []))[1].append(rep)
        else:
            viol.append(rep)
    hidden += [r for r in d["undecided_reports"] if r["rule"] in rules]
    counts = {k: d["counts"].get(k, 0) for k in P["counts"]}
    # a rule that suddenly has (almost) nothing to look at has lost its anchors: that is an error of the check, not a pass
    for k, lo in P.get("floor", {}).items():
        if counts.get(k, 0) < lo:
            raise ir.Broken("only %d instances of '%s' found (expected at least %d): the rule has lost its anchors" % (counts.get(k, 0), k, lo))
    samples = []
    for k in P["counts"]:
        samples += ["%s: %s" % (k, s) for s in d["samples"].get(k, [])[:6]]
    wall = time.time() - t0
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": P.get("level", "other"),
        "coverage": {
            "explanation": P["explanation"],
            "rules": sorted(rules),
            "sources_analysed": len(src),
            "functions_in_program": len(d["functions"]),
            "counts": counts,
            "samples": samples,
            "partially_explored_functions": d["incomplete"] if P.get("engine") else [],
            "undecided_sites": [x for x in d["undecided"]] if P.get("engine") else [],
            "reports_at_undecided_sites": len(hidden),
            "known_findings_matched": ["%s %s %s" % k for k in known],
        },
        "wall_s": round(wall, 2),
        "assumptions": P.get("assumptions", []) + missing,
        "violations": [{k: v[k] for k in ("rule", "file", "line", "func", "site", "msg")} for v in viol],
    }
    os.makedirs(EV, exist_ok=True)
    json.dump(ev, open(os.path.join(EV, pid + ".json"), "w"), indent=1)
    for k, (f, reps) in known.items():
        print("KNOWN-FINDING: property=%s %s (%s) %s" % (pid, f["func"], f["rule"], f["text"]))
    print("%s: %s, %.0fs, %s" % (pid, "held on everything analysed" if not viol else "%d violation(s)" % len(viol), wall, ", ".join("%s=%d" % kv for kv in counts.items())))
    if viol:
        path = os.path.join(EV, pid + ".violation.txt")
        with open(path, "w") as f:
            for v in viol:
                f.write("%s:%d: [%s] %s: %s\n" % (v["file"], v["line"], v["rule"], v["func"], v["msg"]))
            f.write("\nre-run: python3 /verif/check.py %s\n" % pid)
        for v in viol[:40]:
            print("%s:%d: [%s] %s: %s" % (v["file"], v["line"], v["rule"], v["func"], v["msg"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0

if __name__ == "__main__":
    try:
        sys.exit(main())
    except ir.Broken as e:
        print("ANALYSIS-ERROR: %s" % e)
        sys.exit(2)
