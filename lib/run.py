#!/usr/bin/env python3
"""check <ID> [quick|thorough]: decide one property of /verif/properties.jsonl."""
import json, os, re, sys, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_known():
    known = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("KNOWN-FINDING:"):
                f = dict(re.findall(r"(\w+)=(\"[^\"]*\"|\S+)", l))
                known.append({k: v.strip('"') for k, v in f.items()})
    return known


def is_known(pid, v, known):
    for k in known:
        if k.get("property") != pid or k.get("obligation") != v["obligation"]:
            continue
        if "function" in k and k["function"] != v["function"]:
            continue
        if "file" in k and k["file"] != os.path.basename(v["file"]):
            continue
        if "rule" in k and k["rule"] not in v["rule"]:
            continue
        if "expr" in k and k["expr"] not in v["expr"] + " " + v.get("source", ""):
            continue
        return k
    return None


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[3] if len(sys.argv) > 3 else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if pid not in props.PROPS:
        print("unknown property", pid)
        return 2
    t0 = time.time()
    obs = [o for o in props.PROPS[pid] if not only or o.name == only]
    with ThreadPoolExecutor(max_workers=8) as ex:
        res = list(ex.map(lambda o: o.run(tier), obs))
    known = load_known()
    viol, errors, kf = [], [], []
    for r in res:
        errors += r["errors"]
        for v in r["violations"]:
            k = is_known(pid, v, known)
            (kf if k else viol).append((v, k))
    for r in res:
        print("  [%s] %s: %s" % (r["name"], r.get("summary") or
              "%d functions, %d/%d statements analysed, %d obligations discharged, %d reach points" % (
                  r.get("functions_analysed", 0), r.get("statements_reached", 0),
                  r.get("statements_total", 0), r.get("obligations_valid", 0), r.get("reach_points", 0)),
              "%d finding(s), %.1f s" % (len(r["violations"]), r.get("wall", 0))))
    seen = set()
    for v, k in kf:
        if id(k) not in seen:
            seen.add(id(k))
            print("KNOWN-FINDING: property=%s %s" % (pid, k.get("what", v["expr"])))
    rd = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rd, exist_ok=True)
    for n, (v, _) in enumerate(viol):
        path = os.path.join(rd, "%s-%d.txt" % (pid, n))
        text = ("property   %s\nobligation %s\nat         %s:%d in %s\nrule       %s\nstatus     %s\nconstruct  %s\nsource     %s\n"
                % (pid, v["obligation"], v["file"], v["line"], v["function"], v["rule"], v["status"], v["expr"], v.get("source", "")))
        open(path, "w").write(text)
        if n < 20:
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("   " + text.replace("\n", "\n   "))
    for e in errors:
        print("ERROR", e)
    disch = sum(r.get("obligations_valid", 0) for r in res)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": props.LEVEL.get(pid, "other"),
        "coverage": {
            "explanation": props.EXPLAIN.get(pid, "") or "see per-obligation entries",
            "rule": "; ".join(r["what"] for r in res if r.get("what")),
            "obligations": disch + len(viol) + len(kf),
            "discharged": disch,
            "checker_cmd": "python3 lib/run.py %s %s" % (pid, tier),
            "trusted_base": sorted(set(o.engine for o in obs)),
            "functions_analysed": sum(r.get("functions_analysed", 0) for r in res),
            "statements_reached": sum(r.get("statements_reached", 0) for r in res),
            "reach_points": sum(r.get("reach_points", 0) for r in res),
            "sites": sum(r.get("sites", 0) for r in res),
            "per_obligation": [{k: v for k, v in r.items() if k not in ("violations", "cmd")} for r in res],
        },
        "assumptions": props.ASSUME.get(pid, []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    if not only:
        json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    if viol:
        return 1
    if errors:
        return 2
    print("OK property=%s tier=%s %.1fs" % (pid, tier, time.time() - t0))
    return 0


sys.exit(main())
