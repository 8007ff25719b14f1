#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from catalog.py and props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import catalog, props
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
na = []
with open(HERE + "/properties.jsonl", "w") as f:
    for p in catalog.P:
        q = {k: p[k] for k in ("id", "title", "statement")}
        q["quantifier"] = {"over": p["over"], "text": p["text"]}
        q["why_tests_cant"] = p["why"]
        q["anchors"] = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
        if p.get("na"):
            na.append({"property": p["id"], "reason": p["na"]})
checks = []
for p in catalog.P:
    if p.get("na"):
        assert p["id"] not in props.PROPS
        continue
    i = p["id"]
    if i not in props.PROPS:
        print("no check yet for", i)
        na.append({"property": i, "reason": "no check built"})
        continue
    checks.append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                   "technique": p["tech"], "level": "other", "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Every check is static: the deciding step interprets or queries /repo's current source; nothing of /repo is executed."}
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")


def table():
    out = []
    for p in catalog.P:
        out.append("### %s %s\n" % (p["id"], p["title"]))
        if p.get("na"):
            out.append("Not applicable: %s\n" % p["na"])
            continue
        out.append("%s: %s.\n" % ("Sources", ", ".join(p["files"])))
        out.append("Why tests cannot: %s\n" % p["why"])
        for o in props.PROPS.get(p["id"], []):
            b = ""
            if hasattr(o, "defs"):
                q, t = o.defs["quick"], o.defs["thorough"]
                if q:
                    b = " Bounds: %s" % " ".join("%s=%s" % kv for kv in q.items())
                    if t != q:
                        b += "; thorough %s" % " ".join("%s=%s" % kv for kv in t.items())
                    b += "."
            out.append("* `%s` (%s): %s.%s" % (o.name, "EVA, harness/h_%s.c" % o.file if hasattr(o, "defs") else "affine/term" if hasattr(o, "key") else type(o).__name__, o.what, b))
        out.append("")
    return "\n".join(out)


def planted():
    out = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
    sd = HERE + "/seeded"
    for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        m = json.load(open("%s/%s/meta.json" % (sd, d)))
        out.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), m.get("caught_by", m["property"])))
    return "\n".join(out)


if os.path.isdir(HERE + "/seeded"):
    d = open(HERE + "/DESIGN.md").read()
    for mark, text in (("PLANTED", planted()), ("TABLE", table())):
        a, e = "<!-- %s -->" % mark, "<!-- /%s -->" % mark
        if e not in d:
            d = d.replace(a, a + "\n" + e)
        i, j = d.index(a), d.index(e)
        d = d[:i] + a + "\n" + text + "\n" + d[j:]
    open(HERE + "/DESIGN.md", "w").write(d)
