"""Driver for the abstract-interpretation obligations (Frama-C / EVA)."""
import cxx
import csv, os, re, subprocess, sys, tempfile, time, shutil, threading
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SLOTS = threading.Semaphore(int(os.environ.get("VF_JOBS", "8")))
BASE_CPP = ["-I%s/harness" % HERE, "-I%s/inc/linux" % REPO, "-I%s/inc" % REPO,
            "-I%s/src" % REPO, "-I%s/src/hashtable" % REPO, "-I%s" % REPO,
            "-D__linux__=1", "-D__amd64__=1", "-D_GNU_SOURCE=1"]

# status rows that are not proof obligations of the analysed code
SKIP_KINDS = ("assigns clause", "from clause", "termination clause",
              "allocates clause", "frees clause", "complete behaviors",
              "disjoint behaviors")
BAD = ("Unknown", "Invalid", "Invalid or unreachable", "Partially proven",
       "Inconsistent", "Considered invalid")


class Eva:
    """One harness = one family of obligations."""
    engine = "frama-c 25.0 EVA (value analysis), its libc contracts, harness/vf*.h"

    def __init__(self, name, file=None, quick=None, thorough=None, what="",
                 slevel=100000, ilevel=16, opts=(), ignore=(), shards=1, cxx=None,
                 timeout=(600, 850)):
        self.name, self.file = name, (file or name)
        q = quick or {}
        t = dict(q)
        t.update(thorough or {})
        self.defs = {"quick": q, "thorough": t}
        self.what, self.slevel, self.ilevel = what, slevel, ilevel
        self.opts, self.ignore, self.timeout = list(opts), tuple(ignore), timeout
        self.cxx = cxx      # a C++ harness, lowered to C first (lib/cxx.py)
        self.shards = shards if isinstance(shards, tuple) else (shards, max(shards, 4) if shards > 1 else 1)

    def run(self, tier):
        ns = self.shards[1 if tier == "thorough" else 0]
        t0 = time.time()
        with ThreadPoolExecutor(max_workers=ns) as ex:
            parts = list(ex.map(lambda k: self.run1(tier, k, ns), range(ns)))
        out = {"name": self.name, "what": self.what, "bounds": self.defs[tier],
               "violations": [], "errors": [], "reach_points": 0}
        reach, seen = {}, set()
        for p in parts:
            out["errors"] += p["errors"]
            for k in ("functions_analysed", "statements_total", "statements_reached"):
                out[k] = max(out.get(k, 0), p.get(k, 0))
            out["obligations_valid"] = max(out.get("obligations_valid", 0), p.get("obligations_valid", 0))
            for k, v in p.get("reach", {}).items():
                reach[k] = reach.get(k, False) or v
            for v in p["violations"]:
                key = (v["file"], v["line"], v["rule"], v["expr"])
                if key not in seen:
                    seen.add(key)
                    out["violations"].append(v)
        out["shards"] = ns
        out["reach_points"] = sum(1 for v in reach.values() if v)
        if not out["errors"]:
            if not reach:
                out["errors"].append("harness %s has no reachability points" % self.name)
            for (fn, line, func), v in sorted(reach.items()):
                if not v:
                    out["violations"].append({
                        "obligation": self.name, "file": fn, "line": int(line), "function": func,
                        "rule": "reachability", "status": "Dead",
                        "expr": "no analysed execution gets here: the code under analysis never returns "
                                "normally (it aborts, exits, loops for ever or faults) or never yields the required outcome",
                        "source": self.line(fn, line)})
        out["wall"] = round(time.time() - t0, 2)
        return out

    def run1(self, tier, shard, nshards):
        defs = dict(self.defs[tier])
        defs["VF_SHARD"], defs["VF_NSHARD"] = shard, nshards
        if tier == "thorough":
            defs["THOROUGH"] = 1
        d = tempfile.mkdtemp(prefix="vfeva.")
        out = {"violations": [], "errors": []}
        try:
            with open(d + "/vf_cfg.h", "w") as f:
                for k, v in defs.items():
                    f.write("#define %s %s\n" % (k, v))
            cpp = ["-I" + d] + list(BASE_CPP)
            h = os.path.join(HERE, "harness", "h_" + self.file + ".c")
            if self.cxx:
                try:
                    cxx.build(os.path.join(HERE, "harness", "cxx", self.cxx), d, cpp)
                except cxx.Err as e:
                    out["errors"].append("%s: %s" % (self.cxx, e))
                    return out
            cmd = ["frama-c", "-machdep", "gcc_x86_64",
                   "-c11",
                   "-cpp-command=%s -B %s %%2 gcc -E -CC -I. %%args %%1" % (sys.executable, os.path.join(HERE, "lib", "cppfilter.py")),
                   "-cpp-frama-c-compliant",
                   "-cpp-extra-args=" + " ".join(cpp),
                   "-eva", "-eva-slevel", str(self.slevel),
                   "-eva-ilevel", str(self.ilevel), "-eva-plevel", "1024",
                   "-eva-no-alloc-returns-null", "-eva-subdivide-non-linear", "300",
                   "-eva-alloc-builtin", "fresh",
                   "-eva-no-show-progress",
                   "-eva-split-limit", "1000", "-eva-split-return", "full",
                   "-eva-warn-key", "builtins:missing-spec=inactive",
                   "-kernel-warn-key", "annot:missing-spec=inactive",
                   ] + self.opts + [h, "-metrics", "-metrics-cover", "main", "-then", "-report-csv", d + "/out.csv"]
            tmo = self.timeout[1 if tier == "thorough" else 0]
            with SLOTS:
                try:
                    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                       timeout=tmo, cwd=d, text=True, errors="replace")
                except subprocess.TimeoutExpired:
                    out["errors"].append("analysis of %s exceeded %d s" % (self.name, tmo))
                    return out
            if p.returncode != 0 or not os.path.exists(d + "/out.csv"):
                out["errors"].append("frama-c failed on %s:\n%s" % (self.name, p.stdout[-3000:]))
                return out
            self.parse(p.stdout, d + "/out.csv", out)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return out

    def parse(self, log, csvf, out):
        m = re.search(r"(\d+) functions? analyzed \(out of (\d+)\)", log)
        out["functions_analysed"] = int(m.group(1)) if m else 0
        m = re.search(r"(\d+) statements? reached \(out of (\d+)\)", log)
        out["statements_reached"] = int(m.group(1)) if m else 0
        out["statements_total"] = int(m.group(2)) if m else 0
        if re.search(r"Degeneration occurred|Stopping at nth alarm", log):
            out["errors"].append("analysis degenerated in %s" % self.name)
        m = re.search(r"Functions syntactically unreachable from main: \d+\n\s*-+\n(.*?)(?:\n\s*\n|\n\[|\Z)", log, re.S)
        uncalled = set(re.findall(r"(\w+);", m.group(1))) if m else set()
        reach, valid, bad = {}, 0, []
        with open(csvf, newline="") as f:
            rd = csv.reader(f, delimiter="\t", quoting=csv.QUOTE_NONE)
            next(rd)
            for row in rd:
                if len(row) < 7:
                    continue
                dr, fn, line, func, kind, status, prop = row[:7]
                if kind in SKIP_KINDS or status in ("Considered valid", "Untried"):
                    continue
                if func in ("VF_fail", "VF_reach"):
                    continue
                if dr.startswith("FRAMAC_SHARE"):
                    continue        # contracts of libc functions vf_libc.h gives a body to
                if func in uncalled:
                    continue        # a scene this configuration does not use
                if "VF_reach" in kind:
                    reach.setdefault((fn, line, func), False)
                    if status == "Valid":
                        reach[(fn, line, func)] = True
                    continue
                if status == "Valid":
                    valid += 1
                elif status == "Dead":
                    if "VF_fail" in kind:
                        valid += 1
                elif status in BAD:
                    bad.append((dr, fn, line, func, kind, status, prop))
        out["obligations_valid"] = valid
        out["reach"] = reach
        src = {}
        for dr, fn, line, func, kind, status, prop in bad:
            path = fn if dr == "." else os.path.join(dr, fn)
            if not os.path.isabs(path):
                path = os.path.join(HERE, "harness", fn)
            text = ""
            try:
                if path not in src:
                    src[path] = open(path, errors="replace").read().split("\n")
                text = src[path][int(line) - 1].strip()
            except Exception:
                pass
            if any(re.search(i, "%s %s %s %s" % (kind, func, prop, text)) for i in self.ignore):
                continue
            out["violations"].append({
                "obligation": self.name, "file": path, "line": int(line), "function": func,
                "rule": kind, "status": status, "expr": prop, "source": text})

    def line(self, fn, line):
        try:
            return open(os.path.join(HERE, "harness", os.path.basename(fn))).read().split("\n")[int(line) - 1].strip()
        except Exception:
            return ""
