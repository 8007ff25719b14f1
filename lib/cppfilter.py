#!/usr/bin/env python3
"""Preprocess for Frama-C, then rewrite the one GNU C construct its parser
rejects: 'return f(x);' in a function returning void."""
import re, subprocess, sys
out, cmd = sys.argv[1], sys.argv[2:]
p = subprocess.run(cmd + ["-o", out])
if p.returncode:
    sys.exit(p.returncode)
t = open(out, errors="surrogateescape").read()

# C11 atomics (harness/vf_atomic.h): make implicit accesses explicit
if re.search(r"\b_Atomic\b", t):
    import atomics
    t = atomics.rewrite(out, t)
    open(out, "w", errors="surrogateescape").write(t)
# '(void) x;' evaluates a variable to no effect: reading one that isn't
# initialized yet there is no fault
COM = r"(?:\s|/\*(?:[^*]|\*(?!/))*\*/|//[^\n]*\n|#[^\n]*\n)*"
u = re.sub(r"(?<=[;{}])(" + COM + r")\(\s*void\s*\)\s*(?:\(\s*[A-Za-z_]\w*\s*\)|[A-Za-z_]\w*)(?=\s*;)", r"\1", t)
u = re.sub(r"\b__builtin_(mem(?:cpy|move|set|cmp|chr)|str(?:len|cpy|cmp|ncmp|chr|rchr|cat))(?=\s*\()", r"\1", u)
if u != t:
    t = u
    open(out, "w", errors="surrogateescape").write(t)

if re.search(r"\breturn\s+[A-Za-z_(]", t):
    res, depth, i, head, void = [], 0, 0, 0, False
    tok = re.compile(r'/\*(?:.|\n)*?\*/|//[^\n]*|"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|^[ \t]*#.*$|[{};]|\breturn\b', re.M)
    pos = 0
    last = 0            # end of the previous top-level construct
    while True:
        m = tok.search(t, pos)
        if not m:
            break
        s = m.group(0)
        pos = m.end()
        if s == "{":
            if depth == 0:
                h = re.sub(r"/\*(?:.|\n)*?\*/|//[^\n]*|^[ \t]*#.*$", " ", t[last:m.start()], flags=re.M)
                void = bool(re.match(r"\s*(?:(?:static|inline|__inline|__inline__|extern|__extension__|__attribute__\s*\(\(.*?\)\))\s+)*void\s+\w+\s*\(", h, re.S))
            depth += 1
        elif s == "}":
            depth -= 1
            if depth == 0:
                last = pos
        elif s == ";" and depth == 0:
            last = pos
        elif s == "return" and depth > 0 and void:
            e = t.find(";", pos)
            x = t[pos:e]
            if x.strip() and "{" not in x:
                res.append((m.start(), e + 1, "{" + x + "; return; }"))
                pos = e + 1
    for a, b, x in reversed(res):
        t = t[:a] + x + t[b:]
    if res:
        open(out, "w", errors="surrogateescape").write(t)
