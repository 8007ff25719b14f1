"""Source-to-source: implicit accesses to _Atomic objects (reads, '=', 'op=',
'++', '--') become calls of the model in harness/vf_atomic.h, which the C
standard says they are equivalent to (memory_order_seq_cst). The places come
from clang's typed AST of the preprocessed unit; afterwards the qualifier is
dropped, since the analyser does not parse it."""
import json, re, subprocess, sys

OPS = {"+=": "AT_ADD", "-=": "AT_SUB", "|=": "AT_OR", "&=": "AT_AND", "^=": "AT_XOR"}


def rewrite(path, text):
    raw = text.encode(errors="surrogateescape")
    # macros are expanded already; their definitions (kept by -dD) must not be again
    blank = re.sub(rb"^[ \t]*#[ \t]*(?:define|undef)\b(?:[^\n]*\\\n)*[^\n]*$",
                   lambda m: re.sub(rb"[^\n]", b" ", m.group(0)), raw, flags=re.M)
    p = subprocess.run(["clang", "-x", "c", "-std=gnu11", "-fsyntax-only", "-w", "-ferror-limit=0",
                        "-Xclang", "-ast-dump=json", "-"], input=blank, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    try:
        ast = json.loads(p.stdout)
    except ValueError:
        sys.stderr.write(p.stderr.decode(errors="replace")[-2000:])
        sys.exit("no syntax tree for the atomics rewrite")
    ins = []            # (offset, order, text); replacements as (offset, order, text, length)

    def span(n):
        b, e = n["range"]["begin"], n["range"]["end"]
        if "offset" not in b or "offset" not in e:
            sys.exit("atomic access without a place: %s" % json.dumps(n.get("range")))
        return b["offset"], e["offset"] + e["tokLen"]

    def atomic(n):
        t = n.get("type", {})
        return "_Atomic" in (t.get("desugaredQualType") or t.get("qualType", ""))

    depth = [0]

    def wrap(a, b, pre, post):
        depth[0] += 1
        ins.append((a, depth[0], pre, 0))
        ins.append((b, -depth[0], post, 0))

    def oper(n, l, r, kind, what):
        """replace the operator between l and r by a comma"""
        (la, lb), (ra, rb) = span(l), span(r)
        a, b = span(n)
        depth[0] += 1
        d = depth[0]
        ins.append((a, d, "vf_at_%s((vf_atom *)&(" % kind, 0))
        gap = raw[lb:ra].decode(errors="surrogateescape")
        op = n["opcode"]
        k = gap.find(op)
        assert k >= 0, gap
        o = lb + len(gap[:k].encode(errors="surrogateescape"))
        ins.append((o, d, ")," + what[0] + " (", len(op)))
        ins.append((b, -d, ")" + what[1] + ", 5)", 0))

    def visit(n):
        k = n.get("kind")
        inner = [c for c in n.get("inner", []) if isinstance(c, dict)]
        if k == "ImplicitCastExpr" and n.get("castKind") == "AtomicToNonAtomic":
            a, b = span(n)
            wrap(a, b, "vf_at_load((vf_atom *)&(", "), 5)")
        elif k == "BinaryOperator" and n.get("opcode") == "=" and atomic(inner[0]):
            oper(n, inner[0], inner[1], "store", ("", ""))
        elif k == "CompoundAssignOperator" and atomic(inner[0]) and n["opcode"] in OPS:
            op = n["opcode"]
            oper(n, inner[0], inner[1], "rmwv", ("", ", " + OPS[op]))
        elif k == "UnaryOperator" and n.get("opcode") in ("++", "--") and atomic(inner[0]):
            a, b = span(n)
            la, lb = span(inner[0])
            depth[0] += 1
            d = depth[0]
            fn = "rmw" if n.get("isPostfix") else "rmwv"
            ins.append((a, d, "vf_at_%s((vf_atom *)&(" % fn, la - a))
            ins.append((lb, -d, "), 1, %s, 5)" % ("AT_ADD" if n["opcode"] == "++" else "AT_SUB"), b - lb))
        for c in inner:
            visit(c)

    sys.setrecursionlimit(100000)
    visit(ast)
    # same place: closers of inner constructs first, then openers outer first
    ins.sort(key=lambda x: (x[0], x[1] > 0, x[1]))
    res, pos = [], 0
    for off, _, s, ln in ins:
        if off < pos:
            sys.exit("overlapping atomic rewrites")
        res += [raw[pos:off], s.encode()]
        pos = off + ln
    res.append(raw[pos:])
    t = b"".join(res).decode(errors="surrogateescape")
    t = re.sub(r"\b_Atomic\s*\(", "__typeof__(", t)
    t = re.sub(r"\b_Atomic\b", "", t)
    return t
