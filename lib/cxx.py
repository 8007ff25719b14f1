"""
C++ for the abstract interpreter.

Frama-C reads C only. This module lets clang's front end lower a C++ harness
together with /repo's current headers and sources to LLVM IR (no
optimisation but inlining of the standard library's one-line accessors and
promotion of scalars), and rewrites that IR, instruction for instruction, as C:
integers of a fixed width, memory as bytes, blocks as labels, exceptions as a
flag every call that may throw is followed by a test of. 'nsw' arithmetic
becomes signed C arithmetic, so an overflow is still an alarm. #line
directives carry the original positions through.
"""
import os
import re
import subprocess
import sys

KW = {"nsw", "nuw", "exact", "inbounds", "disjoint", "nneg", "noundef", "nonnull", "noalias",
      "signext", "zeroext", "nocapture", "readonly", "writeonly", "readnone", "immarg", "returned",
      "dead_on_unwind", "writable", "volatile", "tail", "musttail", "notail", "nofree", "inreg",
      "dso_local", "local_unnamed_addr", "unnamed_addr", "fastcc", "ccc", "nest", "swiftself", "fast", "noreturn", "nounwind", "inalloca"}
PARAM = re.compile(r"^(align|dereferenceable|dereferenceable_or_null|sret|byval|initializes|captures|memory|range|allocsize)\b")


class Err(Exception):
    pass


class P:
    """a cursor over one line of IR"""
    TOK = re.compile(r'\s*(c"(?:[^"\\]|\\.)*"|%"[^"]*"|@"[^"]*"|"[^"]*"|[%@!#][-\w.$]+|-?\d+\.\d+e[+-]\d+|-?\d+|0x[0-9A-Fa-f]+|[A-Za-z_][\w.]*|\.\.\.|[\[\]{}()<>,=*:!])')

    def __init__(self, s):
        self.t = []
        i = 0
        s = s.rstrip()
        while i < len(s):
            m = self.TOK.match(s, i)
            if not m:
                if s[i:].strip() == "":
                    break
                raise Err("cannot read: %s" % s[i:i + 80])
            self.t.append(m.group(1))
            i = m.end()
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ""

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def want(self, x):
        if not self.eat(x):
            raise Err("expected %s, found %s in %s" % (x, self.peek(), " ".join(self.t)))

    def skip_parens(self):
        d = 0
        while True:
            x = self.next()
            if x == "(":
                d += 1
            elif x == ")":
                d -= 1
                if d == 0:
                    return

    def attrs(self):
        while True:
            x = self.peek()
            if x in KW:
                self.i += 1
            elif PARAM.match(x):
                self.i += 1
                if self.peek() == "(":
                    self.skip_parens()
                elif x == "align":
                    self.i += 1
            elif x.startswith("#") or (x.startswith('"')):
                self.i += 1
            else:
                return


def cname(n):
    n = n.lstrip("%@").strip('"')
    return re.sub(r"\W", "_", n)


class Mod:
    def __init__(self, text):
        self.types, self.funcs, self.globals, self.decls = {}, [], {}, {}
        self.meta, self.nounwind, self.agg, self.out, self.protos = {}, set(), {}, [], {}
        self.read(text)

    # ---- types: ('i', n) ('p',) ('v',) ('s', [t], packed) ('a', n, t) ('n', name)
    def type(self, p):
        x = p.next()
        if x == "ptr":
            t = ("p",)
        elif x == "void":
            t = ("v",)
        elif re.match(r"i\d+$", x):
            t = ("i", int(x[1:]))
        elif x in ("float", "double", "x86_fp80"):
            t = ("f", x)
        elif x == "[":
            n = int(p.next())
            p.want("x")
            t = ("a", n, self.type(p))
            p.want("]")
        elif x == "{":
            fs = []
            while not p.eat("}"):
                fs.append(self.type(p))
                p.eat(",")
            t = ("s", tuple(fs), False)
        elif x == "<" and p.peek() == "{":
            p.next()
            fs = []
            while not p.eat("}"):
                fs.append(self.type(p))
                p.eat(",")
            p.want(">")
            t = ("s", tuple(fs), True)
        elif x.startswith("%"):
            t = ("n", x)
        elif x == "metadata" or x == "label" or x == "token":
            t = (x,)
        else:
            raise Err("type %s in %s" % (x, " ".join(p.t)[:200]))
        if p.peek() == "(" and t[0] != "n":
            # function type: T (args...)
            save = p.i
            p.skip_parens()
            if p.peek().startswith(("@", "%")):
                return t
            p.i = save
        return t

    def res(self, t):
        while t[0] == "n":
            t = self.types[t[1]]
        return t

    def size(self, t):
        t = self.res(t)
        k = t[0]
        if k == "p":
            return 8
        if k == "i":
            n = t[1]
            return 1 if n <= 8 else 2 if n <= 16 else 4 if n <= 32 else 8 if n <= 64 else 16
        if k == "f":
            return {"float": 4, "double": 8, "x86_fp80": 16}[t[1]]
        if k == "a":
            return t[1] * self.size(t[2])
        if k == "s":
            o = 0
            for f in t[1]:
                if not t[2]:
                    a = self.align(f)
                    o = (o + a - 1) // a * a
                o += self.size(f)
            a = 1 if t[2] else self.align(t)
            return (o + a - 1) // a * a
        raise Err("size of %r" % (t,))

    def align(self, t):
        t = self.res(t)
        if t[0] == "a":
            return self.align(t[2])
        if t[0] == "s":
            return 1 if t[2] else max([self.align(f) for f in t[1]] or [1])
        return self.size(t)

    def offset(self, t, k):
        t = self.res(t)
        if t[0] != "s":
            raise Err("field of %r" % (t,))
        o = 0
        for i, f in enumerate(t[1]):
            if not t[2]:
                a = self.align(f)
                o = (o + a - 1) // a * a
            if i == k:
                return o, f
            o += self.size(f)
        raise Err("no field %d" % k)

    def padded(self, t):
        t = self.res(t)
        if t[0] == "s":
            return self.size(t) != sum(self.size(f) for f in t[1]) or any(self.padded(f) for f in t[1])
        if t[0] == "a":
            return self.padded(t[2])
        return False

    def c(self, t):
        t = self.res(t)
        if t[0] == "p":
            return "char *"
        if t[0] == "v":
            return "void"
        if t[0] == "i":
            n = t[1]
            if n > 128:
                raise Err("i%d" % n)
            return "uint8_t" if n <= 8 else "uint16_t" if n <= 16 else "uint32_t" if n <= 32 else "uint64_t" if n <= 64 else "unsigned __int128"
        if t[0] == "f":
            return {"float": "float", "double": "double", "x86_fp80": "long double"}[t[1]]
        if t[0] in ("s", "a"):
            if t not in self.agg:
                self.agg[t] = "vf_agg%d" % len(self.agg)
            return "struct " + self.agg[t]
        raise Err("C type of %r" % (t,))

    def signed(self, t):
        n = t[1]
        return "int8_t" if n <= 8 else "int16_t" if n <= 16 else "int32_t" if n <= 32 else "int64_t" if n <= 64 else "__int128"

    # ---- reading
    def read(self, text):
        lines = text.split("\n")
        i = 0
        cont = []
        while i < len(lines):
            l = lines[i]
            i += 1
            if not l or l.startswith((";", "source_filename", "target ", "$", "attributes", "module asm")):
                if l.startswith("attributes") and re.search(r"\bnounwind\b", l):
                    self.nounwind.add(l.split()[1])
                continue
            if l.startswith("%"):
                n, r = l.split(" = type ", 1)
                self.types[P(n).next()] = ("opaque",) if r.strip() == "opaque" else self.type(P(r))
            elif l.startswith("@"):
                cont.append(l)
            elif l.startswith("!"):
                m = re.match(r"!(\d+) = (.*)", l)
                if m:
                    self.meta[int(m.group(1))] = m.group(2)
            elif l.startswith("declare"):
                self.head(l, True)
            elif l.startswith("define"):
                body = []
                while lines[i] != "}":
                    body.append(lines[i])
                    i += 1
                i += 1
                self.funcs.append((self.head(l, False), body))
        for l in cont:
            n, r = l.split(" = ", 1)
            self.globals[cname(n)] = r

    def head(self, l, decl):
        unwinds = True
        m = re.search(r"\)([^()]*?)(?:comdat|align \d|personality|!dbg|\{|$)", l[l.rindex(")") if False else 0:])
        for a in re.findall(r"#\d+", l):
            if a in self.nounwind:
                unwinds = False
        dbg = re.search(r"!dbg !(\d+)", l)
        s = re.sub(r"^(declare|define)\s+", "", l)
        s = re.sub(r"!dbg !\d+", "", s)
        s = re.sub(r"^((?:linkonce_odr|weak_odr|internal|private|available_externally|hidden|protected|default|extern_weak|weak|external)\s+)*", "", s)
        s = re.sub(r"\b(linkonce_odr|internal|hidden|dso_local|unnamed_addr|local_unnamed_addr)\b", "", s.split("(", 1)[0]) + "(" + s.split("(", 1)[1] if False else s
        p = P(s)
        while p.peek() in ("linkonce_odr", "internal", "hidden", "weak_odr", "available_externally", "private", "weak"):
            p.next()
        p.attrs()
        while p.peek() in ("linkonce_odr", "internal", "hidden", "weak_odr"):
            p.next()
        p.attrs()
        rt = self.type(p)
        name = cname(p.next())
        p.want("(")
        params, va = [], False
        while not p.eat(")"):
            if p.eat("..."):
                va = True
                continue
            t = self.type(p)
            p.attrs()
            pn = None
            if p.peek().startswith("%"):
                pn = p.next()
            params.append((t, pn))
            p.eat(",")
        self.decls[name] = (rt, params, va, unwinds, decl, int(dbg.group(1)) if dbg else None)
        return name

    # ---- positions
    def field(self, n, f):
        m = re.search(r"\b%s: !(\d+)" % f, self.meta.get(n, ""))
        return int(m.group(1)) if m else None

    def pos(self, n):
        """(line, file) of DILocation n"""
        m = re.search(r"line: (\d+)", self.meta.get(n, ""))
        if not m:
            return None
        s = self.field(n, "scope")
        for _ in range(50):
            if s is None:
                return None
            f = self.field(s, "file")
            if f is not None:
                d = self.meta.get(f, "")
                fn = re.search(r'filename: "([^"]*)"', d)
                dr = re.search(r'directory: "([^"]*)"', d)
                if not fn:
                    return None
                path = fn.group(1)
                if not os.path.isabs(path) and dr:
                    path = os.path.join(dr.group(1), path)
                return int(m.group(1)), os.path.normpath(path)
            s = self.field(s, "scope")
        return None

    # ---- values
    def const(self, p, t):
        """a constant of type t as a C expression; None when it is not one"""
        x = p.peek()
        r = self.res(t)
        if x in ("null", "zeroinitializer", "undef", "poison", "none"):
            p.next()
            if r[0] in ("s", "a"):
                return "(%s){0}" % self.c(t)
            return "((char *)0)" if r[0] == "p" else "0"
        if x in ("true", "false"):
            p.next()
            return "1" if x == "true" else "0"
        if re.match(r"-?\d+$", x):
            p.next()
            v = int(x)
            if r[0] == "i":
                n = r[1]
                v &= (1 << n) - 1
                return "((%s)%d%s)" % (self.c(t), v, "ULL" if v > 0x7fffffff else "")
            return x
        if x.startswith("@"):
            p.next()
            n = cname(x)
            return self.addr(n)
        if x == "getelementptr":
            p.next()
            p.attrs()
            p.want("(")
            e = self.gep(p, None)
            p.want(")")
            return e
        if x in ("inttoptr", "ptrtoint", "bitcast", "trunc"):
            p.next()
            p.want("(")
            t1 = self.type(p)
            v = self.const(p, t1)
            p.want("to")
            t2 = self.type(p)
            p.want(")")
            return "((%s)(%s))" % (self.c(t2), v)
        return None

    def addr(self, n):
        self.used.add(n)
        return "((char *)&vfx_%s)" % n if n in self.globals and n not in self.decls else "((char *)&%s)" % self.fname(n)

    def fname(self, n):
        return ("vfx_" + n) if n.startswith("_Z") or n.startswith("__") else n

    def value(self, p, t):
        x = p.peek()
        if x.startswith("%"):
            p.next()
            return self.loc(x)
        v = self.const(p, t)
        if v is None:
            raise Err("value %s in %s" % (x, " ".join(p.t)[:160]))
        return v

    def loc(self, x):
        return "v_" + cname(x)

    def gep(self, p, _):
        t = self.type(p)
        p.want(",")
        pt = self.type(p)
        p.attrs()
        base = self.value(p, pt)
        off, terms, first = 0, [], True
        while p.eat(","):
            if p.peek().startswith("!"):
                break
            it = self.type(p)
            x = p.peek()
            if first:
                sz, nt = self.size(t), t
            else:
                r = self.res(nt)
                if r[0] == "s":
                    k = int(p.next())
                    o, nt = self.offset(nt, k)
                    off += o
                    continue
                sz, nt = self.size(r[2]), r[2]
            first = False
            if re.match(r"-?\d+$", x):
                p.next()
                off += int(x) * sz
            else:
                v = self.value(p, it)
                terms.append("(int64_t)(%s)%s * %d" % (self.signed(it), v, sz))
        e = base
        for x in terms:
            e = "(%s + %s)" % (e, x)
        if off:
            e = "(%s + %d)" % (e, off)
        return e

    # ---- functions
    def func(self, name, body):
        rt, params, va, unw, _, dbg = self.decls[name]
        self.vars, self.lines, self.ptrints = {}, [], {}
        self.rt, self.cur = rt, name
        # blocks
        blocks, cur = [], None
        n = 0
        for t, pn in params:
            n += 1
        label = str(len(params))
        cur = [label, []]
        blocks.append(cur)
        first = True
        buf = None
        for l in body:
            if not l.strip():
                continue
            m = re.match(r'^([-\w.$]+|"[^"]*"):', l)
            if m:
                if first and not cur[1]:
                    blocks.pop()
                cur = [m.group(1), []]
                blocks.append(cur)
                first = False
                continue
            first = False
            s = l.strip()
            # join continuation lines: invoke, landingpad clauses, switch
            if re.match(r"^(to label|cleanup|catch|filter|i\d+ |\])", s) and cur[1]:
                cur[1][-1] += " " + s
            else:
                cur[1].append(s)
        # phis per block
        self.phis = {}
        for lab, ins in blocks:
            ph = []
            for s in ins:
                m = re.match(r"(%\S+) = phi (.*)", s)
                if m:
                    p = P(re.sub(r", ![a-z].*$", "", m.group(2)))
                    p.attrs()
                    t = self.type(p)
                    src = {}
                    while p.eat("["):
                        src_v = self.value(p, t)
                        p.want(",")
                        src[cname(p.next())] = src_v
                        p.want("]")
                        p.eat(",")
                    self.vars[self.loc(m.group(1))] = self.c(t)
                    ph.append((self.loc(m.group(1)), t, src))
            self.phis[cname(lab)] = ph
        self.pre = []
        for lab, ins in blocks:
            self.lab = cname(lab)
            self.lines.append("L_%s: ;" % self.lab)
            for s in ins:
                if " = phi " in s:
                    continue
                m = re.search(r", !dbg !(\d+)", s)
                if m:
                    ps = self.pos(int(m.group(1)))
                    if ps:
                        self.lines.append('#line %d "%s"' % ps)
                s = re.sub(r",? ![a-z.A-Z_]+ ![\w]+", "", s)
                try:
                    self.instr(s)
                except Err as e:
                    raise Err("%s\n  in %s\n  in %s" % (e, s, name))
        ps = ", ".join("%s %s" % (self.c(t), self.loc(pn) if pn else "a%d" % k) for k, (t, pn) in enumerate(params))
        if va:
            ps += ", ..."
        o = ["%s %s(%s)" % (self.c(rt), self.fname(name), ps or "void"), "{"]
        for v, t in self.vars.items():
            o.append("    %s %s;" % (t, v))
        o += ["    " + x for x in self.pre]
        o += [x if x.startswith("#") else "    " + x for x in self.lines]
        o.append("}")
        return "\n".join(o)

    def sig(self, name):
        rt, params, va, unw, decl, _ = self.decls[name]
        ps = ", ".join(self.c(t) for t, _ in params)
        if va:
            ps = ps + ", ..." if ps else "..."
        return "%s %s(%s);" % (self.c(rt), self.fname(name), ps or "void")

    def goto(self, lab):
        ph = self.phis.get(cname(lab), [])
        o = []
        if len(ph) == 1:
            v, t, src = ph[0]
            o.append("%s = %s;" % (v, src[self.lab]))
        elif ph:
            o += ["%s t_%s = %s;" % (self.c(t), v, src[self.lab]) for v, t, src in ph]
            o += ["%s = t_%s;" % (v, v) for v, t, src in ph]
        return "{ %s goto L_%s; }" % (" ".join(o), cname(lab))

    def set(self, d, t, e):
        self.vars[d] = self.c(t)
        self.lines.append("%s = %s;" % (d, e))

    def ret0(self):
        if self.res(self.rt)[0] == "v":
            return "return;"
        t = self.res(self.rt)
        return "return %s;" % ("(%s){0}" % self.c(t) if t[0] in ("s", "a") else "0")

    def instr(self, s):
        d = None
        m = re.match(r'(%(?:"[^"]*"|\S+)) = (.*)', s)
        if m:
            d, s = self.loc(m.group(1)), m.group(2)
        p = P(s)
        p.attrs()
        op = p.next()
        L = self.lines
        if op == "alloca":
            t = self.type(p)
            n = 1
            if p.eat(",") and p.peek() != "align":
                it = self.type(p)
                n = p.next()
            sz = self.size(t) * int(n)
            r = self.res(t)
            if r[0] in ("i", "p", "f"):
                self.pre.append("%s m_%s;" % (self.c(t), d))
                self.pre.append("char *%s = (char *)&m_%s;" % (d, d))
            else:
                self.pre.append("char m_%s[%d];" % (d, max(sz, 1)))
                self.pre.append("char *%s = m_%s;" % (d, d))
                if self.padded(t):
                    self.pre.append("for (int vf_i = 0; vf_i < %d; vf_i++) m_%s[vf_i] = 0x5a;" % (sz, d))
        elif op == "load":
            p.attrs()
            t = self.type(p)
            p.want(",")
            pt = self.type(p)
            self.set(d, t, "*(%s *)(%s)" % (self.c(t), self.value(p, pt)))
        elif op == "store":
            p.attrs()
            t = self.type(p)
            v = self.value(p, t)
            p.want(",")
            pt = self.type(p)
            L.append("*(%s *)(%s) = %s;" % (self.c(t), self.value(p, pt), v))
        elif op == "getelementptr":
            p.attrs()
            self.set(d, ("p",), self.gep(p, None))
        elif op in ("add", "sub", "mul", "shl", "lshr", "ashr", "and", "or", "xor", "sdiv", "udiv", "srem", "urem"):
            nsw = re.search(r"\bnsw\b", s.split("%")[0]) is not None
            p.attrs()
            t = self.type(p)
            a = self.value(p, t)
            p.want(",")
            b = self.value(p, t)
            n = t[1]
            C, S = self.c(t), self.signed(t)
            bits = self.size(t) * 8
            if op == "sub" and a in self.ptrints and b in self.ptrints:
                e = "(uint64_t)(%s - %s)" % (self.ptrints[a], self.ptrints[b])
            elif op in ("add", "sub", "mul"):
                o = {"add": "+", "sub": "-", "mul": "*"}[op]
                if nsw and n >= 32 and bits == n:
                    e = "(%s)((%s)%s %s (%s)%s)" % (C, S, a, o, S, b)
                else:
                    e = "(%s)(%s %s %s)" % (C, a, o, b)
            elif op in ("sdiv", "srem"):
                e = "(%s)((%s)%s %s (%s)%s)" % (C, S, a, "/" if op == "sdiv" else "%", S, b)
            elif op == "ashr":
                e = "(%s)((%s)%s >> %s)" % (C, S, a, b)
            elif op == "shl" and nsw and n in (32, 64):
                e = "(%s)((%s)%s << %s)" % (C, S, a, b)
            else:
                o = {"shl": "<<", "lshr": ">>", "and": "&", "or": "|", "xor": "^", "udiv": "/", "urem": "%"}[op]
                e = "(%s)(%s %s %s)" % (C, a, o, b)
            if n not in (8, 16, 32, 64, 128) and op not in ("and", "or", "xor", "lshr", "udiv", "urem"):
                e = "(%s)((%s) & %dULL)" % (C, e, (1 << n) - 1)
            self.set(d, t, e)
        elif op == "icmp":
            p.attrs()
            c = p.next()
            t = self.type(p)
            a = self.value(p, t)
            p.want(",")
            b = self.value(p, t)
            o = {"eq": "==", "ne": "!=", "gt": ">", "ge": ">=", "lt": "<", "le": "<="}[c if c in ("eq", "ne") else c[1:]]
            if c[0] == "s" and t[0] == "i":
                a, b = "(%s)%s" % (self.signed(t), a), "(%s)%s" % (self.signed(t), b)
            self.set(d, ("i", 1), "%s %s %s" % (a, o, b))
        elif op in ("sext", "zext", "trunc", "ptrtoint", "inttoptr", "bitcast", "freeze"):
            t = self.type(p)
            a = self.value(p, t)
            if op == "freeze":
                self.set(d, t, a)
                return
            p.want("to")
            u = self.type(p)
            if op == "sext":
                if t[1] == 1:
                    e = "(%s)(%s ? -1 : 0)" % (self.c(u), a)
                else:
                    e = "(%s)(%s)(%s)%s" % (self.c(u), self.signed(u), self.signed(t), a)
            elif op == "trunc" and u[1] not in (8, 16, 32, 64):
                e = "(%s)(%s & %dULL)" % (self.c(u), a, (1 << u[1]) - 1)
            else:
                e = "(%s)%s" % (self.c(u), a)
            if op == "ptrtoint":
                self.ptrints[d] = a
            self.set(d, u, e)
        elif op == "select":
            p.attrs()
            t = self.type(p)
            c = self.value(p, t)
            p.want(",")
            t = self.type(p)
            a = self.value(p, t)
            p.want(",")
            self.type(p)
            b = self.value(p, t)
            self.set(d, t, "%s ? %s : %s" % (c, a, b))
        elif op == "br":
            if p.peek() == "label":
                p.next()
                L.append(self.goto(p.next()))
            else:
                t = self.type(p)
                c = self.value(p, t)
                p.want(",")
                p.want("label")
                a = p.next()
                p.want(",")
                p.want("label")
                b = p.next()
                L.append("if (%s) %s else %s" % (c, self.goto(a), self.goto(b)))
        elif op == "switch":
            t = self.type(p)
            v = self.value(p, t)
            p.want(",")
            p.want("label")
            df = p.next()
            p.want("[")
            L.append("switch (%s) {" % v)
            while not p.eat("]"):
                ct = self.type(p)
                k = self.value(p, ct)
                p.want(",")
                p.want("label")
                L.append("case %s: %s" % (k, self.goto(p.next())))
            L.append("default: %s" % self.goto(df))
            L.append("}")
        elif op == "ret":
            t = self.type(p)
            L.append("return;" if t[0] == "v" else "return %s;" % self.value(p, t))
        elif op == "unreachable":
            L.append("vf_unreachable();")
            L.append(self.ret0())
        elif op in ("call", "invoke"):
            self.call(d, op, p)
        elif op == "landingpad":
            t = self.type(p)
            L.append("vf_exc = 0;")
            self.vars[d] = self.c(t)
            sel = "0"
            while p.peek() == "catch":
                p.next()
                ct = self.type(p)
                v = self.value(p, ct)
                sel = "vf_catches(%s, %s)" % (v, sel) if v != "((char *)0)" else "(%s ? %s : 1)" % (sel, sel) if sel != "0" else "1"
            L.append("%s.f0 = vf_excptr; %s.f1 = %s;" % (d, d, sel))
        elif op == "resume":
            t = self.type(p)
            self.value(p, t)
            L.append("vf_exc = 1; " + self.ret0())
        elif op == "extractvalue":
            t = self.type(p)
            v = self.value(p, t)
            u, e = self.res(t), v
            while p.eat(","):
                k = int(p.next())
                e += ".f%d" % k
                u = self.res(u[1][k] if u[0] == "s" else u[2])
            self.set(d, u, e)
        elif op == "insertvalue":
            t = self.type(p)
            v = self.value(p, t)
            p.want(",")
            et = self.type(p)
            e = self.value(p, et)
            path = ""
            while p.eat(","):
                path += ".f%d" % int(p.next())
            self.set(d, t, v)
            L.append("%s%s = %s;" % (d, path, e))
        else:
            raise Err("instruction %s" % op)

    def call(self, d, op, p):
        L = self.lines
        p.attrs()
        rt = self.type(p)
        p.attrs()
        callee = p.next()
        ind = callee.startswith("%")
        name = cname(callee)
        p.want("(")
        args, ts = [], []
        while not p.eat(")"):
            t = self.type(p)
            if t[0] == "metadata":
                p.next()
                args.append("0")
            else:
                p.attrs()
                args.append(self.value(p, t))
            ts.append(t)
            p.eat(",")
        nounw = any(x in self.nounwind for x in p.t[p.i:] if x.startswith("#"))
        to = unw = None
        if op == "invoke":
            while p.next() != "label":
                pass
            to = p.next()
            while p.next() != "label":
                pass
            unw = p.next()
        if name.startswith("llvm_"):
            self.intrinsic(d, name, rt, args, ts)
        else:
            if ind:
                f = "((%s (*)(%s))%s)" % (self.c(rt), ", ".join(self.c(t) for t in ts) or "void", self.loc(callee))
            else:
                self.used.add(name)
                f = self.fname(name)
                if not self.decls.get(name, (0, 0, 0, True))[3]:
                    nounw = True
            e = "%s(%s)" % (f, ", ".join(args))
            if d:
                self.set(d, rt, e)
            else:
                L.append(e + ";")
            if op == "call" and not nounw:
                L.append("if (vf_exc) %s" % self.ret0())
        if op == "invoke":
            if name.startswith("llvm_"):
                L.append(self.goto(to))
            else:
                L.append("if (vf_exc) %s else %s" % (self.goto(unw), self.goto(to)))

    def intrinsic(self, d, n, rt, a, ts):
        L = self.lines
        if n.startswith(("llvm_lifetime", "llvm_dbg", "llvm_experimental_noalias", "llvm_assume", "llvm_invariant")):
            return
        if n.startswith("llvm_memcpy"):
            L.append("vf_memcpy(%s, %s, %s);" % (a[0], a[1], a[2]))
        elif n.startswith("llvm_memmove"):
            L.append("vf_memmove(%s, %s, %s);" % (a[0], a[1], a[2]))
        elif n.startswith("llvm_memset"):
            L.append("vf_memset(%s, %s, %s);" % (a[0], a[1], a[2]))
        elif n.startswith("llvm_expect"):
            self.set(d, rt, a[0])
        elif n.startswith("llvm_va_start"):
            L.append("__builtin_va_start(vf_ap, %s);" % self.loc(self.decls[self.cur][1][-1][1]))
        elif n.startswith("llvm_va_end"):
            L.append("__builtin_va_end(vf_ap);")
        elif n.startswith("llvm_is_constant"):
            self.set(d, rt, "0")
        elif n.startswith("llvm_objectsize"):
            self.set(d, rt, "((uint64_t)-1)")
        elif n.startswith("llvm_eh_typeid_for"):
            self.set(d, rt, "vf_typeid(%s)" % a[0])
        elif n.startswith(("llvm_umax", "llvm_umin")):
            self.set(d, rt, "%s %s %s ? %s : %s" % (a[0], ">" if "max" in n else "<", a[1], a[0], a[1]))
        elif n.startswith(("llvm_smax", "llvm_smin")):
            s = self.signed(ts[0])
            self.set(d, rt, "(%s)%s %s (%s)%s ? %s : %s" % (s, a[0], ">" if "max" in n else "<", s, a[1], a[0], a[1]))
        elif n.startswith("llvm_umul_with_overflow"):
            self.vars[d] = self.c(rt)
            c = self.c(ts[0])
            L.append("%s.f0 = (%s)(%s * %s); %s.f1 = %s != 0 && %s > (%s)-1 / %s;" % (d, c, a[0], a[1], d, a[1], a[0], c, a[1]))
        else:
            raise Err("intrinsic %s" % n)

    def glob(self, n, r):
        """a global variable"""
        m = re.search(r"\b(constant|global)\s+(.*)$", r)
        if not m:
            raise Err("global " + r)
        ext = re.search(r"\bexternal\b", r) is not None
        p = P(re.sub(r", (align \d+|comdat.*|!dbg.*|section.*)", "", m.group(2)))
        t = self.type(p)
        if ext:
            return "static char vfx_%s[8];" % n, None
        sz = max(self.size(t), 1)
        u = self.res(t)
        x = p.peek()
        if x.startswith('c"'):
            b = re.sub(rb"\\([0-9A-Fa-f]{2})", lambda k: bytes([int(k.group(1), 16)]), x[2:-1].encode("latin-1"))
            return "static char vfx_%s[%d] = { %s };" % (n, sz, ", ".join(str(c - 256 if c > 127 else c) for c in b)), None
        if x == "zeroinitializer":
            return "static char vfx_%s[%d];" % (n, sz), None
        init = []
        self.ginit(p, t, 0, init)
        return "static char vfx_%s[%d];" % (n, sz), ["*(%s *)(vfx_%s + %d) = %s;" % (c, n, o, v) for o, c, v in init]

    def ginit(self, p, t, off, out):
        r = self.res(t)
        if p.peek() in ("zeroinitializer", "undef"):
            p.next()
            return
        if r[0] == "s":
            p.eat("<")
            p.want("{")
            for k in range(len(r[1])):
                o, ft = self.offset(t, k)
                self.type(p)
                self.ginit(p, ft, off + o, out)
                p.eat(",")
            p.want("}")
            p.eat(">")
        elif r[0] == "a":
            if p.peek().startswith('c"'):
                b = re.sub(rb"\\([0-9A-Fa-f]{2})", lambda k: bytes([int(k.group(1), 16)]), p.next()[2:-1].encode("latin-1"))
                for k, c in enumerate(b):
                    out.append((off + k, "char", str(c)))
                return
            p.want("[")
            for k in range(r[1]):
                self.type(p)
                self.ginit(p, r[2], off + k * self.size(r[2]), out)
                p.eat(",")
            p.want("]")
        else:
            out.append((off, self.c(t), self.const(p, t)))

    def emit(self):
        self.used = set()
        bodies = [self.func(n, b) for n, b in self.funcs]
        defined = {n for n, _ in self.funcs}
        gl, init, done = [], [], set()
        work = sorted(self.used)
        while work:
            n = work.pop()
            if n in done or n in self.decls or n not in self.globals:
                continue
            done.add(n)
            before = set(self.used)
            a, b = self.glob(n, self.globals[n])
            gl.append(a)
            init += b or []
            work += sorted(self.used - before)
        rt = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "cxx_rt.h")
        with open(rt) as f:
            known = set(re.findall(r"\bvfx_(\w+)\(", f.read()))
        miss = [n for n in sorted(self.used) if n in self.decls and n not in defined
                and self.fname(n) != n and n not in known]
        if miss:
            raise Err("no model of " + ", ".join(miss))
        pro = [self.sig(n) for n in sorted(defined)]
        aggs = []
        for t, n in list(self.agg.items()):
            fs = t[1] if t[0] == "s" else [t[2]] * t[1]
            aggs.append("struct %s { %s };" % (n, " ".join("%s f%d;" % (self.c(f), k) for k, f in enumerate(fs)) or "char f0;"))
        # runtime functions declared by the prelude keep its prototypes
        return "\n".join(aggs + gl + pro + ["", "static void", "vf_cxx_init(void)", "{"] + ["    " + x for x in init] + ["}", ""] + bodies) + "\n"


def build(src, outdir, cpp):
    """translate the C++ harness 'src' (with all it includes) to outdir/vf_cxx.c"""
    ll, ll2 = outdir + "/h.ll", outdir + "/h2.ll"
    c = ["clang++", "-std=c++17", "-w", "-O1", "-Xclang", "-disable-llvm-passes", "-S", "-emit-llvm",
         "-gline-tables-only", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-U_FORTIFY_SOURCE"] + cpp + [src, "-o", ll]
    p = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise Err("clang++ failed:\n" + p.stdout[-3000:])
    p = subprocess.run(["opt", "-S", "-passes=cgscc(inline),function(sroa),globaldce", ll, "-o", ll2],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise Err("opt failed:\n" + p.stdout[-3000:])
    with open(ll2) as f:
        m = Mod(f.read())
    with open(outdir + "/vf_cxx.c", "w") as f:
        f.write(m.emit())


if __name__ == "__main__":
    build(sys.argv[1], sys.argv[2], sys.argv[3:])
