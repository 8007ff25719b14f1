"""Obligations decided by the affine/term abstract interpretation of lib/affine.py."""
import json, os, subprocess, sys, time
import affine as A
from affine import Ctx, Interp, Mod, Ptr, Knowns, Unsupported, Fault, const, cval
import eva

I64 = ("i", 64)
HARN = os.path.join(eva.HERE, "harness", "bits")


def opts():
    R = eva.REPO
    return ["-I%s/src" % R, "-I%s/inc" % R, "-I%s/inc/linux" % R, "-D__linux__=1", "-D__amd64__=1", "-D_GNU_SOURCE=1"]


class Out:
    def __init__(self, name):
        self.name, self.viol, self.n, self.insts, self.fns = name, [], 0, 0, set()

    def prove(self, ok, file, func, what, why=""):
        self.n += 1
        if not ok:
            self.viol.append({"obligation": self.name, "file": file, "line": 0, "function": func, "rule": what,
                              "status": "Not proved", "expr": why or what, "source": ""})
        return ok


class Bits:
    engine = "clang 18 -O0 IR; lib/affine.py (GF(2)-affine bits, linear combinations over Z/2^w, value numbering)"

    def __init__(self, name, key, what, timeout=(600, 850)):
        self.name, self.key, self.what, self.timeout = name, key, what, timeout

    def run(self, tier):
        with eva.SLOTS:
            try:
                p = subprocess.run([sys.executable, "-B", os.path.abspath(__file__), self.name, self.key, tier], capture_output=True, text=True,
                                   timeout=self.timeout[tier == "thorough"])
                r = json.loads(p.stdout.splitlines()[-1]) if p.returncode == 0 else {"errors": [self.name + ": " + p.stderr[-2000:]]}
            except subprocess.TimeoutExpired:
                r = {"errors": ["analysis of %s took too long" % self.name]}
        r.setdefault("violations", [])
        r.update(name=self.name, what=self.what)
        return r

    def run_here(self, tier):
        t0 = time.time()
        o = Out(self.name)
        errors = []
        try:
            analysis(self.key)(o, tier)
        except Unsupported as e:
            errors.append("%s: %s" % (self.name, e))
        except Fault as e:
            o.viol.append({"obligation": self.name, "file": "?", "line": 0, "function": str(e).split(":")[0],
                           "rule": "fault", "status": "Fault", "expr": str(e), "source": ""})
        return {"name": self.name, "what": self.what, "bounds": {}, "violations": o.viol, "errors": errors,
                "obligations_valid": o.n - len(o.viol), "functions_analysed": len(o.fns), "sites": o.n,
                "statements_total": o.insts, "statements_reached": o.insts,
                "summary": "%d functions, %d IR instructions interpreted, %d of %d obligations proved" % (
                    len(o.fns), o.insts, o.n - len(o.viol), o.n),
                "wall": round(time.time() - t0, 2)}


def module(name, extra=(), sroa=False):
    return Mod(A.compile_ir(os.path.join(HARN, name), opts() + list(extra), sroa))


def interp(o, m, c=None, ext=None):
    return Interp(m, c or Ctx(), ext)


def guarded(o, file, func, f):
    """run f; a Fault becomes a violation at func"""
    try:
        return f()
    except Fault as e:
        o.prove(False, file, str(e).split(":")[0] or func, "memory safety", str(e))
        return None


def done(o, it):
    o.insts += 2000000 - it.fuel
    o.fns |= it.calls


# ------------------------------------------------------------------ E01

def encdec(o, tier):
    m = module("enc.c")
    H, S, L = "inc/fast/encdec.h", "inc/fast/swab.h", "inc/fast/little-endian.h"
    for t, w in (("u16", 16), ("u32", 32), ("u64", 64), ("float64", 64)):
        n = w // 8
        ty = ('f', 64) if t == "float64" else ('i', w)
        for e in ("LE", "BE"):
            for at in range(0, 4):
                c = Ctx()
                it = interp(o, m, c)
                old = c.fresh(8 * (n + 5), "buf")
                v = c.fresh(w, "v")
                b = it.obj("buf", n + 5, old)
                r = guarded(o, H, "enc_%s_%s" % (e, t), lambda: it.call("w_enc_%s_%s" % (e, t), [Ptr(b, at), v]))
                f = "enc_%s_%s" % (e, t)
                if r is not None:
                    o.prove(r == Ptr(b, at + n), H, f, "returns the byte after the encoded value",
                            "returns buf+%s, expected buf+%d" % (r.off - at, n))
                    for i in range(n + 5):
                        k = i - at
                        got = tuple(b.bits[8 * i:8 * i + 8])
                        if 0 <= k < n:
                            s = k if e == "LE" else n - 1 - k
                            o.prove(got == v[8 * s:8 * s + 8], H, f, "byte %d of the encoding is byte %d of the value" % (k, s),
                                    "byte %d holds %s" % (k, c.name(got)))
                        else:
                            o.prove(got == old[8 * i:8 * i + 8], H, f, "bytes outside the encoding keep their value")
                done(o, it)
                # decoding arbitrary bytes, and what was encoded
                f = "dec_%s_%s" % (e, t)
                it = interp(o, m, c)
                b2 = it.obj("buf", n, c.fresh(8 * n, "bytes"))
                b2.ro = True
                src = tuple(b2.bits)
                r = guarded(o, H, f, lambda: it.call("w_dec_%s_%s" % (e, t), [Ptr(b2, 0)]))
                if r is not None:
                    want = src if e == "LE" else tuple(x for i in range(n - 1, -1, -1) for x in src[8 * i:8 * i + 8])
                    o.prove(r == want, H, f, "decodes every sequence of bytes to the value it stands for", "yields " + c.name(r))
                r = guarded(o, H, f, lambda: it.call("w_dec_%s_%s" % (e, t), [Ptr(b, at)]))
                if r is not None:
                    o.prove(r == v, H, f, "decoding what was encoded gives the value back")
                done(o, it)
    def one(name, w, f, file):
        c = Ctx()
        it = interp(o, m, c)
        x, y = c.fresh(w, "x"), c.fresh(w, "y")
        want = lambda q: q if f == "id" else tuple(z for i in range(w // 8 - 1, -1, -1) for z in q[8 * i:8 * i + 8])
        r = guarded(o, file, name, lambda: it.call("m_" + name, [x]))
        o.prove(r == want(x), file, name, "is the %s of its argument" % ("value" if f == "id" else "byte reversal"),
                r is not None and "yields " + c.name(r) or "")
        r = guarded(o, file, name, lambda: it.call("a_" + name, [x, y]))
        o.prove(r == want(A.bor(c, x, y)), file, name, "treats an expression argument as a whole")
        done(o, it)
    for w in (16, 32, 64):
        one("__swab%d" % w, w, "rev", S)
        one("__constant_swab%d" % w, w, "rev", S)
        c = Ctx()
        it = interp(o, m, c)
        k = {16: 0x0123, 32: 0x01234567, 64: 0x0123456789abcdef}[w]
        r = cval(it.call("k_swab%d" % w, []))
        o.prove(r == int.from_bytes(k.to_bytes(w // 8, "big"), "little"), S, "__swab%d" % w, "reverses a constant")
        one("__cpu_to_le%d" % w, w, "id", L)
        one("__le%d_to_cpu" % w, w, "id", L)
        one("__cpu_to_be%d" % w, w, "rev", L)
        one("__be%d_to_cpu" % w, w, "rev", L)
        # the machine the macros were chosen for is the machine the code is compiled for
        it = interp(o, m, c)
        b = it.obj("m", w // 8)
        v = c.fresh(w, "v")
        it.call("mem%d" % w, [Ptr(b, 0), v])
        o.prove(tuple(b.bits) == v and cval(it.call("le", [])) == 1, "inc/utils/machdep.h", "byte order",
                "the byte order macros match the byte order of the target")
    for nm, w in (("htonll", 64), ("ntohll", 64), ("__constant_htonll", 64), ("__constant_ntohll", 64), ("__constant_htonl", 32),
                  ("__constant_ntohl", 32), ("__constant_htons", 16), ("__constant_ntohs", 16)):
        one(nm, w, "rev", L)


# ------------------------------------------------------------------ R01

def entropy(it, p, n):
    k = cval(n)
    v = it.c.fresh(8 * k, "entropy")
    for i in range(k):
        it.store(Ptr(p.o, p.off + i), ('i', 8), v[8 * i:8 * i + 8])
    return const(0, 32)


class Solve(Knowns):
    """Knowns with the values that are known; learning a contradiction makes `dead` true"""

    def __init__(self, c):
        super().__init__(c)
        self.dead = False

    def red(self, m):
        """reduce m with its constant"""
        k = m & 1
        m &= ~1
        while m:
            r = self.rows.get(m.bit_length())
            if r is None:
                return m, k
            m ^= r & ~1
            k ^= r & 1
        return 0, k

    def reduce(self, m):
        return self.red(m)[0]

    def put(self, bits, value):
        new = False
        for i, b in enumerate(bits):
            m, k = self.red(A.mask(b))
            v = (value >> i) & 1
            if m == 0:
                if k != v:
                    self.dead = True
            else:
                self.rows[m.bit_length()] = m | (k ^ v)
                new = True
        return new

    def value(self, bits):
        r = 0
        for i, b in enumerate(bits):
            m, k = self.red(A.mask(b))
            if m:
                return None
            r |= k << i
        return r

    def close(self):
        c = self.c
        changed = True
        while changed and not self.dead:
            changed = False
            for base, _, d, t in c.blocks:
                if isinstance(d, str):
                    continue
                w = len(t)
                tv = self.value(t)
                M = (1 << w) - 1
                if d[0] == 'lin':
                    acc, unk = d[1], []
                    for a, q in d[2]:
                        v = self.value(a)
                        if v is None:
                            unk.append((a, q))
                        else:
                            acc += q * v
                    if not unk:
                        changed |= self.put(t, acc & M)
                    elif len(unk) == 1 and tv is not None and unk[0][1] & 1:
                        changed |= self.put(unk[0][0], ((tv - acc) * pow(unk[0][1], -1, 1 << w)) & M)
                elif d[0] == 'and':
                    x, y = self.value((d[1],)), self.value((d[2],))
                    if x == 0 or y == 0:
                        changed |= self.put(t, 0)
                    elif x is not None and y is not None:
                        changed |= self.put(t, x & y)
                    if tv == 1:
                        changed |= self.put((d[1], d[2]), 3)
                elif d[0] == 'nz':
                    vs = [self.value((b,)) for b in d[1]]
                    if tv == 0:
                        changed |= self.put(d[1], 0)
                    elif 1 in vs:
                        changed |= self.put(t, 1)
                    elif None not in vs:
                        changed |= self.put(t, 0)
                elif d[0] == 'mul':
                    x, y = self.value(d[1]), self.value(d[2])
                    if x is not None and y is not None:
                        changed |= self.put(t, (x * y) & M)
        return self


GENS = {
    # name: (file, type size index, words, step function, reference, state-word order in memory, full period)
    "xs64star": ("src/prng/xorshift.c", "xs64star_u64", "ref_xs64star", 0, [13], 1, True),
    "xs128plus": ("src/prng/xorshift.c", "xs128plus_u64", "ref_xs128plus", 1, [14, -1], 2, True),
    "xoro128plus": ("src/prng/xoroshiro.c", "xoro128plus_u64", "ref_xoro128plus", 3, [7, 8], 2, True),
    "romu_quad": ("src/prng/romu-rand.c", "romu_quad", "ref_romu_quad", 4, [9, 10, 11, 12], 4, False),
    "romu_trio": ("src/prng/romu-rand.c", "romu_trio", "ref_romu_trio", 4, [9, 10, 11, 12], 4, False),
    "romu_duo": ("src/prng/romu-rand.c", "romu_duo", "ref_romu_duo", 4, [9, 10, 11, 12], 4, False),
}


def lay(m, i):
    return cval(Interp(m).call("lay", [const(i, 32)]))


def offsets(m, idx):
    out = []
    for k, i in enumerate(idx):
        out.append(out[-1] + 8 if i < 0 else lay(m, i))
    return out


def prng(o, tier):
    m = module("prng.c")

    for g, (file, fn, ref, szi, idx, nw, full) in GENS.items():
        c = Ctx()
        it = interp(o, m, c)
        offs = offsets(m, idx)
        st = it.obj("state", lay(m, szi))
        ins = [c.fresh(64, "s%d" % i) for i in range(nw)]
        for f, v in zip(offs, ins):
            it.store(Ptr(st, f), I64, v)
        r = guarded(o, file, fn, lambda: it.call(fn, [Ptr(st, 0)]))
        if r is None:
            continue
        outs = [it.load(Ptr(st, f), I64) for f in offs]
        rs = it.obj("ref", 8 * nw)
        for i, v in enumerate(ins):
            it.store(Ptr(rs, 8 * i), I64, v)
        rr = it.call(ref, [Ptr(rs, 0)])
        want = [it.load(Ptr(rs, 8 * i), I64) for i in range(nw)]
        o.prove(r == rr, file, fn, "output is the published function of the state", "yields %s, expected %s" % (c.name(r), c.name(rr)))
        for i in range(nw):
            o.prove(outs[i] == want[i], file, fn, "word %d of the next state is the published one" % i)
        if full:
            rows = A.linear_map(c, outs, ins)
            ok, why = A.full_period(rows, 64 * nw) if rows else (False, "the step is not linear over GF(2)")
            o.prove(ok, file, fn, "every non-zero state is visited before any repeats (period 2^%d-1)" % (64 * nw), why)
        else:
            K = Knowns(c)
            use = [i for i in range(nw) if outs[i] != ins[i]]
            for i in range(nw):
                K.learn(outs[i])
            K.close()
            for i in range(nw):
                o.prove(K.knows(ins[i]), file, fn, "the next state determines the state (no two states meet)", "word %d is lost" % i)
            # the zero state has no other predecessor
            S = Solve(c)
            for v in outs:
                S.put(v, 0)
            S.close()
            o.prove(S.dead or all(S.value(v) == 0 for v in ins), file, fn, "only the zero state leads to the zero state")
        done(o, it)
    # 1024-bit generator: the state is a ring of 16 words and a position
    f1024 = "src/prng/xorshift.c"
    vo, po = lay(m, 5), lay(m, 6)
    ref_rows = None
    for p in range(16):
        c = Ctx()
        it = interp(o, m, c)
        st = it.obj("state", lay(m, 2))
        ins = [c.fresh(64, "s%d" % i) for i in range(16)]
        rs = it.obj("ref", 128)
        rp = it.obj("refp", 4)
        for i, v in enumerate(ins):
            it.store(Ptr(st, vo + 8 * i), I64, v)
            it.store(Ptr(rs, 8 * i), I64, v)
        it.store(Ptr(st, po), ('i', 32), const(p, 32))
        it.store(Ptr(rp, 0), ('i', 32), const(p, 32))
        r = guarded(o, f1024, "xs1024star_u64", lambda: it.call("xs1024star_u64", [Ptr(st, 0)]))
        if r is None:
            continue
        rr = it.call("ref_xs1024star", [Ptr(rs, 0), Ptr(rp, 0)])
        q = cval(it.load(Ptr(st, po), ('i', 32)))
        outs = [it.load(Ptr(st, vo + 8 * i), I64) for i in range(16)]
        want = [it.load(Ptr(rs, 8 * i), I64) for i in range(16)]
        o.prove(q == (p + 1) % 16, f1024, "xs1024star_u64", "the position moves on by one, modulo 16", "from %d to %s" % (p, q))
        o.prove(r == rr, f1024, "xs1024star_u64", "output is the published function of the state (position %d)" % p)
        o.prove(outs == want, f1024, "xs1024star_u64", "next state is the published one (position %d)" % p)
        rot = lambda l, k: l[k:] + l[:k]
        rows = A.linear_map(c, rot(outs, (p + 1) % 16), rot(ins, p))
        if p == 0:
            ref_rows = rows
            ok, why = A.full_period(rows, 1024) if rows else (False, "the step is not linear")
            o.prove(ok, f1024, "xs1024star_u64", "every non-zero state is visited before any repeats (period 2^1024-1)", why)
        else:
            o.prove(rows == ref_rows, f1024, "xs1024star_u64", "the step is the same at every position (%d)" % p)
        done(o, it)
    # splitmix64: a bijection, and the published one
    c = Ctx()
    it = interp(o, m, c)
    x = c.fresh(64, "x")
    b = it.obj("x", 8)
    it.store(Ptr(b, 0), I64, x)
    r = it.call("u_splitmix64", [Ptr(b, 0)])
    b2 = it.obj("x", 8)
    it.store(Ptr(b2, 0), I64, x)
    rr = it.call("ref_splitmix64", [Ptr(b2, 0)])
    H = "inc/utils/splitmix.h"
    o.prove(r == rr, H, "splitmix64", "output is the published function")
    o.prove(tuple(b.bits) == tuple(b2.bits), H, "splitmix64", "the seed advances by the published increment")
    K = Knowns(c)
    K.learn(r)
    K.close()
    o.prove(K.knows(x), H, "splitmix64", "different seeds give different outputs")
    done(o, it)
    # initialisation: any seed, also 0 (then from the system), never gives the state that stays zero
    inits = [("xs64star_init", "src/prng/xorshift.c", 0, [13], 1), ("xs128plus_init", "src/prng/xorshift.c", 1, [14, -1], 1),
             ("xoro128plus_init", "src/prng/xoroshiro.c", 3, [7, 8], 1), ("romu_quad_init", "src/prng/romu-rand.c", 4, [9, 10, 11, 12], 2),
             ("romu_trio_init", "src/prng/romu-rand.c", 4, [9, 10, 11, 12], 2), ("romu_duo_init", "src/prng/romu-rand.c", 4, [9, 10, 11, 12], 1)]
    for fn, file, szi, idx, ns in inits:
        offs = offsets(m, idx)
        keep = {}

        def mk(ch, fn=fn, szi=szi, ns=ns):
            c = Ctx()
            it = interp(o, m, c, {"getentropy": entropy})
            st = it.obj("state", lay(m, szi))
            seeds = [c.fresh(64, "seed%d" % i) for i in range(ns)]
            keep["x"] = (st, seeds)
            return it, lambda: it.call(fn, [Ptr(st, 0)] + seeds)
        try:
            for it, r in A.paths(mk):
                st, seeds = keep["x"]
                S = Solve(it.c)
                for b, v in it.assume:
                    S.put((b,), v)
                S.close()
                done(o, it)
                if S.dead:
                    continue
                vals = [it.load(Ptr(st, f), I64) for f in offs]
                use = vals[1:] if fn.startswith(("romu_trio", "romu_duo")) else vals
                if fn.startswith("romu_duo"):
                    use = vals[1:3]
                for v in use:
                    S.put(v, 0)
                S.close()
                o.prove(S.dead, file, fn, "the state is never all zero, whatever the seed (path %d)" % it.pos,
                        "the all-zero state, from which the generator never leaves, is not excluded when " +
                        ", ".join("%s%s" % ("" if v else "not ", it.c.name((b,))) for b, v in it.assume))
                # the seed decides: same seed, same state
                z = [cval(s) for s in seeds]
                dep = set(n for n, k in A.support(it.c, tuple(x for v in vals for x in v)))
                zero = Solve(it.c)
                for b, v in it.assume:
                    zero.put((b,), v)
                zero.close()
                for k, s in enumerate(seeds):
                    o.prove(zero.value(s) is not None or "seed%d" % k in dep, file, fn, "a seed that is given is used")
                if all(zero.value(s) != 0 for s in seeds):
                    o.prove("entropy" not in dep, file, fn, "with a seed given, the state depends on nothing else")
        except Fault as e:
            o.prove(False, file, fn, "memory safety", str(e))
    # xs1024star: all of the state is set, position in range
    c = Ctx()
    it = interp(o, m, c, {"getentropy": entropy})
    st = it.obj("state", lay(m, 2))
    seed = c.fresh(64, "seed")
    it.choices = []

    def mk2(ch):
        it = interp(o, m, Ctx(), {"getentropy": entropy})
        keep["y"] = it.obj("state", lay(m, 2)), it.c.fresh(64, "seed")
        return it, lambda: it.call("xs1024star_init", [Ptr(keep["y"][0], 0), keep["y"][1]])
    for it, r in A.paths(mk2):
        st, seed = keep["y"]
        v = guarded(o, f1024, "xs1024star_init", lambda: [it.load(Ptr(st, vo + 8 * i), I64) for i in range(16)])
        o.prove(v is not None, f1024, "xs1024star_init", "sets every word of the state")
        p = guarded(o, f1024, "xs1024star_init", lambda: it.load(Ptr(st, po), ('i', 32)))
        o.prove(p is not None and all(b == 0 for b in p[4:]), f1024, "xs1024star_init", "the position is below 16")
        if v:
            o.prove(len(set(v)) == 16, f1024, "xs1024star_init", "the words of the state are drawn one after another")
        done(o, it)
    # frand: in [0, 1)

    def mk3(ch):
        it = interp(o, m, Ctx(), {"getentropy": entropy})
        return it, lambda: it.call("frand", [])
    for it, r in A.paths(mk3):
        S = Solve(it.c)
        for b, v in it.assume:
            S.put((b,), v)
        S.close()
        fixed = S.dead or all(S.value(b[3]) is not None for b in it.c.blocks if b[2] == "entropy")
        f = "src/prng/frand.c"
        d = it.c.blocks[it.c.owner[r]][2] if r in it.c.owner else None
        ok = False
        why = "the result is not a number in [1,2) less one"
        one = const(0x3ff0000000000000, 64)
        if isinstance(d, tuple) and d[0] == 'fsub' and d[2] == one:
            x = d[1]
            ok = x[52:] == one[52:]
            why = "sign and exponent of the number drawn are not those of [1,2)"
            o.prove(fixed or all(b > 1 for b in x[:52]), f, "frand", "all 52 bits of the fraction are drawn", "a fraction bit is constant")
        o.prove(ok, f, "frand", "the result is in [0,1)", why)
        done(o, it)


# ------------------------------------------------------------------ R02

class Stop(A.PathEnd):
    pass


def arc4(o, tier):
    """arc4random against a model: every refill is 1024 bytes of ChaCha20 keystream, of which the first 40 become the next key
    and nonce and the rest is delivered once and erased"""
    F = "src/arc4random.c"
    m = module("arc4.c", sroa=True)
    for g, tls in sorted(m.mutable.items()):
        if not g.startswith("lay"):
            o.prove(tls, F, "sget", "each thread has a state of its own", "%s is shared between threads" % g)
    REK = 1024
    shared, drawn = Ctx(), []

    SIGMA = [const(x, 32) for x in (0x61707865, 0x3320646e, 0x79622d32, 0x6b206574)]

    def block(words, ctr):
        """the bytes of one block, as a function of the sixteen words"""
        w = words[:12] + [const(ctr & 0xffffffff, 32), const(ctr >> 32, 32)] + words[14:]
        t = shared.term(('chacha20', sum(w, ())), 512)
        return [t[8 * i:8 * i + 8] for i in range(64)]

    def keystream(kv, ctr, nblk):
        b = sum((tuple(x) for x in kv), ())
        words = SIGMA + [b[32 * i:32 * i + 32] for i in range(8)] + [None, None] + [b[256:288], b[288:320]]
        return sum((block(words, ctr + i) for i in range(nblk)), [])

    CH = "chacha_encrypt_bytes"

    def chacha(it, x, p, out, n):
        """what chacha_encrypt_bytes does, proved below"""
        n = cval(n)
        words = [it.load(Ptr(x.o, x.off + 4 * i), ('i', 32)) for i in range(16)]
        ctr = cval(words[12] + words[13])
        if n is None or ctr is None:
            raise Unsupported("keystream of unknown length or position")
        ks = sum((block(words, ctr + i) for i in range((n + 63) // 64)), [])
        for i in range(n):
            it.store(Ptr(out.o, out.off + i), ('i', 8), ks[i])
        ctr = (ctr + (n + 63) // 64) % (1 << 64)
        it.store(Ptr(x.o, x.off + 48), ('i', 32), const(ctr & 0xffffffff, 32))
        it.store(Ptr(x.o, x.off + 52), ('i', 32), const(ctr >> 32, 32))

    # the summary holds: any words, any length class, the counter's carry
    for n, ctr in [(0, 3), (1, 0), (8, 7), (63, 5), (64, 0), (65, 0xffffffff), (128, 0xfffffffe), (200, (5 << 32) - 2), (320, 0)]:
        c = Ctx()
        it = interp(o, m, c)
        st, out, ref = it.obj("cipher state", 64), it.obj("output", n), it.obj("reference", 64)
        key, iv = it.obj("key", 32, c.fresh(256, "key")), it.obj("iv", 8, c.fresh(64, "iv"))
        inp = it.obj("input", n, c.fresh(8 * n, "input"))
        try:
            it.call("chacha_keysetup", [Ptr(st, 0), Ptr(key, 0), const(256, 32), const(0, 32)])
            it.call("chacha_ivsetup", [Ptr(st, 0), Ptr(iv, 0)])
            it.store(Ptr(st, 48), I64, const(ctr, 64))
            before = list(st.bits)
            it.call(CH, [Ptr(st, 0), Ptr(inp, 0), Ptr(out, 0), const(n, 32)])
            ok = True
            for i in range((n + 63) // 64):
                it.call("ref_chacha20", [Ptr(key, 0), Ptr(iv, 0), const((ctr + i) % (1 << 64), 64), Ptr(ref, 0)])
                k = min(64, n - 64 * i)
                ok = ok and out.bits[512 * i:512 * i + 8 * k] == ref.bits[:8 * k]
            o.prove(ok, "src/chacha_private.h", CH, "the keystream is ChaCha20's", "%d bytes from block %#x" % (n, ctr))
            end = (ctr + (n + 63) // 64) % (1 << 64)
            o.prove(it.load(Ptr(st, 48), I64) == const(end, 64), "src/chacha_private.h", CH, "the block counter moves on", "%d bytes from block %#x" % (n, ctr))
            o.prove(st.bits[:384] + st.bits[512:] == before[:384] + before[512:], "src/chacha_private.h", CH, "key and nonce are kept")
        except Fault as e:
            o.prove(False, "src/chacha_private.h", str(e).split(":")[0], "memory safety", str(e))
        done(o, it)

    class World:
        def __init__(w, ch):
            w.c = shared
            w.pid, w.log = 100, []
            w.it = interp(o, m, w.c, {"getentropy": w.entropy, "getpid": lambda it: const(w.pid, 32)})
            w.kv = w.buf = None
            w.ctr = w.since = 0
            w.lastpid = None
            w.gone = set()
            w.drawn = 0
            w.it.summary[CH] = chacha

        def entropy(w, it, p, n):
            k = cval(n)
            o.prove(k is not None and k >= 40, F, "_rs_stir", "each seeding draws a whole key and nonce from the system")
            if w.drawn == len(drawn):
                drawn.append(w.c.fresh(8 * 64, "entropy"))
            v = drawn[w.drawn]
            w.drawn += 1
            for i in range(k):
                it.store(Ptr(p.o, p.off + i), ('i', 8), v[8 * i:8 * i + 8])
            w.log.append([v[8 * i:8 * i + 8] for i in range(40)])
            return const(0, 32)

        def refill(w, dat):
            ks = keystream(w.kv, w.ctr, 16)
            w.gone.update(w.kv)
            if dat:
                for i in range(40):
                    ks[i] = bx(ks[i], dat[i])
            w.kv, w.buf, w.ctr = ks[:40], ks[40:], 0

        def setup(w, e):
            w.kv, w.ctr = e, 0
            w.refill(None)

        def stir(w, e):
            w.refill(e)
            w.buf, w.ctr = [], 1

        def request(w, n, run):
            """run() delivers n bytes; they must be the next n of the model"""
            del w.log[:]
            got = run()
            need = w.lastpid != w.pid
            ev = list(w.log)
            if need:
                o.prove(len(ev) >= 1, F, "sget", "a new process (or thread) takes new entropy before its first byte",
                        "no entropy drawn in process %d" % w.pid)
            fork = w.lastpid is not None
            w.lastpid = w.pid
            if len(ev) > 2:
                o.prove(False, F, "_rs_random_buf", "seeds at most once per request besides setting up")
                return None
            if need and ev or len(ev) == 2:
                w.setup(ev.pop(0))
                w.since = 0
            if ev:
                w.stir(ev.pop(0))
                w.since = 0
            elif not fork:
                pass
            if w.kv is None:
                return None
            o.prove(w.since + n <= 2 * REK or w.since == 0, F, "_rs_stir_if_needed",
                    "new entropy is mixed in at least every 2 KiB", "%d bytes delivered since, and %d more asked for" % (w.since, n))
            w.since += n
            want = []
            while len(want) < n:
                if not w.buf:
                    w.refill(None)
                t = w.buf[:n - len(want)]
                want += t
                w.buf = w.buf[len(t):]
            return got, want

        def state(w, what, got):
            """no byte that was delivered, and no byte of a key that is no longer used, is anywhere in the state"""
            w.gone.update(got)
            held = set()
            for g, tls in m.mutable.items():
                if g in w.it.gobj:
                    ob = w.it.gobj[g]
                    held.update(tuple(ob.bits[8 * i:8 * i + 8]) for i in range(ob.size) if all(x is not None for x in ob.bits[8 * i:8 * i + 8]))
            left = [x for x in held & w.gone if cval(x) is None]
            o.prove(not left, F, what, "what was delivered, and the key it came from, are erased at once", "%d bytes remain" % len(left))

    def seq(ops):
        t0 = time.time()
        keep = {}

        def mk(ch):
            w = World(ch)
            keep["w"] = w

            def run():
                for i, op in enumerate(ops):
                    if op == "fork":
                        w.pid += 1
                        continue
                    fn = "arc4random_buf" if isinstance(op, int) else "arc4random"
                    if isinstance(op, int):
                        out = w.it.obj("the caller's buffer", op)
                        r = w.request(op, lambda: w.it.call("v_buf", [Ptr(out, 0), const(op, 64)]))
                        got = [tuple(out.bits[8 * j:8 * j + 8]) for j in range(op)]
                    else:
                        r = w.request(4, lambda: w.it.call("v_32", []))
                        got = r and [r[0][8 * j:8 * j + 8] for j in range(4)]
                    if r is None:
                        return
                    o.prove(got == r[1], F, fn, "delivers the next bytes of the keystream, each once and in order", "request %d of %r" % (i, ops))
                    w.state(fn, got)
            return w.it, run
        try:
            for it, r in A.paths(mk):
                done(o, it)
        except Fault as e:
            o.prove(False, F, str(e).split(":")[0], "memory safety", "%r: %s" % (ops, e))

    seqs = [["u32"] * 3, [0, 1, 63, 64, 65], [983, 1, 1], [984, 984], [985, 40], [1000, 1000, "u32"], [5, "fork", 5, 3], ["fork", 7, "fork", "u32"],
            [600] * 4, [1023, 1], [1024, 4], [1500, 4, 600], [2047, 8], [3000, 8, "fork", 8], [400, 400, 400, 400, 400, 400]]
    if tier == "thorough":
        seqs += [[n, k, 4] for n in (1, 900, 983, 984, 985, 1023, 1024, 1025, 1968, 1969, 2046, 2047, 2048, 2049, 4096) for k in (1, 40, 984, 1024)]
        seqs += [[100] * 24, [7, "fork", 900, 200, "fork", 1000, 1000, 4]]
    for s in seqs:
        seq(s)
        if os.environ.get('VF_T'):
            print(s, o.n, len(o.viol), o.insts, time.process_time(), flush=True)
    # uniform: the first draw not below 2^32 mod bound, modulo the bound
    bounds = [0, 1, 2, 3, 6, 10, 255, 256, 257, 1000, 65535, 65536, 0x7fffffff, 0x80000000, 0x80000001, 0xaaaaaaab, 0xfffffffe, 0xffffffff]
    for b in bounds:
        keep = {}

        def mk(ch, b=b):
            w = World(ch)
            keep["w"] = w
            draws = []
            keep["d"] = draws
            inner = w.it

            def run():
                # a rejection leads to the next draw; three suffice to see that each is treated alike
                orig = inner.decide

                def decide(bit):
                    v = orig(bit)
                    if len([1 for x in inner.assume]) > 4:
                        raise A.PathEnd()
                    return v
                inner.decide = decide
                return inner.call("v_uniform", [const(b, 32)])
            return w.it, run
        n = 0
        try:
            for it, r in A.paths(mk):
                w = keep["w"]
                done(o, it)
                n += 1
                if b < 2:
                    o.prove(cval(r) == 0, F, "arc4random_uniform", "a bound below two gives zero")
                    continue
                # the draws: consecutive words of the keystream
                w.setup(w.log[0])
                if len(w.log) > 1:
                    w.stir(w.log[1])
                mn = (1 << 32) % b
                k = len(it.assume)
                w.refill(None) if not w.buf else None
                words = [sum(w.buf[4 * i:4 * i + 4], ()) for i in range(k + 1)]
                cond = []
                ok = True
                if mn:
                    ok = k >= 1
                    for i in range(k):
                        bit = it.c.term(('ult', words[i], const(mn, 32)), 1)[0]
                        alt = it.c.term(('ult', const(mn - 1, 32), words[i]), 1)[0] ^ 1
                        a, v = it.assume[i]
                        below = v ^ 0 if a == bit else v ^ 1 if a == bit ^ 1 else v if a == alt else v ^ 1 if a == alt ^ 1 else None
                        ok = ok and below == int(i < k - 1)
                    last = words[k - 1]
                else:
                    ok = k == 0
                    last = words[0]
                o.prove(ok, F, "arc4random_uniform", "draws again exactly when the word is below 2^32 mod bound", "bound %d" % b)
                want = A.Interp.arith(it, 'urem', last, const(b, 32), 32)
                o.prove(r == want, F, "arc4random_uniform", "the result is the accepted word modulo the bound", "bound %d: %s" % (b, it.c.name(r)))
            o.prove(n >= 1, F, "arc4random_uniform", "returns")
        except Fault as e:
            o.prove(False, F, str(e).split(":")[0], "memory safety", "bound %d: %s" % (b, e))


def bx(a, b):
    return A.bxor(a, b)


# ------------------------------------------------------------------ T01

def macros(o, tier):
    TU, UT, NS = "inc/utils/typeutils.h", "inc/utils/utils.h", "inc/utils/nospec.h"
    mods = [("", module("macros.c"), ("_ALIGN_UP", "_ALIGN_DOWN", "_IS_ALIGNED", "NEXTPOW2")),
            ("_cpp", module("macros.cpp", ["-x", "c++", "-std=c++17"]), ("align_up", "align_down", "is_aligned", "round_up_pow2"))]

    def call(m, fn, args, assume=()):
        it = interp(o, m, c)
        it.assume += list(assume)
        r = it.call(fn, args)
        done(o, it)
        return r, it

    for suf, m, (up, down, isal, p2) in mods:
        for w, s in ((64, ""), (32, "32")):
            for k in range(w - 1):
                c = Ctx()
                n = const(1 << k, w)
                u = c.fresh(w, "value")
                low = (0,) * k + u[k:]
                try:
                    v = A.add(c, u, const((1 << k) - 1, w), -1)          # any v, written u - (n-1)
                    if w == 64:
                        r, _ = call(m, "v_up%s%s" % (s, suf), [v, n])
                        o.prove(r == low, TU, up, "the least multiple of 2^%d not below the value" % k)
                    else:
                        x = u[:31] + (0,)                                # without leaving 32 bits
                        hi = x[k:]
                        for lowv in sorted({0, 1, (1 << k) - 1, 1 << (k - 1) if k else 0}):
                            if lowv >= 1 << k:
                                continue
                            v = const(lowv, k) + hi
                            r, _ = call(m, "v_up%s%s" % (s, suf), [v, n])
                            if lowv:
                                o.prove(all(b == 0 for b in r[:k]), TU, up, "is a multiple of 2^%d" % k)
                            else:
                                o.prove(r == v, TU, up, "a multiple of 2^%d stays" % k)
                    r, _ = call(m, "v_down%s%s" % (s, suf), [u, n])
                    o.prove(r == low, TU, down, "the greatest multiple of 2^%d not above the value" % k)
                    r, it = call(m, "v_isal%s%s" % (s, suf), [u, n])
                    want = it.icmp('eq', u[:k] + (0,) * (w - k), const(0, w))
                    o.prove(r[0] == want and all(b == 0 for b in r[1:]), TU, isal, "says whether the value is a multiple of 2^%d" % k)
                    # v-1 = u with top bit k: the next power of two is 2^(k+1)
                    if w == 64:
                        us = [c.fresh(k, "value") + (1,) + (0,) * (w - k - 1)]
                    else:          # the lowest zero bit is bit j
                        us = [const((1 << j) - 1, j) + (0,) + c.fresh(k - j - 1, "value") + (1,) + (0,) * (w - k - 1) for j in range(k)]
                    for u in us:
                        r, _ = call(m, "v_pow2%s%s" % (s, suf), [A.add(c, u, const(1, w))])
                        o.prove(r == const(1 << (k + 1), w), TU, p2, "the next power of two above 2^%d" % k, "yields " + c.name(r))
                except Fault as e:
                    o.prove(False, TU, str(e).split(":")[0], "memory safety", str(e))
            c = Ctx()
            for k in range(w):
                r, _ = call(m, "v_pow2%s%s" % (s, suf), [const(1 << k, w)])
                o.prove(r == const(1 << k, w), TU, p2, "a power of two stays", "2^%d gives %s" % (k, c.name(r)))
    m = mods[0][1]
    for k in range(64):
        c = Ctx()
        r, _ = call(m, "v_ispow2", [const(1 << k, 64)])
        o.prove(cval(r) == 1, TU, "_IS_POW2", "2^%d is a power of two" % k)
        for j in range(k):
            # lowest bit set j, bit k set, the rest between and above unknown
            x = const(1 << j, j + 1) + c.fresh(k - j - 1, "bits") + (1,) + c.fresh(63 - k, "bits")
            r, _ = call(m, "v_ispow2", [x])
            o.prove(cval(r) == 0, TU, "_IS_POW2", "a number with two bits set is not a power of two", "bits %d and %d" % (j, k))
    r, _ = call(m, "v_arrsz", [])
    o.prove(cval(r) == 1307, TU, "ARRAY_SIZE", "the number of elements")
    # units: linear in the count
    for fn, q in (("hour", 3600 * 10**9), ("minute", 60 * 10**9), ("second", 10**9), ("millisecond", 10**6), ("microsecond", 10**3), ("nanosecond", 1),
                  ("SEC", 10**6), ("MSEC", 10**3), ("USEC", 1)):
        c = Ctx()
        n = c.fresh(22, "n") + (0,) * 42                 # 2^22 hours do not overflow
        r, _ = call(m, "v_" + fn, [n])
        o.prove(r == A.mul(c, n, const(q, 64)), UT if fn.islower() else "inc/fast/tmutils.h", "_" + fn, "is %d units" % q, "yields " + c.name(r))
    for fn, q in (("hour1", 3600 * 10**9), ("ms1", 10**6), ("SEC1", 10**6)):
        c = Ctx()
        n = c.fresh(22, "n") + (0,) * 42
        r, _ = call(m, "v_" + fn, [n])
        o.prove(r == A.mul(c, A.add(c, n, const(1, 64)), const(q, 64)), UT, "_" + fn[:-1], "treats an expression argument as a whole")
    # clocks
    for fn, q, file in (("timenow", 10**9, UT), ("timenow_us", 10**6, UT), ("now", 10**6, "inc/fast/tmutils.h")):
        c = Ctx()
        sec, sub = c.fresh(63, "seconds") + (0,), c.fresh(30, "fraction") + (0,) * 34
        seen = []

        def clk(it, a, b):
            p = b if isinstance(b, Ptr) else a
            if b is not p:
                seen.append("tod")
            else:
                seen.append(cval(a))
            it.store(Ptr(p.o, p.off), I64, sec)
            it.store(Ptr(p.o, p.off + 8), I64, sub)
            return const(0, 32)
        it = interp(o, m, c, {"gettimeofday": clk, "clock_gettime": clk})
        r = it.call("v_" + fn, [])
        o.prove(r == A.add(c, sub, A.mul(c, sec, const(q, 64))), file, fn, "the time in its unit, whatever the clock says")
        if fn == "timenow":
            o.prove(seen == [1], file, fn, "measures with the monotonic clock")
        done(o, it)
    # index clamping
    for n in [1, 2, 3, 7, 8, 100, 255, 4096, 4097, (1 << 31) - 1, 1 << 31, (1 << 32) + 5, (1 << 62) + 1, (1 << 63) - 1]:
        for inside in (1, 0):
            for top in ((0,), (1,)):
                if inside and top == (1,):
                    continue
                c = Ctx()
                i = c.fresh(63, "index") + top
                it = interp(o, m, c)
                bit = it.icmp('ult', i, const(n, 64))
                if bit > 1:
                    it.decide_as(bit, inside)
                elif bit != inside:
                    continue
                r = it.resolve(it.call("v_mask", [i, const(n, 64)]))
                o.prove(r == const(-inside & ((1 << 64) - 1), 64), NS, "__array_index_mask_nospec", "all ones inside the array, zero outside", "size %d: %s" % (n, c.name(r)))
                r = it.resolve(it.call("v_clamp", [i, const(n, 64)]))
                o.prove(r == (i if inside else const(0, 64)), NS, "array_index_nospec", "the index inside the array, zero outside", "size %d" % n)
                done(o, it)


# ------------------------------------------------------------------ K01

def lengths(tier, top, dense):
    full = list(range(0, dense))
    if tier == "thorough":
        return list(range(0, top + 1))
    return full + [n for n in range(dense, top + 1) if n % 16 in (0, 1, 15)]


def hashes(which, only=None):
    def run(o, tier):
        table = {
            # harness: [(function, reference, result bits or 'two', seed widths, top, dense, file, injective word)]
            "fasthash": [("fasthash64", "ref_fasthash64", 64, [64], 40, 34, 8), ("fasthash32", "ref_fasthash32", 32, [32], 24, 20, 0)],
            "fnvhash": [("fnv_hash", "ref_fnv_hash", 32, [32], 20, 12, 1), ("fnv_hash64", "ref_fnv_hash64", 64, [64], 20, 12, 1)],
            "hsieh": [("hsieh_hash", "ref_hsieh_hash", 32, [32], 24, 14, 0)],
            "murmur3": [("murmur3_hash_32", "ref_murmur3_hash_32", 32, [32], 24, 18, 4),
                        ("u_murmur3_hash_128", "ref_murmur3_hash_128", 'two', [32], 48, 34, 0),
                        ("u_murmur3_hash64_128", "ref_murmur3_hash64_128", 'two', [32], 48, 34, 0)],
            "siphash": [("siphash24", "ref_siphash24", 64, 'key', 40, 26, 0)],
            "yorrike": [("yorrike_hash32", "ref_yorrike_hash32", 32, [32], 48, 34, 0)],
            "xxhash": [("XXH32", "ref_XXH32", 32, [32], 40, 34, 4), ("XXH64", "ref_XXH64", 64, [64], 72, 41, 8)],
            "city": [("city_hash", "ref_city_hash", 64, [64], 200, 36, 0), ("u_city_hash_128", "ref_city_hash_128", 'two', [64, 64], 290, 36, 0)],
        }[which]
        srcs = {"fasthash": "fasthash.c", "fnvhash": "fnvhash.c", "hsieh": "hsieh_hash.c", "murmur3": "murmur3_hash.c", "siphash": "siphash24.c",
                "yorrike": "yorrike.c", "xxhash": "xxhash.c", "city": "cityhash.c"}
        file = "src/hashfunc/" + srcs[which]
        m = module(which + ".c")
        for fn, ref, wid, seeds, top, dense, inj in table:
            if only is not None and only != fn:
                continue
            name = fn[2:] if fn.startswith("u_") else fn
            for n in lengths(tier, top, dense):
                keep = {}

                def mk(ch):
                    c = Ctx()
                    it = interp(o, m, c)
                    msg = it.obj("the key", n, c.fresh(8 * n, "key"))
                    msg.ro = True
                    keep["msg"] = tuple(msg.bits)
                    ks = []
                    if seeds == 'key':
                        k = it.obj("the secret", 16, c.fresh(128, "seed"))
                        k.ro = True
                        ks = [Ptr(k, 0)]
                        keep["seed"] = [tuple(k.bits)]
                    else:
                        ks = [c.fresh(w, "seed%d" % i) for i, w in enumerate(seeds)]
                        keep["seed"] = ks
                    args = [Ptr(msg, 0), const(n, 64)] + ks

                    def go():
                        res = []
                        for f in (fn, ref):
                            if wid == 'two':
                                out = it.obj("out", 16)
                                it.call(f, [Ptr(out, 0)] + args)
                                res.append(it.load(Ptr(out, 0), ('i', 64)) + it.load(Ptr(out, 8), ('i', 64)))
                            else:
                                res.append(it.call(f, args))
                        return res
                    return it, go
                try:
                    for it, (r, want) in A.paths(mk):
                        c = it.c
                        done(o, it)
                        S = Solve(c)
                        for b, v in it.assume:
                            S.put((b,), v)
                        S.close()
                        if S.dead:
                            continue
                        key = keep["msg"]
                        same = r == want
                        if not same:
                            # equal under what the path assumes
                            same = all(S.red(A.mask(d)) == (0, 0) for d in A.bxor(r, want))
                        o.prove(same, file, name, "computes its published function of a key of %d bytes" % n,
                                "keys of %d bytes: the result is %s, the published one %s" % (n, c.name(r), c.name(want)))
                        sup = A.support(c, r)
                        miss = sorted(set(k // 8 for k in range(8 * n) if ("key", k) not in sup))
                        if not (which == "hsieh" and n == 0):
                            o.prove(not miss, file, name, "the result depends on every bit of the key (%d bytes)" % n,
                                    "bytes %s of a key of %d bytes have bits that never reach the result" % (miss, n))
                        if inj and n and not it.pos and not (fn == "XXH64" and n >= 32):
                            K = Knowns(c)
                            lo = (n - 1) // inj // 2 * inj       # a word in the middle
                            words = {(b0, inj) for b0 in (0, lo, n // inj * inj - inj) if b0 >= 0 and b0 + inj <= n} | {(n - 1, 1)}
                            for b0, ln in sorted(words):
                                K = Knowns(c)
                                K.learn(key[:8 * b0] + key[8 * (b0 + ln):])
                                for s in keep["seed"]:
                                    K.learn(s)
                                K.learn(r)
                                K.close()
                                o.prove(K.knows(key[8 * b0:8 * (b0 + ln)]), file, name,
                                        "keys that differ in one word only never collide (%d bytes, word at %d)" % (n, b0))
                except Fault as e:
                    o.prove(False, file, str(e).split(":")[0], "reads the key only", str(e))
        if which == "siphash":
            siphash_stream(o, m, file, tier)
        if which == "xxhash":
            xx_stream(o, m, file, tier)
    return run


def siphash_stream(o, m, file, tier):
    """init, update, finish on the whole key is the one-shot function"""
    for n in (0, 1, 7, 8, 13, 16):
        c = Ctx()
        it = interp(o, m, c)
        k = it.obj("the secret", 16, c.fresh(128, "seed"))
        msg = it.obj("the key", n, c.fresh(8 * n, "key"))
        st = it.obj("state", 32)
        try:
            it.call("siphash24_init", [Ptr(st, 0), Ptr(k, 0)])
            it.call("siphash24_update", [Ptr(st, 0), Ptr(msg, 0), const(n, 64)])
            r = it.call("siphash24_finish", [Ptr(st, 0)])
            o.prove(r == it.call("ref_siphash24", [Ptr(msg, 0), const(n, 64), Ptr(k, 0)]), file, "siphash24_finish",
                    "init, one update, finish give the hash of the key")
        except Fault as e:
            o.prove(False, file, str(e).split(":")[0], "memory safety", str(e))
        done(o, it)


def xx_stream(o, m, file, tier):
    for fn, w, blk, ref in (("str_XXH32", 32, 16, "ref_XXH32"), ("str_XXH64", 64, 32, "ref_XXH64")):
        ns = [0, 1, blk - 1, blk, blk + 1, 2 * blk, 2 * blk + 3, 3 * blk - 1]
        cuts = [0, 1, 5, blk - 1, blk, blk + 1, 2 * blk - 1, 2 * blk]
        if tier == "thorough":
            ns = list(range(0, 2 * blk + 9))
            cuts = list(range(0, 2 * blk + 2, 1 if blk == 16 else 3))
        for n in ns:
            cs = sorted(set(x for x in cuts + [n - 1, n] if 0 <= x <= n))
            for i, a in enumerate(cs):
                for b in cs[i:]:
                    c = Ctx()
                    it = interp(o, m, c)
                    msg = it.obj("the key", n, c.fresh(8 * n, "key"))
                    msg.ro = True
                    seed = c.fresh(w, "seed")
                    try:
                        r = it.call(fn, [Ptr(msg, 0), const(n, 64), seed, const(a, 64), const(b, 64)])
                        want = it.call(ref, [Ptr(msg, 0), const(n, 64), seed])
                        o.prove(r == want, file, fn[4:] + "_update", "hashing in pieces gives the hash of the whole",
                                "%d bytes as %d+%d+%d" % (n, a, b - a, n - b))
                    except Fault as e:
                        o.prove(False, file, str(e).split(":")[0], "memory safety", "%d bytes as %d+%d+%d: %s" % (n, a, b - a, n - b, e))
                    done(o, it)
        c = Ctx()
        it = interp(o, m, c)
        h = c.fresh(w, "h")
        ob = it.obj("out", w // 8)
        it.call("can_XXH%d" % w, [Ptr(ob, 0), h])
        o.prove(all(tuple(ob.bits[8 * i:8 * i + 8]) == h[w - 8 * i - 8:w - 8 * i] for i in range(w // 8)), file, "XXH%d_canonicalFromHash" % w,
                "the canonical form is big endian")
        o.prove(it.call("unc_XXH%d" % w, [Ptr(ob, 0)]) == h, file, "XXH%d_hashFromCanonical" % w, "the canonical form gives the hash back")
        done(o, it)


def analysis(key):
    if key in ("encdec", "prng", "arc4", "macros"):
        return globals()[key]
    return hashes(*key.split(":"))


if __name__ == "__main__":
    print(json.dumps(Bits(sys.argv[1], sys.argv[2], "").run_here(sys.argv[3])))
