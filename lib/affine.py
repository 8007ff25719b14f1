"""Abstract interpretation of LLVM IR over GF(2)-affine bits and Herbrand terms.

Every integer is a vector of bits, and every bit is an affine combination over GF(2) of variables: the bits of the
inputs and the bits of terms.  xor, shifts by constants, masks, truncation and extension are exact in this domain.  An
operation that is not affine (a sum that carries, a product, a conjunction of two unknown bits) becomes a term: its
result bits are new variables, and the same operation on the same operands is the same term (value numbering).  Sums
and products by constants are kept as linear combinations over Z/2^w, so that associativity, commutativity and the
order of statements do not matter.  Nothing is executed and no solver is involved: two values with the same normal form
are equal for every input, a result that has a variable in it depends on that input, and `Knowns` answers by Gaussian
elimination which inputs a set of results determines.

Memory is a set of objects of known size holding bits; pointers are (object, constant offset).  Loops are followed
while their condition has a constant value; a branch on an unknown condition is followed both ways, and what was
assumed is kept with the path.  An access outside an object, or an index the domain cannot bound, is reported.
"""
import bisect, functools, re, struct, subprocess


class Unsupported(Exception):
    pass


class Fault(Exception):
    """the analysed code does something it must not (an access outside an object, a failed assertion)"""


class PathEnd(Exception):
    pass


# ---------------------------------------------------------------- values

# A bit is a number: 0 and 1 the constants, otherwise an entry of FORMS (a set of variables, whose sum it is), doubled, plus one if
# it is the complement.  The complement of x is always x ^ 1; other sums are made by xor().

FORMS = [()]
_ids = {(): 0}
_xor = {}


def form(vs):
    i = _ids.get(vs)
    if i is None:
        i = _ids[vs] = len(FORMS)
        FORMS.append(vs)
    return 2 * i


def xor(x, y):
    k = (x ^ y) & 1
    x &= ~1
    y &= ~1
    if not x:
        return y | k
    if not y:
        return x | k
    if x == y:
        return k
    if x > y:
        x, y = y, x
    r = _xor.get((x, y))
    if r is None:
        a, b = FORMS[x >> 1], FORMS[y >> 1]
        if len(a) == 1 and len(b) == 1:
            r = form(a + b if a < b else b + a)
        else:
            r = form(tuple(sorted(set(a) ^ set(b))))
        _xor[(x, y)] = r
    return r | k


def mask(b):
    """the form as an integer: bit 0 the constant, bit v+1 variable v"""
    m = b & 1
    for v in FORMS[b >> 1]:
        m |= 2 << v
    return m


class Ctx:
    def __init__(self):
        self.n = 0
        self.blocks = []          # (base, width, def)
        self.terms = {}
        self.owner = {}
        self.shifted = {}
        self.bases = []
        self.alias = {}

    def fresh(self, w, name, low=()):
        """a block of w bits, the lowest of them given"""
        base = self.n
        n = w - len(low)
        self.n += n
        bits = tuple(low) + tuple(form((base + i,)) for i in range(n))
        self.blocks.append((base, n, name, bits))
        self.bases.append(base)
        self.owner[bits] = len(self.blocks) - 1
        return bits

    def term(self, key, w, low=()):
        b = self.terms.get((key, w))
        if b is None:
            b = self.fresh(w, key, low() if callable(low) else low)
            self.terms[(key, w)] = b
        return b

    def block(self, v):
        """the block variable v belongs to"""
        return bisect.bisect_right(self.bases, v) - 1

    def name(self, bits):
        return describe(self, bits)


@functools.lru_cache(maxsize=100000)
def const(v, w):
    return tuple((v >> i) & 1 for i in range(w))


def cval(bits):
    v = 0
    for i, b in enumerate(bits):
        if b > 1:
            return None
        v |= b << i
    return v


def bxor(a, b):
    return tuple(map(xor, a, b))


def bit_and(c, x, y):
    if x == 0 or y == 0:
        return 0
    if x == 1:
        return y
    if y == 1 or x == y:
        return x
    if x == y ^ 1:
        return 0
    # canonical up to the constant: (a^1)&b = (a&b)^b
    r = 0
    if x & 1:
        return xor(bit_and(c, x ^ 1, y), y)
    if y & 1:
        return xor(bit_and(c, x, y ^ 1), x)
    if x > y:
        x, y = y, x
    return c.term(('and', x, y), 1)[0]


def band(c, a, b):
    return tuple(bit_and(c, x, y) for x, y in zip(a, b))


def bor(c, a, b):
    return tuple(xor(xor(x, y), bit_and(c, x, y)) for x, y in zip(a, b))


def ite(c, cond, a, b):
    return tuple(xor(y, bit_and(c, cond, xor(x, y))) for x, y in zip(a, b))


def shl(a, k):
    w = len(a)
    if k >= w:
        return (0,) * w
    return (0,) * k + a[:w - k]


def lshr(a, k):
    w = len(a)
    if k >= w:
        return (0,) * w
    return a[k:] + (0,) * k


def ashr(a, k):
    w = len(a)
    k = min(k, w - 1)
    return a[k:] + (a[-1],) * k


def lin_of(c, a):
    """a as (const, {atom: coefficient}) over Z/2^w"""
    v = cval(a)
    if v is not None:
        return v, {}
    o = c.owner.get(a)
    if o is not None:
        d = c.blocks[o][2]
        if isinstance(d, tuple) and d[0] == 'lin':
            return d[1], dict(d[2])
    b = c.alias.get(a)
    if b is not None:
        return b[0], dict(b[1])
    # a value shifted left is that value times a power of two
    b = c.shifted.get(a)
    if b is not None:
        k, co = lin_of(c, b[0])
        return k << b[1], {t: q << b[1] for t, q in co.items()}
    return 0, {a: 1}


def from_lin(c, w, k, coefs):
    m = (1 << w) - 1
    out = {}
    for a, q in coefs.items():
        q &= m
        if not q:
            continue
        if cval(a) == 0:
            continue
        out[a] = (out.get(a, 0) + q) & m
    out = {a: q for a, q in out.items() if q}
    k &= m
    # disjoint summands with coefficient one are a plain union of bits
    if all(q & (q - 1) == 0 for q in out.values()):
        acc = const(k, w)
        ok = True
        for a, q in out.items():
            a = shl(a, q.bit_length() - 1)
            for x, y in zip(acc, a):
                if x and y:
                    ok = False
                    break
            if not ok:
                break
            acc = bxor(acc, a)
        if ok:
            if k == 0 and len(out) == 1:
                (a, q), = out.items()
                if q > 1 and cval(acc) is None:
                    c.shifted.setdefault(acc, (a, q.bit_length() - 1))
            return acc
    # x plus a constant, when no carry depends on an unknown bit
    if len(out) == 1:
        (a, q), = out.items()
        r = ripple(a, k) if q == 1 else None
        if r is not None:
            c.alias.setdefault(r, (k, out))
            return r
    # x*(2^w-1) alone is a negation, kept as a term like any other sum
    # the low half of a sum is the sum of the low halves
    low = (lambda: from_lin(c, w // 2, k, _merge((a[:w // 2], q) for a, q in out.items()))) if w >= 64 else ()
    return c.term(('lin', k, tuple(sorted(out.items()))), w, low)


def ripple(a, k):
    cy = 0
    r = []
    for i, x in enumerate(a):
        y = ((k >> i) & 1) + cy
        if y == 1:
            if x > 1:
                return None
            r.append(1 - x)
            cy = x
        else:
            r.append(x)
            cy = y >> 1
    return tuple(r)


def _merge(it):
    r = {}
    for a, q in it:
        r[a] = r.get(a, 0) + q
    return r


def add(c, a, b, sign=1):
    w = len(a)
    va, vb = cval(a), cval(b)
    m = (1 << w) - 1
    if va is not None and vb is not None:
        return const((va + sign * vb) & m, w)
    ka, ca = lin_of(c, a)
    kb, cb = lin_of(c, b)
    for t, q in cb.items():
        ca[t] = ca.get(t, 0) + sign * q
    return from_lin(c, w, ka + sign * kb, ca)


def mul(c, a, b):
    w = len(a)
    va, vb = cval(a), cval(b)
    m = (1 << w) - 1
    if va is not None and vb is not None:
        return const((va * vb) & m, w)
    if va is not None:
        a, b, va, vb = b, a, vb, va
    if vb is not None:
        if vb == 1:
            return a
        k, co = lin_of(c, a)
        return from_lin(c, w, k * vb, {t: q * vb for t, q in co.items()})
    if a > b:
        a, b = b, a
    return c.term(('mul', a, b), w, (lambda: mul(c, a[:w // 2], b[:w // 2])) if w >= 64 else ())


def describe(c, bits, depth=0):
    o = c.owner.get(bits)
    v = cval(bits)
    if v is not None:
        return hex(v)
    if o is not None:
        d = c.blocks[o][2]
        if isinstance(d, str):
            return d
        return d[0]
    seen = set()
    for b in bits:
        for v in FORMS[b >> 1]:
            i = c.block(v)
            d = c.blocks[i][2]
            seen.add(d if isinstance(d, str) else d[0] + '#%d' % i)
    return 'bits of ' + ', '.join(sorted(seen)[:6])


def support(c, bits, memo=None):
    """names of the inputs a value depends on, through terms"""
    if memo is None:
        memo = {}
    out = set()
    vs = set()
    for b in bits:
        vs.update(FORMS[b >> 1])
    todo = set()
    for v in vs:
        i = c.block(v)
        base, w, d, _ = c.blocks[i]
        if isinstance(d, str):
            out.add((d, v - base))
        else:
            todo.add(i)
    for i in sorted(todo):
        d = c.blocks[i][2]
        if True:
            if i not in memo:
                memo[i] = set()
                s = set()
                for sub in operands(d):
                    s |= support(c, sub, memo)
                memo[i] = s
            out |= memo[i]
    return out


def operands(d):
    if d[0] == 'lin':
        return [a for a, q in d[2]]
    return [x if isinstance(x, tuple) else (x,) for x in d[1:] if isinstance(x, tuple) or (isinstance(x, int) and x > 1)]


class Knowns:
    """the set of affine forms whose value is known; closed under the invertible operations of the terms"""

    def __init__(self, c):
        self.c = c
        self.rows = {}            # leading bit -> reduced mask (constant dropped)

    def reduce(self, m):
        m &= ~1
        rows = self.rows
        while m:
            l = m.bit_length()
            # walk down the leading bits
            r = rows.get(l)
            if r is None:
                # try lower bits
                return self._deep(m)
            m ^= r
        return 0

    def _deep(self, m):
        # m's leading bit is not a pivot: it is not in the span
        return m

    def knows_bit(self, m):
        return self.reduce(mask(m)) == 0

    def knows(self, bits):
        return all(self.reduce(mask(b)) == 0 for b in bits)

    def learn(self, bits):
        new = False
        for b in bits:
            m = self.reduce(mask(b))
            if m:
                self.rows[m.bit_length()] = m
                new = True
        return new

    def close(self):
        c = self.c
        changed = True
        done = set()
        while changed:
            changed = False
            for i, (base, w, d, t) in enumerate(c.blocks):
                if isinstance(d, str) or i in done:
                    continue
                if d[0] == 'lin':
                    unk = [(a, q) for a, q in d[2] if not self.knows(a)]
                    if not unk:
                        done.add(i)
                        changed |= self.learn(t)
                    elif len(unk) == 1 and self.knows(t):
                        a, q = unk[0]
                        if q & 1:
                            done.add(i)
                            changed |= self.learn(a)
                else:
                    if all(self.knows(s) for s in operands(d)):
                        done.add(i)
                        changed |= self.learn(t)
        return self


# ---------------------------------------------------------------- linear algebra

def linear_map(c, outs, ins):
    """outs as a list of row masks over the concatenated input bits; None if an output is not linear in them"""
    pos = {}
    k = 0
    for v in ins:
        for b in v:
            pos[FORMS[b >> 1]] = k
            k += 1
    rows = []
    for v in outs:
        for b in v:
            if b & 1:
                return None
            r = 0
            for v in FORMS[b >> 1]:
                if (v,) not in pos:
                    return None
                r |= 1 << pos[(v,)]
            rows.append(r)
    return rows


def rank(rows):
    piv = {}
    n = 0
    for r in rows:
        while r:
            l = r.bit_length()
            if l not in piv:
                piv[l] = r
                n += 1
                break
            r ^= piv[l]
    return n


def _clmul_mod(a, b, f, n):
    r = 0
    while b:
        if b & 1:
            r ^= a
        b >>= 1
        a <<= 1
        if (a >> n) & 1:
            a ^= f
    return r


_SQ = [sum(((i >> k) & 1) << (2 * k) for k in range(8)) for i in range(256)]


def _sqr_mod(a, f, n):
    # spreading the bits squares over GF(2); then reduce
    by = a.to_bytes((a.bit_length() + 7) // 8 or 1, 'little')
    s = 0
    out = bytearray()
    for x in by:
        v = _SQ[x]
        out.append(v & 255)
        out.append(v >> 8)
    s = int.from_bytes(out, 'little')
    l = s.bit_length() - 1
    while l >= n:
        s ^= f << (l - n)
        l = s.bit_length() - 1
    return s


def _pow_x(e, f, n):
    r = 1
    for bit in bin(e)[2:]:
        r = _sqr_mod(r, f, n)
        if bit == '1':
            r <<= 1
            if (r >> n) & 1:
                r ^= f
    return r


def minpoly(bits):
    """Berlekamp-Massey over GF(2): the connection polynomial of the sequence, as (length, coefficient list)"""
    n = len(bits)
    c = [1]
    b = [1]
    L, m = 0, 1
    C, B = 1, 1
    seq = 0
    for i in range(n):
        # window bit j = s[i-j]
        seq = (seq << 1) | bits[i]
        d = bin(C & seq).count('1') & 1
        if d == 0:
            m += 1
        elif 2 * L <= i:
            T = C
            C ^= B << m
            L = i + 1 - L
            B = T
            m = 1
        else:
            C ^= B << m
            m += 1
    return L, C


FACTORS = {
    16: [3, 5, 17, 257],
    64: [3, 5, 17, 257, 641, 65537, 6700417],
    128: [3, 5, 17, 257, 641, 65537, 274177, 6700417, 67280421310721],
    1024: [3, 5, 17, 257, 65537, 641, 6700417, 274177, 67280421310721, 59649589127497217, 5704689200685129054721,
           1238926361552897, 93461639715357977769163558199606896584051237541638188580280321,
           2424833, 7455602825647884208337395736200454918783366342657,
           741640062627530801524787141901937474059940781097519023905821316144415759504705008092818711693940737],
}


def full_period(rows, n):
    """does the linear map given by `rows` (n x n over GF(2)) permute the non-zero vectors in one cycle?"""
    full = (1 << n) - 1
    q = full
    for p in FACTORS[n]:
        assert q % p == 0, p
        while q % p == 0:
            q //= p
    assert q == 1
    if rank(rows) != n:
        return False, 'the step is not a bijection of the states (rank %d of %d)' % (rank(rows), n)
    state = 1
    seq = []
    for _ in range(2 * n):
        seq.append(state & 1)
        nx = 0
        for i, r in enumerate(rows):
            if bin(r & state).count('1') & 1:
                nx |= 1 << i
        state = nx
    L, C = minpoly(seq)
    if L != n:
        return False, 'the step splits into independent parts (minimal polynomial of degree %d, not %d)' % (L, n)
    # reciprocal of the connection polynomial = characteristic polynomial
    f = int(bin(C | (1 << (n + 1)))[3:][::-1].ljust(n + 1, '0')[::-1], 2)
    g = 0
    for i in range(n + 1):
        if (C >> i) & 1:
            g |= 1 << (n - i)
    f = g
    if _pow_x(full, f, n) != 1:
        return False, 'the period does not divide 2^%d-1' % n
    for p in FACTORS[n]:
        if _pow_x(full // p, f, n) == 1:
            return False, 'the period divides (2^%d-1)/%d' % (n, p)
    return True, 'primitive characteristic polynomial of degree %d' % n


# ---------------------------------------------------------------- LLVM IR

TY = re.compile(r'\s*(?:(i\d+)|(ptr)|(double)|(float)|(void)|(%"?[\w.:$-]+"?)|(\[)|(<?\{))')


class Mod:
    def __init__(self, text):
        self.types = {}
        self.globals = {}
        self._ty, self._split, self._ins = {}, {}, {}
        self.mutable = {}          # name: one per thread
        self.funcs = {}
        self.parse(text)

    # types: ('i',w) ('p',) ('f',64) ('v',) ('a',n,t) ('s',[t],packed)
    def ty(self, s, i=0):
        if i == 0:
            r = self._ty.get(s)
            if r is None:
                r = self._ty[s] = self.ty_(s, 0)
            return r
        return self.ty_(s, i)

    def split(self, s):
        r = self._split.get(s)
        if r is None:
            r = self._split[s] = self.split_(s)
        return r

    def ty_(self, s, i=0):
        m = TY.match(s, i)
        if not m:
            raise Unsupported('type: ' + s[i:i + 40])
        e = m.end()
        if m.group(1):
            return ('i', int(m.group(1)[1:])), e
        if m.group(2):
            return ('p',), e
        if m.group(3):
            return ('f', 64), e
        if m.group(4):
            return ('f', 32), e
        if m.group(5):
            return ('v',), e
        if m.group(6):
            return ('n', m.group(6)), e
        if m.group(7):
            m2 = re.compile(r'\s*(\d+) x ').match(s, e)
            n = int(m2.group(1))
            t, e = self.ty(s, m2.end())
            e = s.index(']', e) + 1
            return ('a', n, t), e
        packed = '<' in m.group(8)
        ts = []
        while True:
            while s[e] in ' ,':
                e += 1
            if s[e] == '}':
                e += 1
                if packed:
                    e += 1
                return ('s', tuple(ts), packed), e
            t, e = self.ty(s, e)
            ts.append(t)

    def res(self, t):
        while t[0] == 'n':
            t = self.types[t[1]]
        return t

    def align(self, t):
        t = self.res(t)
        if t[0] == 'i':
            return min(16, max(1, 1 << ((t[1] + 7) // 8 - 1).bit_length()))
        if t[0] == 'p':
            return 8
        if t[0] == 'f':
            return t[1] // 8
        if t[0] == 'a':
            return self.align(t[2])
        return 1 if t[2] else max([self.align(x) for x in t[1]] or [1])

    def size(self, t):
        t = self.res(t)
        if t[0] == 'i':
            return 1 << ((t[1] + 7) // 8 - 1).bit_length() if t[1] > 8 else 1
        if t[0] == 'p':
            return 8
        if t[0] == 'f':
            return t[1] // 8
        if t[0] == 'a':
            return t[1] * self.size(t[2])
        o = self.field(t, len(t[1]))
        a = self.align(t)
        return (o + a - 1) // a * a

    def field(self, t, k):
        t = self.res(t)
        o = 0
        for i, x in enumerate(t[1]):
            a = 1 if t[2] else self.align(x)
            o = (o + a - 1) // a * a
            if i == k:
                return o
            o += self.size(x)
        return o

    def parse(self, text):
        cur = None
        lines = text.splitlines()
        i = 0
        while i < len(lines):
            l = lines[i]
            i += 1
            if cur is not None:
                if l.startswith('}'):
                    cur = None
                    continue
                l = re.sub(r'(?<!\\)\s*;.*$', '', l) if not re.search(r'c"', l) else l
                l = re.sub(r', ![\w.]+ ![\w.]+.*$', '', l)
                l = re.sub(r'\s+#\d+$', '', l)
                if not l.strip():
                    continue
                m = re.match(r'^("?[\w.$-]+"?):', l)
                if m:
                    lab = m.group(1).strip('"')
                    cur['blocks'][lab] = blk = []
                    if cur['entry'] is None:
                        cur['entry'] = lab
                    continue
                if cur['entry'] is None:
                    cur['entry'] = '0'
                    cur['blocks']['0'] = blk = []
                l = l.strip()
                if l.startswith('switch') and ']' not in l:
                    while ']' not in lines[i]:
                        l += ' ' + lines[i].strip()
                        i += 1
                    l += ' ]'
                    i += 1
                blk.append(l)
                continue
            m = re.match(r'^(%"?[\w.:$-]+"?) = type (.*)$', l)
            if m:
                if m.group(2) != 'opaque':
                    self.types[m.group(1)] = self.ty(m.group(2))[0]
                continue
            m = re.match(r'^@("?[\w.$-]+"?) = (.*)$', l)
            if m:
                r = m.group(2)
                if ' external ' in ' ' + r:
                    self.globals[m.group(1)] = None
                    continue
                m2 = re.search(r'\b(global|constant) ', r)
                if m2:
                    self.globals[m.group(1)] = r[m2.end():]
                    if m2.group(1) == 'global':
                        self.mutable[m.group(1)] = 'thread_local' in r[:m2.start()]
                continue
            m = re.match(r'^define .*?@("?[\w.$-]+"?)\((.*)$', l)
            if m:
                rest = m.group(2)
                d = 1
                for k, ch in enumerate(rest):
                    d += (ch == '(') - (ch == ')')
                    if d == 0:
                        break
                pars = self.split(rest[:k])
                names = []
                for p in pars:
                    if p.strip() == '...':
                        continue
                    t, e = self.ty(p)
                    byv = re.search(r'byval\(([^)]*)\)', p)
                    sret = re.search(r'sret\(([^)]*)\)', p)
                    names.append((p.split()[-1], t, byv and self.ty(byv.group(1))[0]))
                hd = l[:m.start(1) - 1]
                rt = None
                toks = hd.split()
                for k in range(len(toks)):
                    try:
                        s = ' '.join(toks[k:])
                        if re.match(r'(i\d+|ptr|double|float|void|%|\{|\[)', toks[k]):
                            rt = self.ty(s)[0]
                            break
                    except Unsupported:
                        pass
                cur = dict(name=m.group(1), pars=names, blocks={}, entry=None, ret=rt)
                self.funcs[m.group(1)] = cur
                continue

    def split_(self, s):
        out, d, cur, q = [], 0, '', False
        for ch in s:
            if ch == '"':
                q = not q
            if not q:
                if ch in '([{<':
                    d += 1
                elif ch in ')]}>':
                    d -= 1
                elif ch == ',' and d == 0:
                    out.append(cur)
                    cur = ''
                    continue
            cur += ch
        if cur.strip():
            out.append(cur)
        return out


class Obj:
    __slots__ = ('name', 'size', 'bits', 'ptrs', 'ro')

    def __init__(self, name, size):
        self.name = name
        self.size = size
        self.bits = [None] * (8 * size)
        self.ptrs = {}
        self.ro = False


class Ptr:
    __slots__ = ('o', 'off')

    def __init__(self, o, off):
        self.o = o
        self.off = off

    def __eq__(self, x):
        return isinstance(x, Ptr) and x.o is self.o and x.off == self.off


NULL = None


class Interp:
    def __init__(self, mod, ctx=None, externs=None, fuel=2000000):
        self.m = mod
        self.c = ctx or Ctx()
        self.ext = externs or {}
        self.fuel = fuel
        self.choices = []
        self.pos = 0
        self.assume = []          # (bit, value)
        self.gobj = {}
        self.summary = {}         # functions whose effect is known
        self.calls = set()
        self.where = ''
        self.reads = 0

    # -------- memory
    def obj(self, name, size, bits=None):
        o = Obj(name, size)
        if bits is not None:
            o.bits[:len(bits)] = list(bits)
        return o

    def chk(self, p, n, what):
        if not isinstance(p, Ptr):
            raise Fault('%s: %s through a null or unknown pointer' % (self.where, what))
        if not isinstance(p.off, int):
            raise Unsupported('%s: %s at an offset that is not constant' % (self.where, what))
        off = p.off
        if off < 0 or off + n > p.o.size:
            raise Fault('%s: %s of %d byte(s) at offset %d of %s, which has %d bytes' % (
                self.where, what, n, off, p.o.name, p.o.size))
        if what == 'write' and p.o.ro:
            raise Fault('%s: write to %s, which must not change' % (self.where, p.o.name))

    def load(self, p, t):
        t = self.m.res(t)
        n = self.m.size(t)
        self.chk(p, n, 'read')
        self.reads += 1
        if t[0] == 'p':
            if p.off in p.o.ptrs:
                return p.o.ptrs[p.off]
            b = p.o.bits[8 * p.off:8 * p.off + 64]
            if all(x == 0 for x in b):
                return NULL
            raise Unsupported('%s: integer read as a pointer' % self.where)
        w = t[1] if t[0] in 'if' else 8 * n
        b = p.o.bits[8 * p.off:8 * p.off + w]
        if None in b:
            raise Fault('%s: reads %d byte(s) of %s at offset %d before they are written' % (self.where, n, p.o.name, p.off))
        return tuple(b)

    def store(self, p, t, v):
        t = self.m.res(t)
        n = self.m.size(t)
        self.chk(p, n, 'write')
        o = p.o
        for k in [k for k in o.ptrs if k < p.off + n and k + 8 > p.off]:
            del o.ptrs[k]
        if t[0] == 'p':
            o.ptrs[p.off] = v
            o.bits[8 * p.off:8 * p.off + 64] = [0] * 64 if v is NULL else [None] * 64
            return
        w = t[1] if t[0] in 'if' else 8 * n
        o.bits[8 * p.off:8 * p.off + w] = list(v)
        if 8 * n > w:
            o.bits[8 * p.off + w:8 * p.off + 8 * n] = [0] * (8 * n - w)

    def copy(self, d, s, n):
        if n == 0:
            return
        self.chk(d, n, 'write')
        self.chk(s, n, 'read')
        b = s.o.bits[8 * s.off:8 * (s.off + n)]
        ptrs = {k - s.off: v for k, v in s.o.ptrs.items() if s.off <= k and k + 8 <= s.off + n}
        for k in [k for k in d.o.ptrs if k < d.off + n and k + 8 > d.off]:
            del d.o.ptrs[k]
        d.o.bits[8 * d.off:8 * (d.off + n)] = b
        for k, v in ptrs.items():
            d.o.ptrs[d.off + k] = v

    # -------- operands
    def glob(self, name):
        if name in self.gobj:
            return self.gobj[name]
        init = self.m.globals.get(name, 0)
        if init is None or init == 0:
            raise Unsupported('external object ' + name)
        t, e = self.m.ty(init)
        o = Obj(name, self.m.size(t))
        self.gobj[name] = o
        self.initg(o, 0, t, init[e:])
        return o

    def initg(self, o, off, t, s):
        """initialise; returns the rest of the text"""
        s = s.lstrip()
        t = self.m.res(t)
        n = self.m.size(t)
        if s.startswith('zeroinitializer'):
            o.bits[8 * off:8 * (off + n)] = [0] * (8 * n)
            return s[15:]
        if s.startswith('undef') or s.startswith('poison'):
            return s[5:]
        if t[0] == 'i':
            m = re.match(r'(-?\d+|true|false)', s)
            x = {'true': 1, 'false': 0}.get(m.group(1))
            x = int(m.group(1)) if x is None else x
            o.bits[8 * off:8 * (off + n)] = list(const(x & ((1 << 8 * n) - 1), 8 * n))
            return s[m.end():]
        if t[0] == 'p':
            m = re.match(r'(null|@"?[\w.$-]+"?)', s)
            if not m:
                raise Unsupported('initialiser: ' + s[:40])
            if m.group(1) == 'null':
                o.bits[8 * off:8 * off + 64] = [0] * 64
            else:
                nm = m.group(1)[1:]
                o.ptrs[off] = ('fn', nm) if nm in self.m.funcs else Ptr(self.glob(nm), 0)
            return s[m.end():]
        if t[0] == 'f':
            m = re.match(r'\S+', s)
            v = self.fconst(m.group(0).rstrip(',]}'), t)
            o.bits[8 * off:8 * (off + n)] = list(v)
            return s[len(m.group(0).rstrip(',]}')):]
        if t[0] == 'a' and s.startswith('c"'):
            e = s.index('"', 2)
            raw = s[2:e]
            by = bytearray()
            i = 0
            while i < len(raw):
                if raw[i] == '\\':
                    by.append(int(raw[i + 1:i + 3], 16))
                    i += 3
                else:
                    by.append(ord(raw[i]))
                    i += 1
            for i, x in enumerate(by):
                o.bits[8 * (off + i):8 * (off + i) + 8] = list(const(x, 8))
            return s[e + 1:]
        op, cl = ('[', ']') if t[0] == 'a' else ('{', '}')
        s = s.lstrip('<').lstrip()
        assert s[0] == op, s[:40]
        s = s[1:]
        k = 0
        while True:
            s = s.lstrip(' ,')
            if s.startswith(cl):
                s = s[1:]
                if s.startswith('>'):
                    s = s[1:]
                return s
            et, e = self.m.ty(s)
            eo = off + (k * self.m.size(t[2]) if t[0] == 'a' else self.m.field(t, k))
            s = self.initg(o, eo, et, s[e:])
            k += 1

    def fconst(self, s, t):
        if t[1] != 64:
            raise Unsupported('float constant')
        if s.startswith('0x'):
            return const(int(s, 16), 64)
        return const(struct.unpack('<Q', struct.pack('<d', float(s)))[0], 64)

    def val(self, f, s, t):
        s = s.strip()
        t = self.m.res(t)
        if s[0] == '%':
            return f[s]
        if s[0] == '@':
            nm = s[1:]
            if nm in self.m.funcs or (nm not in self.m.globals):
                return ('fn', nm)
            return Ptr(self.glob(nm), 0)
        if s == 'null':
            return NULL
        if s in ('true', 'false'):
            return const(int(s == 'true'), 1)
        if s in ('undef', 'poison'):
            return self.c.fresh(t[1], 'undef')
        if s == 'zeroinitializer':
            return const(0, 8 * self.m.size(t))
        if t[0] == 'f':
            return self.fconst(s, t)
        if re.match(r'-?\d+$', s):
            return const(int(s) & ((1 << t[1]) - 1), t[1])
        m = re.match(r'getelementptr (?:inbounds |nuw |nusw )*\((.*)\)$', s)
        if m:
            return self.gep(f, self.m.split(m.group(1)))
        raise Unsupported('operand ' + s)

    def gep(self, f, parts):
        t, _ = self.m.ty(parts[0])
        pt, e = self.m.ty(parts[1])
        p = self.val(f, parts[1][e:], pt)
        if not isinstance(p, Ptr):
            raise Fault('%s: address computed from a null or unknown pointer' % self.where)
        off = p.off
        for k, q in enumerate(parts[2:]):
            it, e = self.m.ty(q)
            iv = self.val(f, q[e:], it)
            v = cval(iv)
            if v is None:
                raise Unsupported('%s: array index that is not constant' % self.where)
            if v >> (it[1] - 1):
                v -= 1 << it[1]
            if k == 0:
                off += v * self.m.size(t)
                continue
            t = self.m.res(t)
            if t[0] == 'a':
                t = t[2]
                off += v * self.m.size(t)
            else:
                off += self.m.field(t, v)
                t = t[1][v]
        return Ptr(p.o, off)

    # -------- branching on unknown conditions
    def decide(self, bit):
        if bit <= 1:
            return bit
        for b, v in self.assume:
            if bit == b:
                return v
            if bit == b ^ 1:
                return v ^ 1
        if self.pos < len(self.choices):
            v = self.choices[self.pos]
        else:
            v = 0
            self.choices.append(0)
        self.pos += 1
        self.assume.append((bit, v))
        return v

    # -------- execution over the abstract values
    def call(self, name, args):
        h = self.summary.get(name)
        if h is not None:
            return h(self, *args)
        fn = self.m.funcs.get(name)
        if fn is None:
            h = self.ext.get(name)
            if h is None:
                raise Unsupported('call to %s, which is outside the analysed code' % name)
            return h(self, *args)
        self.calls.add(name)
        f = {}
        for (nm, t, byv), a in zip(fn['pars'], args):
            if byv is not None:
                n = self.m.size(byv)
                o = Obj(nm, n)
                self.copy(Ptr(o, 0), a, n)
                a = Ptr(o, 0)
            f[nm] = a
        lab, prev = fn['entry'], None
        while True:
            blk = fn['blocks'][lab]
            nxt = None
            for ins in blk:
                self.fuel -= 1
                if self.fuel <= 0:
                    raise Unsupported('%s: no end in sight' % name)
                self.where = '%s' % name
                r = self.step(f, ins, prev, fn)
                if r is None:
                    continue
                if r[0] == 'br':
                    nxt = r[1]
                    break
                return r[1]
            prev, lab = lab, nxt

    def step(self, f, ins, prev, fn):
        c = self.c
        M = self.m
        d = M._ins.get(ins)
        if d is None:
            m = re.match(r'^(%"?[\w.$-]+"?) = (.*)$', ins)
            dst, body = (m.group(1), m.group(2)) if m else (None, ins)
            op, _, rest = body.partition(' ')
            flags = (r'nuw |nsw |exact |disjoint |fast |nnan |ninf |nsz |arcp |contract |reassoc |nneg ' if op not in ('store', 'load', 'getelementptr')
                     else r'volatile |atomic |inbounds |nuw |nusw ')
            rest = re.sub('^(?:' + flags + ')+', '', rest)
            d = M._ins[ins] = dst, body, op, rest
        dst, body, op, rest = d

        def two(rest):
            t, e = M.ty(rest)
            a, b = M.split(rest[e:])
            return t, self.val(f, a, t), self.val(f, b, t)

        if op == 'alloca':
            p = M.split(rest)
            t, _ = M.ty(p[0])
            n = 1
            if len(p) > 1 and not p[1].strip().startswith('align'):
                it, e = M.ty(p[1])
                n = cval(self.val(f, p[1][e:], it))
                if n is None:
                    raise Unsupported('%s: variable length array' % self.where)
            f[dst] = Ptr(Obj(dst[1:], M.size(t) * n), 0)
        elif op == 'store':
            p = M.split(rest)
            t, e = M.ty(p[0])
            v = self.val(f, p[0][e:], t)
            pt, e = M.ty(p[1])
            self.store(self.val(f, p[1][e:], pt), t, v)
        elif op == 'load':
            p = M.split(rest)
            t, e = M.ty(p[0])
            pt, e = M.ty(p[1])
            q = p[1][e:].strip().split(' ')[0] if '(' not in p[1] else p[1][e:]
            f[dst] = self.load(self.val(f, q, pt), t)
        elif op == 'getelementptr':
            f[dst] = self.gep(f, M.split(rest))
        elif op in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            t, a, b = two(rest)
            if a is NULL or isinstance(a, Ptr) or isinstance(b, Ptr) or (isinstance(a, tuple) and a and a[0] == 'pi') \
                    or (isinstance(b, tuple) and b and b[0] == 'pi'):
                f[dst] = self.ptrarith(op, a, b, t)
            else:
                f[dst] = self.arith(op, a, b, t[1])
        elif op == 'icmp':
            pred, _, rest = rest.partition(' ')
            t, a, b = two(rest)
            f[dst] = (self.icmp(pred, a, b),)
        elif op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr'):
            t, e = M.ty(rest)
            s, to = rest[e:].rsplit(' to ', 1)
            tt = M.res(M.ty(to)[0])
            v = self.val(f, s, t)
            if op == 'zext':
                f[dst] = v + (0,) * (tt[1] - len(v))
            elif op == 'sext':
                f[dst] = v + (v[-1],) * (tt[1] - len(v))
            elif op == 'trunc':
                f[dst] = v[:tt[1]]
            elif op == 'bitcast':
                f[dst] = v
            elif op == 'ptrtoint':
                f[dst] = const(0, 64) if v is NULL else ('pi', v)
            else:
                if isinstance(v, tuple) and v and v[0] == 'pi':
                    f[dst] = v[1]
                elif cval(v) == 0:
                    f[dst] = NULL
                else:
                    raise Unsupported('%s: integer made into a pointer' % self.where)
        elif op == 'br':
            if rest.startswith('label'):
                return 'br', rest.split('%', 1)[1].strip().strip('"')
            p = M.split(rest)
            cnd = self.val(f, p[0].split(' ', 1)[1], ('i', 1))[0]
            v = self.decide(cnd)
            return 'br', p[1 if v else 2].split('%', 1)[1].strip().strip('"')
        elif op == 'switch':
            m2 = re.match(r'(i\d+) (\S+), label %(\S+) \[(.*)\]', rest)
            w = int(m2.group(1)[1:])
            v = self.val(f, m2.group(2), ('i', w))
            k = cval(v)
            cases = re.findall(r'i\d+ (-?\d+), label %("?[\w.$-]+"?)', m2.group(4))
            if k is None:
                for cv, lab in cases:
                    if self.decide(self.icmp('eq', v, const(int(cv) & ((1 << w) - 1), w))):
                        return 'br', lab.strip('"')
                return 'br', m2.group(3).strip('"')
            for cv, lab in cases:
                if int(cv) & ((1 << w) - 1) == k:
                    return 'br', lab.strip('"')
            return 'br', m2.group(3).strip('"')
        elif op == 'ret':
            if rest == 'void':
                return 'ret', None
            t, e = M.ty(rest)
            return 'ret', self.val(f, rest[e:], t)
        elif op == 'phi':
            t, e = M.ty(rest)
            for v, lab in re.findall(r'\[ ([^,]+), %("?[\w.$-]+"?) \]', rest[e:]):
                if lab.strip('"') == prev:
                    f[dst] = self.val(f, v, t)
                    break
            else:
                raise Unsupported('phi')
        elif op == 'select':
            p = M.split(rest)
            cnd = self.val(f, p[0].split(' ', 1)[1], ('i', 1))[0]
            t, e = M.ty(p[1])
            a = self.val(f, p[1][e:], t)
            t, e = M.ty(p[2])
            b = self.val(f, p[2][e:], t)
            if cnd <= 1:
                f[dst] = a if cnd else b
            elif t[0] == 'i':
                f[dst] = ite(c, cnd, a, b)
            else:
                f[dst] = a if self.decide(cnd) else b
        elif op in ('call', 'tail', 'notail', 'musttail'):
            body = re.sub(r'^(?:tail |notail |musttail )', '', body)
            r = self.docall(f, body)
            if dst:
                f[dst] = r
        elif op in ('fsub', 'fadd', 'fmul', 'fdiv'):
            t, a, b = two(rest)
            f[dst] = c.term((op, a, b), len(a))
        elif op in ('uitofp', 'sitofp', 'fptosi', 'fptoui'):
            t, e = M.ty(rest)
            s, to = rest[e:].rsplit(' to ', 1)
            v = self.val(f, s, t)
            tt = M.res(M.ty(to)[0])
            f[dst] = c.term((op, v), tt[1])
        elif op == 'unreachable':
            raise PathEnd('unreachable')
        elif op == 'extractvalue':
            p = M.split(rest)
            t, e = M.ty(p[0])
            v = self.val(f, p[0][e:], t)
            k = int(p[1])
            t = M.res(t)
            o = M.field(t, k) if t[0] == 's' else k * M.size(t[2])
            et = t[1][k] if t[0] == 's' else t[2]
            f[dst] = tuple(v[8 * o:8 * o + M.res(et)[1]])
        elif op == 'insertvalue':
            p = M.split(rest)
            t, e = M.ty(p[0])
            s = p[0][e:].strip()
            v = list(const(0, 8 * M.size(t))) if s in ('undef', 'poison') else list(self.val(f, s, t))
            et, e = M.ty(p[1])
            x = self.val(f, p[1][e:], et)
            k = int(p[2])
            t = M.res(t)
            o = M.field(t, k) if t[0] == 's' else k * M.size(t[2])
            v[8 * o:8 * o + len(x)] = list(x)
            f[dst] = tuple(v)
        elif op == 'freeze':
            t, e = M.ty(rest)
            f[dst] = self.val(f, rest[e:], t)
        elif op == 'fence':
            pass
        else:
            raise Unsupported('%s: instruction %s' % (self.where, body[:60]))
        return None

    def load_any(self, p, t):
        t = self.m.res(t)
        return self.load(p, t)

    def ptrarith(self, op, a, b, t):
        if op == 'sub' and isinstance(a, tuple) and a and a[0] == 'pi' and isinstance(b, tuple) and b and b[0] == 'pi':
            if a[1].o is not b[1].o:
                raise Fault('%s: difference of pointers into different objects' % self.where)
            return const((a[1].off - b[1].off) & ((1 << 64) - 1), 64)
        if op == 'and' and isinstance(a, tuple) and a and a[0] == 'pi' and cval(b) is not None and cval(b) < 16:
            # objects are 16-aligned
            return const(a[1].off & cval(b), 64)
        raise Unsupported('%s: arithmetic on an address' % self.where)

    def arith(self, op, a, b, w):
        c = self.c
        if op == 'add':
            return add(c, a, b)
        if op == 'sub':
            return add(c, a, b, -1)
        if op == 'mul':
            return mul(c, a, b)
        if op == 'xor':
            return bxor(a, b)
        if op == 'and':
            return band(c, a, b)
        if op == 'or':
            return bor(c, a, b)
        va, vb = cval(a), cval(b)
        if op in ('shl', 'lshr', 'ashr'):
            if vb is None:
                return c.term((op, a, b), w)
            if vb >= w:
                raise Fault('%s: shift of a %d-bit value by %d' % (self.where, w, vb))
            r = {'shl': shl, 'lshr': lshr, 'ashr': ashr}[op](a, vb)
            if op == 'shl' and vb and cval(a) is None:
                c.shifted.setdefault(r, (a, vb))
            return r
        if vb == 0:
            raise Fault('%s: division by zero' % self.where)
        if va is not None and vb is not None:
            m = (1 << w) - 1
            if op == 'udiv':
                return const(va // vb, w)
            if op == 'urem':
                return const(va % vb, w)
            sa = va - (1 << w) if va >> (w - 1) else va
            sb = vb - (1 << w) if vb >> (w - 1) else vb
            q = abs(sa) // abs(sb)
            q = -q if (sa < 0) != (sb < 0) else q
            return const((q if op == 'sdiv' else sa - q * sb) & m, w)
        if vb is not None and op == 'udiv':
            # a multiple of the divisor that did not wrap
            k, co = lin_of(c, a)
            if co and k % vb == 0 and all(q % vb == 0 for q in co.values()) and k + sum(q * self.rng(t)[1] for t, q in co.items()) < 1 << w:
                return from_lin(c, w, k // vb, {t: q // vb for t, q in co.items()})
        if vb is not None and vb & (vb - 1) == 0:
            k = vb.bit_length() - 1
            if op == 'udiv' or (op == 'sdiv' and a[-1] == 0):
                return lshr(a, k)
            if op == 'urem' or (op == 'srem' and a[-1] == 0):
                return a[:k] + (0,) * (w - k)
        return c.term((op, a, b), w)

    def rng(self, a, upto=None):
        """least and greatest value of a, as unsigned number"""
        c = self.c
        w = len(a)
        lo = sum((1 << i) for i, x in enumerate(a) if x == 1)
        hi = sum((1 << i) for i, x in enumerate(a) if x)
        if lo == hi:
            return lo, hi
        k, co = lin_of(c, a)
        if not (k == 0 and co == {a: 1}):
            l = h = k - (1 << w) if k >> (w - 1) else k
            for t, q in co.items():
                x, y = self.rng(t, upto)
                q = q - (1 << w) if q >> (w - 1) else q
                l += q * (x if q > 0 else y)
                h += q * (y if q > 0 else x)
            if l < 0 and h < 0 and l >= -(1 << w):
                l, h = l + (1 << w), h + (1 << w)
            if l >= 0 and h < 1 << w:
                lo, hi = max(lo, l), min(hi, h)
        if self.assume:
            for i, (bit, v) in enumerate(self.assume[:upto]):
                d = c.blocks[c.owner[(bit & ~1,)]][2] if (bit & ~1,) in c.owner else None
                if not isinstance(d, tuple) or d[0] != 'ult':
                    continue
                v ^= bit & 1
                p, q = d[1], d[2]                      # p < q is v
                for s, other, less in ((p, q, v), (q, p, not v)):
                    n = cval(other)
                    if n is None or len(s) != w:
                        continue
                    # bounds of s
                    if s is p:
                        sl, sh = (0, n - 1) if v else (n, (1 << w) - 1)
                    else:
                        sl, sh = (n + 1, (1 << w) - 1) if v else (0, n)
                    k, co = lin_of(c, s)
                    if s == a:
                        lo, hi = max(lo, sl), min(hi, sh)
                    elif co == {a: 1}:
                        ks = k - (1 << w) if k >> (w - 1) else k
                        x, y = self.rng(a, i)
                        if x + ks >= 0 and y + ks < 1 << w:
                            lo, hi = max(lo, sl - ks), min(hi, sh - ks)
        return lo, hi

    def decide_as(self, bit, v):
        self.assume.append((bit, v))

    def resolve(self, bits):
        """bits whose value follows from the range of the sum they belong to"""
        c = self.c
        out = []
        for b in bits:
            r = b & 1
            for v in FORMS[b >> 1]:
                x = form((v,))
                i = c.block(v)
                d, t = c.blocks[i][2], c.blocks[i][3]
                if isinstance(d, tuple) and d[0] == 'lin':
                    k = t.index(x)
                    lo, hi = self.rng(t)
                    if lo >> k == hi >> k:
                        x = lo >> k & 1
                elif isinstance(d, tuple) and d[0] == 'and':
                    y, z = self.resolve((d[1], d[2]))
                    x = bit_and(c, y, z)
                r = xor(r, x)
            out.append(r)
        return tuple(out)

    def icmp(self, pred, a, b):
        c = self.c
        if not (isinstance(a, tuple) and isinstance(b, tuple)) or (a and a[0] in ('pi', 'fn')) or (b and b[0] in ('pi', 'fn')):
            if isinstance(a, tuple) and a and a[0] == 'pi':
                a = a[1]
            if isinstance(b, tuple) and b and b[0] == 'pi':
                b = b[1]
            if pred in ('eq', 'ne'):
                same = a == b if not (a is NULL or b is NULL) else a is b
                return int(same == (pred == 'eq'))
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o is b.o:
                x, y = a.off, b.off
                return int({'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}[pred])
            raise Unsupported('%s: comparison of unrelated pointers' % self.where)
        va, vb = cval(a), cval(b)
        w = len(a)
        if va is not None and vb is not None:
            if pred[0] == 's':
                va = va - (1 << w) if va >> (w - 1) else va
                vb = vb - (1 << w) if vb >> (w - 1) else vb
            q = pred if pred in ('eq', 'ne') else pred[1:]
            return int({'eq': va == vb, 'ne': va != vb, 'lt': va < vb, 'le': va <= vb, 'gt': va > vb, 'ge': va >= vb}[q])
        if pred in ('eq', 'ne'):
            d = bxor(a, b)
            if not all(x <= 1 for x in d) and len(a) > 1:
                (al, ah), (bl, bh) = self.rng(a), self.rng(b)
                if ah < bl or bh < al:
                    return int(pred == 'ne')
            if any(x == 1 for x in d):
                return int(pred == 'ne')
            d = tuple(sorted(set(x for x in d if x)))
            if not d:
                return int(pred == 'eq')
            if len(d) == 1:
                return d[0] ^ (pred == 'eq')
            t = c.term(('nz', d), 1)[0]
            return t ^ (pred == 'eq')
        if a == b:
            return int(pred in ('ule', 'uge', 'sle', 'sge'))
        # bounds from known high zero bits
        if pred[0] == 'u':
            ra, rb = self.rng(a), self.rng(b)
            hi = lambda v: ra[1] if v is a else rb[1]
            lo = lambda v: ra[0] if v is a else rb[0]
            if pred in ('ult', 'uge'):
                if hi(a) < lo(b):
                    return int(pred == 'ult')
                if lo(a) >= hi(b):
                    return int(pred == 'uge')
            else:
                if lo(a) > hi(b):
                    return int(pred == 'ugt')
                if hi(a) <= lo(b):
                    return int(pred == 'ule')
        base = {'ult': ('u', a, b, 0), 'uge': ('u', a, b, 1), 'ugt': ('u', b, a, 0), 'ule': ('u', b, a, 1),
                'slt': ('s', a, b, 0), 'sge': ('s', a, b, 1), 'sgt': ('s', b, a, 0), 'sle': ('s', b, a, 1)}[pred]
        return c.term((base[0] + 'lt', base[1], base[2]), 1)[0] ^ base[3]

    def docall(self, f, body):
        m = re.match(r'call (?:fastcc )?(.*?)(@"?[\w.$-]+"?|%"?[\w.$-]+"?|asm .*?)\((.*)\)(?: #\d+)?(?:,.*)?$', body)
        if not m or m.group(2).startswith('asm'):
            raise Unsupported('%s: %s' % (self.where, body[:60]))
        name = m.group(2)
        args = []
        for a in self.m.split(m.group(3)):
            a = a.strip()
            if a.startswith('metadata'):
                return None
            t, e = self.m.ty(a)
            r = a[e:].strip()
            # drop attributes
            while True:
                m2 = re.match(r'(noundef|signext|zeroext|nonnull|noalias|writeonly|readonly|nocapture|immarg|returned|align \d+|dereferenceable\(\d+\)|byval\([^)]*\)|sret\([^)]*\)) ', r)
                if not m2:
                    break
                r = r[m2.end():]
            args.append(self.val(f, r, t))
        if name[0] == '%':
            v = f[name]
            if not (isinstance(v, tuple) and v and v[0] == 'fn'):
                raise Unsupported('%s: call through an unknown pointer' % self.where)
            name = '@' + v[1]
        name = name[1:]
        w = self.where
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove') or name in ('memcpy', 'memmove'):
            n = cval(args[2])
            if n is None:
                raise Unsupported('%s: copy of an unknown length' % w)
            self.copy(args[0], args[1], n)
            return args[0]
        if name.startswith('llvm.memset') or name == 'memset':
            n = cval(args[2])
            if n is None:
                raise Unsupported('%s: memset of an unknown length' % w)
            for i in range(n):
                self.store(Ptr(args[0].o, args[0].off + i), ('i', 8), args[1][:8])
            return args[0]
        if name.startswith('llvm.bswap'):
            a = args[0]
            return tuple(x for i in range(len(a) // 8 - 1, -1, -1) for x in a[8 * i:8 * i + 8])
        if name.startswith('llvm.fsh'):
            a, b, k = args
            k = cval(k)
            if k is None:
                raise Unsupported('%s: rotation by an unknown amount' % w)
            n = len(a)
            k %= n
            cat = b + a
            lo = n - k if name.startswith('llvm.fshl') else k
            return cat[lo:lo + n]
        if name.startswith('llvm.is.constant'):
            return (0,)
        if name.startswith('llvm.expect') or name.startswith('llvm.threadlocal.address'):
            return args[0]
        if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume')):
            return None
        if name in ('__assert_fail', 'abort', 'exit', '_exit'):
            raise Fault('%s: %s is reached' % (w, name))
        r = self.call(name, args)
        self.where = w
        return r


def compile_ir(src, opts, sroa=False):
    r = subprocess.run(['clang', '-S', '-emit-llvm', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-w',
                        *opts, str(src), '-o', '-'], capture_output=True, text=True)
    if r.returncode:
        raise Unsupported('does not compile: ' + r.stderr[:2000])
    if sroa:      # local variables into registers: shorter to interpret
        r = subprocess.run(['opt', '-S', '-passes=sroa'], input=r.stdout, capture_output=True, text=True)
        if r.returncode:
            raise Unsupported('opt: ' + r.stderr[:2000])
    return r.stdout


def paths(mk, limit=256):
    """mk(choices) -> (interp, thunk); yields (interp, result) for every path"""
    choices = []
    n = 0
    while True:
        it, run = mk(list(choices))
        it.choices = list(choices)
        n += 1
        if n > limit:
            raise Unsupported('more than %d paths' % limit)
        try:
            r = run()
            yield it, r
        except PathEnd:
            pass
        choices = it.choices[:it.pos]
        while choices and choices[-1] == 1:
            choices.pop()
        if not choices:
            return
        choices[-1] = 1
