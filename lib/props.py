"""Which obligations decide which property."""
from eva import Eva
from bits import Bits
from hidden import Hidden

PROPS, LEVEL, EXPLAIN, ASSUME = {}, {}, {}, {}

PROPS["S01"] = [
    Eva("strcopy", quick=dict(SN=4, BN=6), thorough=dict(SN=7, BN=9), what="bounded copy, truncation, return value"),
]
PROPS["S02"] = [
    Eva("split", quick=dict(SN=4, MANY=33), thorough=dict(SN=5, MANY=65), shards=2, what="tokens against a reference tokenizer"),
    Eva("split-wide", "split", quick=dict(SN=2, MANY=17, WIDE=1), thorough=dict(SN=3), shards=(1, 2), ilevel=256, what="as split, all byte classes"),
]
PROPS["S03"] = [
    Eva("trim", quick=dict(SN=4), thorough=dict(SN=5), shards=3, what="strtrim/strunquote against a reference"),
    Eva("trim-wide", "trim", quick=dict(SN=2, WIDE=1), thorough=dict(SN=3), shards=(1, 4), what="as trim, all byte classes"),
]
PROPS["S04"] = [
    Eva("csv", quick=dict(SN=4), thorough=dict(SN=5), shards=3, what="strsplit_csv against a reference"),
    Eva("csv-wide", "csv", quick=dict(SN=2, WIDE=1), thorough=dict(SN=3), shards=(1, 4), ilevel=256, what="as csv, all byte classes"),
    Eva("args", "csv", quick=dict(SN=4, ARGS=1), thorough=dict(SN=5), shards=3, what="strsplitargs against a reference"),
    Eva("args-wide", "csv", quick=dict(SN=2, WIDE=1, ARGS=1), thorough=dict(SN=3), shards=(1, 4), ilevel=256, what="as args, all byte classes"),
]
PROPS["S05"] = [
    Eva("hex", quick=dict(SN=3), thorough=dict(SN=4), shards=3, what="str2hex value, odd lengths, invalid digits, output bound"),
    Eva("esc-rt", "esc", quick=dict(RT=2, RT4=3), thorough=dict(RT=3, RT4=4), shards=(2, 4), what="unescape(escape(s)) == s"),
    Eva("esc-table", "esc", quick=dict(SN=3, TABLE=1), thorough=dict(SN=4), shards=(2, 4), what="every escape sequence, and any bytes"),
]
PROPS["S06"] = [
    Eva("b64-rt", "b64", quick=dict(ENC=3), thorough=dict(ENC=5), shards=(4, 4), what="encode against the alphabet table, decode(encode(x)) == x, chunked"),
    Eva("b64-len", "b64", quick=dict(LENS=1), thorough=dict(MAXN=224), what="every character, output size, line breaks, capacity check at every length around the breaks, three fillings"),
    Eva("b64-dec", "b64", quick=dict(DEC=2), thorough=dict(DEC=4), shards=(2, 4), what="decoding any bytes into any capacity; every digit at every place"),
]
PROPS["S07"] = [
    Eva("ip", quick=dict(SN=3), thorough=dict(SN=5), shards=4, what="address, mask and host parsing against the dotted-quad grammar; str_ipv4 round trip"),
    Eva("ip-any", "ip", quick=dict(SN=7, ANY=1), thorough=dict(SN=8), shards=(3, 4), what="any bytes: no fault, result only for well-formed text"),
]
PROPS["S08"] = [
    Eva("size-num", "size", quick=dict(NUM=1), shards=(2, 4), what="strtou64: value, end pointer, overflow, every base"),
    Eva("size-suffix", "size", quick=dict(SIZES=1), shards=(2, 4), what="strtosize suffixes and overflow; humanize_size within one hundredth of its unit"),
    Eva("size-any", "size", quick=dict(ANY=3), thorough=dict(ANY=4), shards=(2, 4), what="any bytes: no fault, end pointer inside the string"),
]
PROPS["S09"] = [
    Eva("hexdump", quick=dict(MAXN=34), thorough=dict(MAXN=130), ilevel=256, shards=4, opts=["-absolute-valid-range", "0x10000-0x1ffff"],
        what="every line against the hexdump -C layout; writer errors; file errors"),
]
PROPS["S10"] = [
    Eva("dirname", quick=dict(SN=6, WN=4), thorough=dict(SN=9, WN=5), shards=(2, 4), what="dirname against a reference on '/' and non-'/' classes"),
]
PROPS["S11"] = [
    Eva("uuid", quick=dict(), ilevel=256, shards=3, what="each digit depends on its nibble only; every digit at every place; text length and digit count; version and variant bits"),
    Eva("ulid", "uuid", quick=dict(ULID=1), ilevel=256, shards=5, what="each digit depends on its 5 bits only; every digit at every place; time prefix; entropy and clock failures"),
]

ABS = ["-absolute-valid-range", "0x10000-0x6ffff"]
PROPS["A01"] = [
    Eva("arena", quick=dict(OPS=3, STEP=1), thorough=dict(OPS=4), shards=(6, 8), opts=ABS,
        what="request sequences against a map of handed-out blocks; wrapping sizes; every allocation failure; memmgr"),
]
PROPS["A02"] = [
    Eva("mempool", quick=dict(OPS=4), thorough=dict(OPS=6), shards=(6, 8), opts=ABS,
        what="alloc/free sequences against a map of outstanding blocks; limits; every allocation failure; caller's memory of any size and alignment"),
]

PROPS["C01"] = [
    Eva("list", quick=dict(MAXL=4), thorough=dict(MAXL=6), what="every list operation against an array model, links in both directions"),
]
PROPS["C02"] = [
    Eva("vect", quick=dict(MAXC=4, T="int"), thorough=dict(MAXC=5), shards=3, what="every vector operation against an array model, from every size and capacity"),
    Eva("vect-wide", "vect", quick=dict(MAXC=2, WIDE_T=1), thorough=dict(MAXC=4), shards=2, what="as vect, 8-byte elements"),
]
PROPS["C03"] = [
    Eva("queue", quick=dict(MAXQ=6), thorough=dict(MAXQ=9), what="every queue operation against an array model, at every rotation"),
]
PROPS["C04"] = [
    Eva("bitset", ilevel=256, shards=2, what="each bit alone; whole-set operations word by word"),
]
PROPS["C05"] = [
    Eva("buf", shards=2, what="append, push, pop, growth against a byte model"),
]

PROPS["S12"] = [
    Eva("gstr", shards=(3, 8), what="every growable-string operation against a byte model, from every length and capacity; reading lines"),
    Eva("gstr-edit", "gstr", quick=dict(EDIT=3), thorough=dict(EDIT=5), shards=(2, 6), what="trim, chop and unquote by byte classes"),
]
PROPS["S13"] = [
    Eva("varexp", quick=dict(SN=4), thorough=dict(SN=6), shards=(5, 8), what="expansion against a reference expander; every byte as a name"),
    Eva("varexp-any", "varexp", quick=dict(SN=1, ANY=3), what="any bytes, any answers of the lookup: no fault, no leak, a valid string"),
]

PROPS["S15"] = [
    Eva("freadline", quick=dict(SN=3), thorough=dict(SN=5), shards=(2, 8), what="lines by line-break classes, every capacity, a read error at every place"),
]

PROPS["S14"] = [
    Eva("pack", shards=(5, 8), what="every descriptor, count form and byte order; buffers one byte short; arbitrary bytes, counts and format characters"),
]


PROPS["H02"] = [
    Eva("fastht", quick=dict(SALTS=1, STEP=2), thorough=dict(SALTS=3, STEP=1), shards=(5, 8), what="every operation against a map of keys, bag occupancy and counters, from small contents"),
    Eva("fastht-nosimd", "fastht", quick=dict(SALTS=1, STEP=4, NOSIMD=1), thorough=dict(STEP=2), shards=(2, 4), what="as fastht, the portable search"),
]


PROPS["H01"] = [
    Eva("hashtab", quick=dict(STEP=2, FSTEP=2), thorough=dict(STEP=1, FSTEP=1), shards=(6, 8), what="every operation and iterator against a map; counters and chains; every allocation failing"),
]
PROPS["H03"] = [
    Eva("hashtab-locks", "hashtab", quick=dict(STEP=4, FSTEP=2, ATSTEP=1, LOCKS=1), thorough=dict(STEP=1, FSTEP=1), shards=(8, 8), opts=["-eva-unroll-recursive-calls", "4"],
        what="lock typestate; shared fields indeterminate while the table is unlocked; another insertion before each acquisition"),
]


CALL = [r"valid_function\(b->(find|probe|remov|fini|desc)\)"]     # called through a pointer cast from another function type
PROPS["B01"] = [
    Eva("bloom", quick=dict(STEP=2), thorough=dict(STEP=1), shards=(6, 8), ignore=CALL, what="membership after every insertion, chosen and arbitrary hashes; counting as a multiset; growth"),
]
PROPS["B02"] = [
    Eva("xorfilter", quick=dict(SALTS=1), thorough=dict(SALTS=3), shards=(2, 6), what="every key a member, sizes around the allocation boundary; any key looked up"),
]
NOCMP = ["-eva-warn-undefined-pointer-comparison", "none"]      # result == MAP_FAILED
PROPS["M01"] = [
    Eva("marshal-bloom", "marshal", quick=dict(MODE=1), shards=(2, 2), ignore=CALL, opts=NOCMP, what="file replaced only when complete and synced; every system call failing; round trip"),
    Eva("marshal-xor", "marshal", quick=dict(MODE=1, XOR=1), shards=(2, 2), opts=NOCMP, what="as marshal-bloom, xor filters"),
]
PROPS["M02"] = [
    Eva("unmarshal-bloom", "marshal", quick=dict(MODE=2, CSTEP=15), thorough=dict(CSTEP=1), shards=(6, 8), ignore=CALL, opts=NOCMP, what="changed bytes, short files, and valid checksums over wrong sizes and offsets"),
    Eva("unmarshal-xor", "marshal", quick=dict(MODE=2, CSTEP=15, XOR=1), thorough=dict(CSTEP=1), shards=(3, 8), opts=NOCMP, what="as unmarshal-bloom, xor filters"),
]
PROPS["Q01"] = [
    Eva("spsc", quick=dict(HLEN=6), thorough=dict(HLEN=10, MAXN=6, MOVES=5), shards=(3, 8),
        what="one side at a time, the other acting before any atomic access; slots visible and writable only after the matching acquire; all histories against a FIFO"),
]
PROPS["Q02"] = [
    Eva("mpmc", quick=dict(HLEN=4, STEP=72, S4=3), thorough=dict(HLEN=6, STEP=5, S4=1), shards=(8, 8),
        what="one operation against any steps of any other threads; ticket, turn and slot ownership; waits end; all histories against a FIFO"),
]
PROPS["Q03"] = [
    Eva("ringbuf", quick=dict(STEP=60, CSTEP=5), thorough=dict(STEP=20, CSTEP=1), shards=(8, 8), opts=["-unsafe-arrays"],
        what="one operation of each kind against any steps of others, with old values of the index of the other side; order of completion; all bulk sizes at all places"),
]
PROPS["Q04"] = [
    Eva("syncq", quick=dict(PART=0, HLEN=5), thorough=dict(HLEN=8), shards=(1, 4),
        what="each operation under the lock invariant, with interrupted waits; all histories; failing initialisation; mutex lock manager"),
    Eva("work", "syncq", quick=dict(PART=1, ITEMS=2), thorough=dict(ITEMS=4), shards=(2, 4), opts=["-eva-unroll-recursive-calls", "4"],
        what="work manager: every item once, on the right thread, in order; error count; shutdown; every failing initialisation step"),
    Eva("job", "syncq", quick=dict(PART=2, ITEMS=4), thorough=dict(ITEMS=6), shards=(1, 2), opts=["-eva-unroll-recursive-calls", "4"],
        what="job manager: as work"),
]
PROPS["E01"] = [
    Bits("encdec", "encdec", what="every enc_*/dec_* of every width at every offset, every swap and host-order macro, for all values"),
]
PROPS["R01"] = [
    Bits("prng", "prng", what="step, period, injectivity and initialisation of every generator, for all states and seeds; frand's range"),
]
PROPS["R02"] = [
    Bits("arc4random", "arc4", what="ChaCha20 for every key; sequences of requests and forks against a model, for all entropy; rejection sampling for chosen bounds"),
]
PROPS["T01"] = [
    Bits("macros", "macros", what="each macro and template for every value and every power of two; unit conversions and clocks as linear functions"),
]
PROPS["K01"] = [
    Bits(k.replace(":u_", "-").replace(":", "-"), k, what="all keys of each length against an independent reference")
    for k in ("fasthash", "fnvhash", "hsieh", "murmur3", "siphash", "yorrike", "xxhash", "city:city_hash", "city:u_city_hash_128")
]


PROPS["F01"] = [
    Eva("rotate", quick=dict(NSAVED=2), thorough=dict(NSAVED=4), shards=(4, 8), what="directory model: every set of copies, every failing call, the invariant after every call; names at PATH_MAX; sizes around the limit"),
]
PROPS["F02"] = [
    Eva("mkdirhier", quick=dict(PLEN=5), thorough=dict(PLEN=7), shards=(3, 8), what="model of the directories along the path: every path of slashes and names, what exists, a failing call, another process creating"),
]
PROPS["P01"] = [
    Eva("readpass", quick=dict(ALL=0), thorough=dict(ALL=1), shards=(4, 8), what="lines typed, terminal or not, each failing call; terminal state, files, memory and the result on every path"),
]
PROPS["P02"] = [
    Eva("progbar", quick=dict(WSTEP=20), thorough=dict(WSTEP=1), shards=(4, 8), what="the text written for every width, total and count at its boundaries, parsed back"),
]

PROPS["G01"] = [
    Eva("getopt", quick=dict(N3=1, N4=0), thorough=dict(N3=16, N4=3), shards=(16, 64), what="every line of up to 2 words (thorough: 3, some of 4) from 24, six option strings, POSIX or not, three ways to restart, against a one-pass reference"),
]

PROPS["E02"] = [
    Eva("error", quick=dict(ALL=0), thorough=dict(ALL=1), shards=(16, 32), what="the text written for every message length around the buffer's, newlines in it, name, status and errno"),
]

PROPS["N01"] = [
    Eva("resolve", quick=dict(PSTEP=2, N3=0, STEP=1), thorough=dict(PSTEP=1, N3=4, STEP=2), shards=(16, 48), what="models of getifaddrs, getaddrinfo and sockets: every list of up to 2 (thorough: some of 3) addresses over 4 names and 3 families, each mask, each failing call"),
]

PROPS["F03"] = [
    Eva("fts", quick=dict(ALL=0), thorough=dict(ALL=1), shards=(48, 176), opts=["-unsafe-arrays"], ignore=[r"valid_function\(cmp\)"], what="a model of a file system and the walk stepped beside a reference: 10 sets of roots, 7 of modes, each act at each visit, each failing call and allocation"),
]
PROPS["D01"] = [
    Eva("daemon", what="a model of processes, sessions, directory and descriptors: each process's course, each failing call, each set of standard descriptors"),
]

PROPS["X01"] = [
    Hidden("hidden", what="in the optimised IR of every file, writable globals are per thread or listed; every reference to a process-wide libc function or stream is in a listed file"),
]


def setup():
    """Build what the checks share (they also build it on first use)."""

PROPS["Z01"] = [
    Eva("zbuf", quick=dict(ALL=0, KMAX=3), thorough=dict(ALL=1, KMAX=7), shards=(8, 24), what="a model of zlib and of the sink: inputs of up to 6 bytes in chunks of up to 5 through output buffers of 1..4, appetites of the sink, each failing call"),
]

PROPS["S16"] = [
    Eva("strmatch", cxx="strmatch.cpp", quick=dict(PLEN=4, PMID=6, PTHREE=3, TLEN=7, TLEN3=3, TALL=4, TSTEP=9), thorough=dict(PLEN=6, PMID=9, PTHREE=27, TLEN=10, TLEN3=5, TALL=6, TSTEP=7), shards=(8, 32), what="every pattern of up to 4 letters in texts of up to 7, of up to 6 letters after each prefix of themselves, patterns of 31..34, bytes of either sign, each failing allocation; four algorithms against trying every place"),
]
