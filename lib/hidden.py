"""Hidden state and process-wide effects (X01): a whole-library query over LLVM IR.

Every source file and the inline functions of every header are compiled to IR
twice. In the optimised IR the only globals left writable are those some
function changes: each must be per thread or listed. In the unoptimised IR
(functions as written) every reference to a libc function or stream that acts on the
process as a whole must be in a function of a listed file.
"""
import glob, os, re, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import eva

REPO = eva.REPO
INC = ["-I%s/inc/linux" % REPO, "-I%s/inc" % REPO, "-I%s/src" % REPO, "-I%s/src/hashtable" % REPO,
       "-D__linux__=1", "-D__amd64__=1", "-D_GNU_SOURCE=1", "-w", "-g"]

# file -> names of its writable globals that are its documented interface ("*": all)
STATE = {
    "getopt_long.c": "*",               # optarg, optind, .. and the scan's position: getopt(3)
    "error.c": {"program_name", "error_print_progname"},        # set by the program
    "sysrand.cpp": "*",                 # one open device, made under the C++ initialisation guard
}
EFFECTS = {
    "ends the process": ("exit _exit _Exit quick_exit abort raise kill tgkill pthread_exit pthread_kill longjmp siglongjmp _ZSt9terminatev", {"error.c", "daemon.c"}),
    "changes the process": ("chdir fchdir umask setenv unsetenv putenv clearenv signal sigaction sigprocmask pthread_sigmask alarm setitimer setlocale "
                            "setrlimit setuid setgid seteuid setegid nice fork vfork system popen setsid setpgid dup2 daemon atexit srand srandom srand48 "
                            "execv execve execvp execl execlp prctl mlockall tzset", {"daemon.c", "fts.c"}),
    "uses hidden state of libc": ("strtok localtime gmtime ctime asctime rand random drand48 lrand48 mrand48 getpwnam getpwuid getgrnam getgrgid gethostbyname gethostbyaddr "
                                  "getservbyname getservbyport getprotobyname inet_ntoa tmpnam tempnam mktemp ttyname ptsname getlogin "
                                  "hcreate hsearch hdestroy strsignal l64a ecvt fcvt crypt", set()),
    "writes to a standard stream": ("stdout stderr printf vprintf puts putchar perror __printf_chk __vprintf_chk psignal _ZSt4cout _ZSt4cerr", {"error.c", "getopt_long.c", "readpass.c"}),
    "reads standard input": ("stdin getchar gets scanf __isoc99_scanf __isoc23_scanf _ZSt3cin", {"readpass.c"}),
}
SKIP = re.compile(r"/(win32|darwin_\w*|openbsd_\w*|bitvect_bug|duffs|example_epoll)\b")


def sources():
    out = []
    for pat in ("src/*.c", "src/*/*.c", "src/*.cpp", "src/*/*.cpp"):
        out += sorted(glob.glob(os.path.join(REPO, pat)))
    return [s for s in out if not SKIP.search(s[len(REPO):])]


def headers():
    out = []
    for pat in ("inc/*.h", "inc/utils/*.h", "inc/fast/*.h"):
        out += sorted(glob.glob(os.path.join(REPO, pat)))
    return out


PRE = "#include <stddef.h>\n#include <stdint.h>\n#include <stdio.h>\n#include <sys/types.h>\n#include <sys/stat.h>\n"


def ir(src, opt, d):
    """IR text of one source or header, or None"""
    tries = []
    if src.endswith(".h"):
        for lang, ext in (("c", "c"), ("c++", "cpp")):
            p = os.path.join(d, "%s.%s.%s" % (os.path.relpath(src, REPO).replace("/", "_"), opt, ext))
            open(p, "w").write((PRE if lang == "c" else PRE + "#include <utility>\n#include <string>\n") + '#include "%s"\n' % src)
            tries.append(p)
    else:
        tries = [src]
    for p in tries:
        cc = ["clang++", "-std=c++17"] if p.endswith(".cpp") else ["clang", "-std=gnu11"]
        r = subprocess.run(cc + INC + ["-" + opt, "-fno-discard-value-names", "-emit-llvm", "-S", "-o", "-"] +
                           (["-femit-all-decls"] if src.endswith(".h") else []) + [p], capture_output=True, text=True, cwd=os.path.dirname(src))
        if r.returncode == 0:
            return r.stdout
    return None


META = re.compile(r'^!(\d+) = (?:distinct )?!(\w+)\((.*)\)$', re.M)


class Dbg:
    def __init__(self, text):
        self.m = {k: (kind, body) for k, kind, body in META.findall(text)}

    def field(self, n, f):
        kind, body = self.m.get(n, ("", ""))
        m = re.search(r'\b%s: (?:"([^"]*)"|!?([\w.]+))' % f, body)
        return (m.group(1) if m.group(1) is not None else m.group(2)) if m else None

    def file(self, n):
        f = self.field(n, "file")
        return self.field(f, "filename") if f else None

    def line(self, n):
        x = self.field(n, "line")
        return int(x) if x and x.isdigit() else 0


def in_repo(name, d, src):
    """the file of /repo a debug-info file name stands for, or None"""
    if not name:
        return src
    p = name if os.path.isabs(name) else os.path.normpath(os.path.join(os.path.dirname(src), name))
    if p.startswith(d):
        return src
    return p if p.startswith(REPO + "/") else None


GLOBAL = re.compile(r'^@("?[^\s"]+"?) = ((?:[\w()]+ )*)global (.*)$', re.M)


def state(text, src, d):
    """writable globals defined in this IR"""
    g = Dbg(text)
    for m in GLOBAL.finditer(text):
        name, attrs, rest = m.group(1), m.group(2).split(), m.group(3)
        if "external" in attrs or any(a.startswith("thread_local") for a in attrs) or name.startswith(("llvm.", "_ZGV")):
            continue
        nm, f, l = name, src, 0
        x = re.search(r'!dbg !(\d+)', rest)
        if x:
            v = g.field(x.group(1), "var") or x.group(1)
            nm = g.field(v, "name") or name
            f = in_repo(g.file(v), d, src)
            l = g.line(v)
        elif src.endswith(".h"):
            continue
        if f:
            yield nm, f, l


def effects(text, src, d):
    g = Dbg(text)
    names = {}
    for kind, (l, files) in EFFECTS.items():
        for n in l.split():
            names[n] = kind
    for m in re.finditer(r'^define [^\n]*?@"?([\w.$]+)"?\([^\n]*?(?:!dbg !(\d+) )?\{\n(.*?)^\}', text, re.M | re.S):
        fn, sp, body = m.groups()
        f = in_repo(g.file(sp), d, src) if sp else None      # none: made by the compiler
        if not f:
            continue
        for r in re.finditer(r'^.*@(\w+)\b.*$', body, re.M):
            for n in re.findall(r'@(\w+)\b', r.group(0)):
                if n in names:
                    x = re.search(r'!dbg !(\d+)', r.group(0))
                    yield fn, f, g.line(x.group(1)) if x else 0, n, names[n]


class Hidden:
    engine = "clang 18 IR (-O2 and -O0) of every source and header; lib/hidden.py"

    def __init__(self, name, what):
        self.name, self.what = name, what

    def run(self, tier):
        t0 = time.time()
        out = {"name": self.name, "what": self.what, "violations": [], "errors": [], "bounds": {}}
        viol = out["violations"]
        skipped, nfn, nsites, nglob = [], 0, 0, 0
        with tempfile.TemporaryDirectory(prefix="vfir.") as d:
            files = sources() + headers()
            with ThreadPoolExecutor(max_workers=8) as ex:
                slow = list(ex.map(lambda s: ir(s, "O0", d), files))
                fast = list(ex.map(lambda s: ir(s, "O2", d), files))
            seen = set()

            def add(f, line, fn, rule, expr):
                k = (f, line, rule, expr)
                if k in seen:
                    return
                seen.add(k)
                try:
                    srcline = open(f).read().split("\n")[line - 1].strip() if line else ""
                except (OSError, IndexError):
                    srcline = ""
                viol.append({"obligation": self.name, "file": os.path.relpath(f, REPO), "line": line, "function": fn, "rule": rule,
                             "status": "Found", "expr": expr, "source": srcline})

            for s, a, b in zip(files, slow, fast):
                if a is None or b is None:
                    skipped.append(os.path.relpath(s, REPO))
                    continue
                if re.search(r'^define [^\n]*@main\(', a, re.M):
                    continue
                nfn += len(re.findall(r'^define ', a, re.M))
                for nm, f, l in state(b, s, d):
                    nglob += 1
                    ok = STATE.get(os.path.basename(f), ())
                    if ok == "*" or nm in ok:
                        continue
                    add(f, l, nm, "hidden mutable state", "global or static variable '%s' is changed at run time and shared by all threads and callers" % nm)
                for fn, f, l, n, kind in effects(a, s, d):
                    nsites += 1
                    if os.path.basename(f) in EFFECTS[kind][1]:
                        continue
                    add(f, l, fn, "process-wide effect", "%s: %s" % (kind, n))
        n = len(files) - len(skipped)
        if n < 40 or nsites < 5:
            out["errors"].append("%s: only %d files and %d sites analysed" % (self.name, n, nsites))
        out.update(functions_analysed=nfn, sites=nsites + nglob, statements_reached=0, statements_total=0, not_analysed=skipped,
                   obligations_valid=nfn - len({v["function"] for v in viol}),
                   summary="%d files (%d do not compile here), %d functions, %d writable globals, %d process-wide references" % (n, len(skipped), nfn, nglob, nsites),
                   wall=round(time.time() - t0, 2))
        return out
