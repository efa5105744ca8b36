"""C13: threads using the library concurrently do not race and get single-threaded results.

Runs generated programs (build, simplify, differentiate, substitute, collect, cse, matrices, quaternions, print, generate
code; on shared and separate objects) in several threads of one process of a ThreadSanitizer build of wf_core, each
process starting cold so that the function-local statics are initialised under contention.  Monitors: TSan's
happens-before race detector, and the texts every operation produced against a single-threaded run of the same programs.
Unique symbols: concurrent creation, all indices distinct.
"""
import os, pathlib, re, subprocess

from .. import build as B
from ..worker import Violation
from .. import driver as D

VARIANT = "tsan"
RULE = "distinct (program seed, completion order of operations over threads) pairs executed in par mode plus distinct interleavings of unique-symbol creation"
MIN_EVENTS = {"operations compared": 20000, "thread switches between operations": 5000, "unique symbols": 200000,
              "parallel runs": 60}
ASSUMPTIONS = ["interleavings are those the scheduler and injected yields produced; TSan additionally detects races by happens-before on orders not seen",
               "libstdc++'s ctype::narrow cache race is suppressed (harness/tsan.supp)"]
WATCHDOG = 300
HARNESS = B.VERIF / "harness/c13.cc"
BIN = B.BUILD / "tsan/c13"


def prepare(bdir, tier):
    t = (bdir / "build.ninja").read_text()
    m = re.search(r"build components/core/CMakeFiles/wf_core\.dir/\S*cse\.cc\.o:.*?\n((?:  .*\n)+)", t)
    d = dict(l.strip().split(" = ", 1) for l in m.group(1).splitlines() if " = " in l)
    libs = sorted(set(re.findall(r"/\S+libabsl_\S+?\.so[.\d]*", t)))
    flags = [f for f in d.get("FLAGS", "").split() if f not in ("-Werror", "-pedantic", "-Wall", "-Wextra")]
    cmd = (["clang++"] + d.get("DEFINES", "").split() + flags + d.get("INCLUDES", "").split() + ["-w", str(HARNESS), str(bdir / "components/core/libwf_core.a")] +
           libs + ["-lpthread", "-o", str(BIN)])
    r = subprocess.run(cmd, capture_output=True, text=True, env=B._env())
    if r.returncode:
        raise B.BuildError("harness c13 does not compile:\n" + r.stderr[-3000:])


class Check:
    def __init__(self, ctx, tier, seed):
        self.ctx, self.tier = ctx, tier

    def total(self):
        return 400 if self.tier == "quick" else 8000

    def exe(self, args):
        env = {k: v for k, v in os.environ.items() if k not in ("LD_PRELOAD", "PYTHONPATH")}
        env["TSAN_OPTIONS"] = "halt_on_error=0:exitcode=66:history_size=3:suppressions=%s" % (B.VERIF / "harness/tsan.supp")
        try:
            r = subprocess.run([str(BIN)] + [str(a) for a in args], capture_output=True, text=True, env=env, timeout=240, errors="replace")
        except subprocess.TimeoutExpired:
            raise Violation("hang", "the thread harness did not finish in 240 s", repr(args))
        return r

    def run(self, i, rng):
        s = rng.randrange(1, 10**9)
        if i % 10 == 9:
            args = ("unique", s, rng.choice([2, 4, 8, 16]), 6000 if self.tier == "quick" else 20000)
        else:
            n = rng.choice([2, 4, 6, 8])
            ph = rng.choice([1, 2, 3, 4])
            args = ("run", s, n, ph, rng.choice([10, 25, 40]))
        self.do(args)

    def replay(self, inp):
        args = eval(inp)
        for _ in range(5):
            self.do(args)

    known = None

    def races(self, r, args):
        if "ThreadSanitizer" in r.stderr:
            m = re.search(r"WARNING: ThreadSanitizer: (.*?) \(pid", r.stderr) or re.search(r"ERROR: ThreadSanitizer: (\S+)", r.stderr)
            loc = re.findall(r"/repo/components/(\S+?):\d+", r.stderr)
            key = "ThreadSanitizer: %s in %s" % (m.group(1) if m else "report", loc[0].rsplit("/", 1)[-1] if loc else "?")
            raise Violation(key, key + "\n" + r.stderr[:5000], repr(args))

    def do(self, args):
        c = self.ctx
        c.describe(args)
        if args[0] == "unique":
            r = self.exe(args)
            self.races(r, args)
            m = re.search(r"unique total=(\d+) duplicates=(\d+) switches=(\d+)", r.stdout)
            if r.returncode or not m:
                raise Violation("crash: " + D.crash_signature(r.returncode, r.stderr), r.stdout[-500:] + r.stderr[-3000:], repr(args))
            total, dup, sw = map(int, m.groups())
            c.event("unique symbols", total)
            c.event("unique: owner changes", sw)
            c.distinct(("u", args, sw))
            if dup:
                raise Violation("duplicate unique symbols", "%d of %d unique symbols created by %d threads share an index with another" % (dup, total, args[2]), repr(args))
            return
        par = self.exe(args + ("par",))
        self.races(par, args)
        seq = self.exe(args + ("seq",))
        self.races(seq, args)
        for r, n in ((par, "par"), (seq, "seq")):
            if r.returncode or "done" not in r.stdout:
                raise Violation("crash: " + D.crash_signature(r.returncode, r.stderr), "%s: status %s\n%s" % (n, r.returncode, r.stderr[-4000:]), repr(args))
        a, b = par.stdout.splitlines(), seq.stdout.splitlines()
        m = re.search(r"switches=(\d+) order=(\w+)", a[-1])
        c.event("parallel runs")
        c.event("cold starts with identical first phase", int(args[1] % 2 == 0))
        c.event("operations compared", len(a) - 1)
        c.event("operations that raised", sum(l.endswith(" 1") for l in a))
        c.event("thread switches between operations", int(m.group(1)))
        c.distinct((args, m.group(2)))
        for l in a[:-1]:
            c.event("op " + l.split()[3])
        if len(c.smp) < 3:
            c.sample("%s: %d operations, %s" % (args, len(a) - 1, a[-1]))
        if a[:-1] != b[:-1]:
            diff = [(x, y) for x, y in zip(a, b) if x != y][:3]
            key = "thread result differs from single-threaded: op " + (diff[0][0].split()[3] if diff else "count")
            raise Violation(key, "%s\nparallel / single: %s" % (key, diff), repr(args))
