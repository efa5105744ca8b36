"""C11: the same description gives byte-identical results in every process, layout, history and thread.

Every case is a batch of generated programs (expressions, their transformations, sorted orders, matrices, geometry,
functions with custom types and external calls through every code generator and optimisation setting).  It is executed
in several processes that differ in hash seed, address-space layout, contents of fresh memory, allocator settings, what
was built before and in between, the order of the programs, whether equal subexpressions are shared or rebuilt, and the
threads that build them; the recorded transcripts must be byte-identical.
"""
import json, os, subprocess

from .. import build as B
from ..worker import Violation
from .. import driver as D

VARIANT = "plain"
RULE = "distinct batches of programs whose complete transcripts were compared over all process variants"
MIN_EVENTS = {"transcript lines compared": 40000, "processes": 400, "threads": 400, "code texts compared": 8000}
ASSUMPTIONS = ["running numbers of unique symbols depend on the history by design; texts containing them are compared as multisets of words"]
WATCHDOG = 240
NVAR = {"quick": 6, "thorough": 12}


class Check:
    known = None

    def __init__(self, ctx, tier, seed):
        self.ctx, self.tier, self.seed = ctx, tier, seed

    def total(self):
        return 150 if self.tier == "quick" else 3500

    def child(self, base, v, salt):
        import random
        r = random.Random("%s/%s/%s" % (base, v, salt))
        e = {k: x for k, x in os.environ.items() if k not in ("LD_PRELOAD", "ASAN_OPTIONS", "UBSAN_OPTIONS")}
        e["PYTHONHASHSEED"] = str(r.randint(0, 10 ** 6)) if v else "0"
        e["MALLOC_PERTURB_"] = str(r.choice([0, 1, 85, 170, 255, 129])) if v else "0"
        if v and r.random() < 0.4: e["PYTHONMALLOC"] = "malloc"
        if v and r.random() < 0.3: e["MALLOC_ARENA_MAX"] = "1"
        tun = []
        if v and r.random() < 0.3: tun.append("glibc.malloc.tcache_count=%d" % r.choice([0, 1, 200]))
        if v and r.random() < 0.3: tun.append("glibc.malloc.mmap_threshold=%d" % r.choice([4096, 65536]))
        if tun: e["GLIBC_TUNABLES"] = ":".join(tun)
        e["WFV_PAD"] = "x" * r.randint(0, 9000)
        try:
            p = subprocess.run([str(B.PY), "-m", "wfv.c11child", base, str(v)], capture_output=True, text=True, env=e, cwd=str(B.VERIF), timeout=200, errors="replace")
        except subprocess.TimeoutExpired:
            return None
        if p.returncode < 0:
            raise Violation("crash: " + D.crash_signature(p.returncode, p.stderr), "variant %d died with status %d\n%s" % (v, p.returncode, p.stderr[-3000:]), repr((base, v)))
        if p.returncode or not p.stdout.strip():
            raise RuntimeError("child %s variant %d: status %s\n%s" % (base, v, p.returncode, p.stderr[-3000:]))
        self.ctx.event("processes")
        if v in (3, 4): self.ctx.event("threads", 4)
        return json.loads(p.stdout.splitlines()[-1])

    def run(self, i, rng):
        base = "%d-%d" % (rng.randrange(10 ** 9), i)
        self.ctx.describe(repr((base, None)))
        self.do(base, "0")

    def replay(self, inp):
        base, _ = eval(inp)
        for salt in "0123":
            self.do(base, salt)

    def do(self, base, salt):
        c = self.ctx
        ref = self.child(base, 0, salt)
        if ref is None:
            c.event("timeouts")
            return
        for v in range(1, NVAR[self.tier]):
            o = self.child(base, v, salt)
            if o is None:
                c.event("timeouts")
                continue
            for k, t in list(o["res"].items()) + [(str(k), t) for k, t in o["twice"]]:
                want = ref["res"][k]
                if t != want:
                    d = [(x, y) for x, y in zip(want, t) if x != y][:1]
                    label = d[0][0][0] if d else "length"
                    a, b = (d[0][0][1], d[0][1][1]) if d else (len(want), len(t))
                    if d:
                        n = next((j for j, (p, q) in enumerate(zip(a, b)) if p != q), min(len(a), len(b)))
                        a, b = a[max(0, n - 300):n + 700], b[max(0, n - 300):n + 700]
                    raise Violation("transcripts differ: " + label, "program %s, process variant %d: '%s' differs\n--- first process\n%s\n--- variant %d\n%s" % (k, v, label, a, v, b), repr((base, v)))
                c.event("transcript lines compared", len(t))
                c.event("code texts compared", sum(x[0] in ("cpp", "eigen", "rust", "numpy", "jax", "torch") for x in t))
                c.event("bytes compared", sum(len(x[1]) for x in t))
        for t in ref["res"].values():
            for l, x in t:
                c.event("lines " + l)
        c.distinct(json.dumps(ref["res"], sort_keys=True))
        if len(c.smp) < 3: c.sample("%s: %s" % (base, [(l, x[:80]) for t in list(ref["res"].values())[:1] for l, x in t[:4]]))
