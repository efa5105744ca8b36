"""Worker process: runs the cases of one shard of a check."""
import collections, hashlib, importlib, json, os, random, sys, traceback, warnings


class Violation(Exception):
    def __init__(self, key, msg, inp=None):
        super().__init__(msg)
        self.key, self.msg, self.inp = key, msg, inp


class Ctx:
    """What a case reports to."""

    def __init__(self, fd, prop, tier, seed):
        self.f = os.fdopen(fd, "wb", buffering=0)
        self.prop, self.tier, self.seed = prop, tier, seed
        self.ev = collections.Counter()
        self.hashes = set()
        self.smp = []
        self.n = 0
        self.case = None
        self.last = None
        self.nviol = 0

    def send(self, m):
        self.f.write((json.dumps(m) + "\n").encode())

    def start(self, i, desc=None):
        self.case = i
        self.send({"s": i, "d": desc})

    def describe(self, desc):
        """Announces the concrete input about to be executed (so that a crash is replayable)."""
        self.last = desc
        self.send({"s": self.case, "d": desc if isinstance(desc, str) else repr(desc)})

    def event(self, name, k=1):
        self.ev[name] += k

    def distinct(self, what):
        self.hashes.add(hashlib.blake2b((what if isinstance(what, str) else repr(what)).encode(), digest_size=7).hexdigest())

    def sample(self, what):
        if len(self.smp) < 3:
            self.smp.append(str(what)[:600])

    def violation(self, key, msg, inp=None):
        self.nviol += 1
        inp = inp if inp is not None else self.last
        self.send({"v": dict(case=self.case, key=key[:300], msg=msg[:6000], input=inp if isinstance(inp, str) else repr(inp))})

    def flush(self):
        self.send({"ev": dict(self.ev), "n": self.n, "h": sorted(self.hashes), "smp": self.smp})
        self.ev.clear()
        self.hashes = set()
        self.smp = []
        self.n = 0


def main():
    prop, tier, seed, shard, nshards, skip_to, fd = sys.argv[1:8]
    seed, shard, nshards, skip_to, fd = int(seed), int(shard), int(nshards), int(skip_to), int(fd)
    opts = dict(zip(sys.argv[8::2], sys.argv[9::2]))
    sys.setrecursionlimit(4000)
    warnings.simplefilter("ignore")
    ctx = Ctx(fd, prop, tier, seed)
    mod = importlib.import_module("wfv.checks." + prop.lower())
    chk = mod.Check(ctx, tier, seed)
    total = chk.total()
    if "--cases" in opts:
        total = min(total, int(opts["--cases"]))

    def run(i, inp=None):
        ctx.start(i)
        rng = random.Random("%d:%s:%d" % (seed, prop, i))
        try:
            if inp is not None:
                chk.replay(inp)
            else:
                chk.run(i, rng)
        except Violation as v:
            ctx.violation(v.key, v.msg, v.inp)
        except Exception as e:
            ctx.send({"err": "case %d (%s): %s" % (i, str(ctx.last)[:1500], traceback.format_exc()[-3000:])})
            ctx.nviol += 1
        ctx.n += 1
        if ctx.n >= 100:
            ctx.flush()

    if "--replay" in opts:
        r = json.load(open(opts["--replay"]))
        if hasattr(chk, "replay") and r.get("input") and not r.get("by_case"):
            run(r["case"], r["input"])
        else:
            run(r["case"])
    elif "--only" in opts:
        run(int(opts["--only"]))
    else:
        from .driver import known_findings
        for k, e in reversed(list(enumerate(known_findings(prop)))) if shard == 0 else ():
            if -1 - k < skip_to:
                continue
            ctx.start(-1 - k, e["id"])
            try:
                chk.known(e)
            except Violation:
                ctx.send({"known": e["id"]})
        i = shard
        while i < total:
            if i >= skip_to:
                run(i)
                if ctx.nviol >= int(os.environ.get("WFV_MAXVIOL", "6")):
                    break
            i += nshards
    ctx.flush()
    ctx.send({"end": 1})
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    from wfv.worker import main as run_main     # so that Violation is one class
    run_main()
