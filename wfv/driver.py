"""Runs the cases of a check in worker processes, attributes crashes to cases, decides, writes evidence.

Verdicts per case: ok, violation (key, message), inconclusive (watchdog).  A worker announces each case
before running it, so that a sanitizer report, an abort or a signal is attributed to that case.
"""
import argparse, collections, hashlib, importlib, json, os, pathlib, queue, re, subprocess, sys, threading, time

from . import build as B

VERIF = B.VERIF
KNOWN = VERIF / "known_findings.txt"


def known_findings(prop):
    """The open findings of a property: lines that are JSON objects ('fixed: ...' lines suppress nothing)."""
    out = []
    if KNOWN.exists():
        for l in KNOWN.read_text().splitlines():
            if l.startswith("{"):
                e = json.loads(l)
                if e["property"] == prop:
                    out.append(e)
    return out


def crash_signature(rc, err):
    """A short stable description of how a worker died."""
    m = re.search(r"(\S+?):(\d+):\d+: runtime error: (.*)", err)
    if m:
        return "undefined behaviour: " + re.sub(r"-?\d[\d.e+]*", "N", m.group(3))[:90] + " at " + m.group(1).rsplit("/", 1)[-1]
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", err)
    if m:
        loc = re.findall(r"#\d+ 0x\w+ in (.*?) /repo/components/(\S+?):\d+", err)
        return "AddressSanitizer: " + m.group(1) + (" in " + loc[0][1].rsplit("/", 1)[-1] if loc else "")
    m = re.search(r"terminate called .*?(?:instance of '([^']*)')", err, re.S)
    if m:
        return "std::terminate: " + m.group(1)
    if "terminate called" in err:
        return "std::terminate"
    m = re.search(r"ThreadSanitizer: (.*?) \(", err)
    if m:
        return "ThreadSanitizer: " + m.group(1)
    return "died with status %s" % rc


class Worker:
    def __init__(self, prop, tier, seed, shard, nshards, env, skip_to, q, extra):
        self.shard, self.q = shard, q
        r, w = os.pipe()
        self.errf = B.BUILD / "log" / f"{prop}-{os.getpid()}-{shard}.err"
        self.errf.parent.mkdir(parents=True, exist_ok=True)
        cmd = [str(B.PY), "-X", "faulthandler=0", "-u", "-m", "wfv.worker", prop, tier, str(seed), str(shard), str(nshards),
               str(skip_to), str(w)] + extra
        cmd = [c for c in cmd if c not in ("-X", "faulthandler=0")]
        self.p = subprocess.Popen(cmd, env=env, pass_fds=(w,), stdout=subprocess.DEVNULL, stderr=open(self.errf, "wb"),
                                  stdin=subprocess.DEVNULL, cwd=str(VERIF), start_new_session=True)
        os.close(w)
        self.current = None
        self.current_desc = None
        self.since = time.time()
        self.done = False
        self.timed_out = False
        self.t = threading.Thread(target=self.read, args=(r,), daemon=True)
        self.t.start()

    def read(self, r):
        with os.fdopen(r, "rb") as f:
            for line in f:
                try:
                    m = json.loads(line)
                except ValueError:
                    continue
                if "s" in m:
                    self.current, self.current_desc, self.since = m["s"], m.get("d"), time.time()
                elif "end" in m:
                    self.done = True
                else:
                    self.q.put((self, m))
        self.p.wait()
        self.q.put((self, None))

    def stderr(self):
        try:
            return self.errf.read_bytes()[-60000:].decode(errors="replace")
        except OSError:
            return ""


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--workers", type=int, default=os.cpu_count() or 8)
    ap.add_argument("--only", type=int)
    ap.add_argument("--tier")
    ap.add_argument("--seed", type=int)
    a = ap.parse_args(argv)
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    mod = importlib.import_module("wfv.checks." + a.prop.lower())
    if hasattr(mod, "main"):
        return mod.main(a, tier, seed)
    try:
        bdir = B.build(getattr(mod, "VARIANT", "asan"))
        if hasattr(mod, "prepare"):
            mod.prepare(bdir, tier)
    except B.BuildError as e:
        print("ERROR build: %s" % e, file=sys.stderr)
        return 3
    env = B.worker_env(bdir)
    env["VERIF_TIER"] = tier
    known = known_findings(a.prop)
    st = run_cases(a, mod, tier, seed, env)
    return conclude(a.prop, mod, tier, seed, st, known, t0, a)


class State:
    def __init__(self):
        self.events = collections.Counter()
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.inconclusive = []
        self.evals = 0
        self.errors = []
        self.seen_known = set()


def run_cases(a, mod, tier, seed, env):
    st = State()
    q = queue.Queue()
    n = a.workers if a.only is None and not a.replay else 1
    extra = []
    if a.replay:
        extra = ["--replay", a.replay]
    elif a.only is not None:
        extra = ["--only", str(a.only)]
    elif a.cases:
        extra = ["--cases", str(a.cases)]
    watchdog = getattr(mod, "WATCHDOG", 120)
    workers = {}
    restarts = collections.Counter()
    for s in range(n):
        workers[s] = Worker(a.prop, tier, seed, s, n, env, -1000, q, extra)
    while workers:
        try:
            w, m = q.get(timeout=2)
        except queue.Empty:
            for w in list(workers.values()):
                if time.time() - w.since > watchdog and not w.timed_out:
                    w.timed_out = True
                    try:
                        os.killpg(w.p.pid, 9)
                    except OSError:
                        pass
            continue
        if m is not None:
            if "ev" in m:
                st.events.update(m["ev"])
                st.evals += m["n"]
                st.distinct.update(m["h"])
                if len(st.samples) < 40:
                    st.samples += m["smp"]
            elif "v" in m:
                st.violations.append(m["v"])
            elif "known" in m:
                st.seen_known.add(m["known"])
            elif "err" in m:
                st.errors.append(m["err"])
            continue
        # worker ended
        s = w.shard
        err = w.stderr()
        if w.done:
            del workers[s]
            _rm(w.errf)
            continue
        if w.current is not None and w.current < 0 and not w.timed_out:
            # the replay of a recorded finding killed the process: that is the finding
            st.seen_known.add(known_findings(a.prop)[-1 - w.current]["id"])
            workers[s] = Worker(a.prop, tier, seed, s, n, env, w.current + 1, q, extra)
            continue
        if w.current is None:
            st.errors.append("worker %d died before its first case (status %s)\n%s" % (s, w.p.returncode, err[-3000:]))
            del workers[s]
            continue
        if w.timed_out:
            st.inconclusive.append(dict(case=w.current, desc=w.current_desc, why="watchdog of %d s" % watchdog))
        elif w.p.returncode == -9:
            st.inconclusive.append(dict(case=w.current, desc=w.current_desc, why="killed (memory?)"))
        elif getattr(mod, "ALLOW_HUGE", False) and re.search("exceeds maximum supported size|max_allocation_size_mb|allocator is out of memory|allocator is trying to allocate", err):
            st.events["huge allocations refused"] += 1
        else:
            sig = crash_signature(w.p.returncode, err)
            st.violations.append(dict(case=w.current, key="crash: " + sig, msg="process died: %s\n%s" % (sig, err[:6000]),
                                      input=w.current_desc))
        _rm(w.errf)
        restarts[s] += 1
        if a.replay or a.only is not None or restarts[s] > getattr(mod, "MAX_RESTARTS", 12):
            del workers[s]
            continue
        workers[s] = Worker(a.prop, tier, seed, s, n, env, w.current + 1, q, extra)
    return st


def _rm(p):
    try:
        os.unlink(p)
    except OSError:
        pass


def conclude(prop, mod, tier, seed, st, known, t0, a=None):
    openk, hit = known, st.seen_known
    fresh = []
    for v in st.violations:
        for k in openk:
            if k.get("key") and k["key"] == v["key"]:
                hit.add(k["id"])
                break
        else:
            fresh.append(v)
    replays = B.BUILD / "replay"
    replays.mkdir(parents=True, exist_ok=True)
    shown = set()
    for v in fresh:
        k = v["key"]
        if k in shown:
            continue
        shown.add(k)
        p = replays / ("%s-%s.json" % (prop, hashlib.sha1(k.encode()).hexdigest()[:10]))
        p.write_text(json.dumps(dict(property=prop, tier=tier, seed=seed, **v), indent=1))
        if len(shown) <= int(os.environ.get("WFV_SHOW", "12")):
            print("VIOLATION property=%s replay=%s" % (prop, p))
            print("  case %s: %s\n  input: %s" % (v.get("case"), v["msg"][:1500], str(v.get("input"))[:1500]))
    for k in openk:
        if k["id"] in hit:
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, k["id"], k["what"]))
        elif not (a and (a.replay or a.only is not None)):
            print("recorded finding %s did not fail in this run: property=%s %s" % (k["id"], prop, k["what"]))
    for e in st.errors[:5]:
        print("ERROR harness: " + e[:4000], file=sys.stderr)
    for e in st.inconclusive[:10]:
        print("inconclusive: case %s %s (%s)" % (e["case"], e["why"], str(e["desc"])[:300]))
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "exploration"),
              coverage=dict(evaluations=st.evals, distinct_nontrivial=len(st.distinct), rule=mod.RULE,
                            samples=st.samples[:12], observed={k: v for k, v in sorted(st.events.items())},
                            inconclusive=len(st.inconclusive), exhaustive=False),
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(wall, 2), violations=len(fresh))
    if a is None or not (a.replay or a.only is not None):
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1) + "\n")
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations (%d kinds), %d inconclusive, %.1f s" %
          (prop, tier, seed, st.evals, len(st.distinct), len(fresh), len(shown), len(st.inconclusive), wall))
    for k, v in sorted(st.events.items()):
        print("   %-44s %d" % (k, v))
    if fresh:
        return 1
    if st.errors:
        return 3
    need = getattr(mod, "MIN_EVENTS", {})
    if not (a and (a.replay or a.only is not None or a.cases)):
        for k, m in need.items():
            if st.events.get(k, 0) < m:
                print("ERROR: only %d observations of '%s' (at least %d expected)" % (st.events.get(k, 0), k, m))
                return 4
        if st.evals == 0 or len(st.inconclusive) > max(3, st.evals // 50):
            return 5
    return 0
