"""Executes generated Python functions (a server for NumPy/JAX/PyTorch code, also used in-process for NumPy).

A request is a dict: name, code, target ('numpy'|'jax'|'torch'), width (32|64), args, outputs (kind, name, type),
structs, exts, points (flattened inputs), want (set of requested optional outputs per point), outargs (bool), mode.
The answer: per point a list of flattened outputs (None: absent) or an error string.
"""
import json, os, sys, types as _types


def flat(t):
    if t[0] in "fi": return 1
    if t[0] == "m": return t[1] * t[2]
    return sum(flat(x) for _, x in t[2])


def flat_types(t):
    if t[0] in "fi": return t[0]
    if t[0] == "m": return "f" * (t[1] * t[2])
    return "".join(flat_types(x) for _, x in t[2])


def ext_weights(name, i, j):
    h = sum((k + 1) * ord(c) for k, c in enumerate(name))
    return ((3 * i + 5 * j + h) % 7 - 3) / 4.0


_COUNTED = []


def counted_array():
    """An array that counts the assignments of each element."""
    if not _COUNTED:
        import numpy as np

        class Counted(np.ndarray):
            def __array_finalize__(self, obj):
                self.log = getattr(obj, "log", None)

            def __setitem__(self, key, value):
                if self.log is not None and self.size == len(self.log):
                    for k in np.atleast_1d(np.arange(self.size).reshape(self.shape)[key]).reshape(-1): self.log[int(k)] += 1
                super().__setitem__(key, value)
        _COUNTED.append(Counted)
    return _COUNTED[0]


class Host:
    def __init__(self, target, width):
        self.target, self.width = target, width
        if target == "numpy":
            import numpy as np
            self.np = np
            self.ns = {"np": np}
            self.dt = np.float64 if width == 64 else np.float32
        elif target == "jax":
            import jax
            jax.config.update("jax_enable_x64", width == 64)
            import jax.numpy as jnp
            import numpy as np
            self.jax, self.np = jax, np
            self.ns = {"jnp": jnp}
            self.lib = jnp
            self.dt = np.float64 if width == 64 else np.float32
        else:
            import torch as th
            import numpy as np
            th.set_num_threads(1)
            self.np = np
            self.ns = {"th": th}
            self.lib = th
            self.dt = th.float64 if width == 64 else th.float32

    def array(self, vals, r, c, shape=None):
        np = self.np
        if self.target == "numpy":
            a = np.array(vals, dtype=self.dt).reshape(shape or (r, c))
        elif self.target == "jax":
            a = self.lib.array(np.array(vals, dtype=np.float64), dtype=self.dt).reshape(shape or (r, c))
        else:
            a = self.lib.tensor(list(vals), dtype=self.dt).reshape(shape or (r, c))
        return a

    def scalar(self, v, kind, nested=False):
        if kind == "i":
            return int(v) if self.target != "torch" else self.lib.tensor(int(v))
        if self.target == "torch":
            return self.lib.tensor(float(v), dtype=self.dt)
        return self.dt(v) if nested else float(v)

    def obj(self, t, vals, classes, nested=False):
        if t[0] in "fi":
            return self.scalar(vals[0], t[0], nested)
        if t[0] == "m":
            # vectors are also accepted flat when they are arguments
            shape = None
            if not nested and t[2] == 1 and self.vecflat:
                shape = (t[1],)
            return self.array(vals, t[1], t[2], shape)
        kw, k = {}, 0
        for f, x in t[2]:
            m = flat(x)
            kw[f] = self.obj(x, vals[k:k + m], classes, True)
            k += m
        return classes[t[1]](**kw)

    def unobj(self, t, v):
        if t[0] in "fi":
            a = self.np.asarray(v)
            if a.shape not in ((), (1, 1)[:0]):
                raise ValueError("scalar output has shape %s" % (a.shape,))
            return [float(a)]
        if t[0] == "m":
            a = self.np.asarray(v)
            if tuple(a.shape) != (t[1], t[2]):
                raise ValueError("output of shape %s instead of %s" % (a.shape, (t[1], t[2])))
            self.dtypes.add(str(a.dtype))
            return [float(x) for x in a.reshape(-1)]
        return [y for f, x in t[2] for y in self.unobj(x, getattr(v, f))]

    vecflat = False

    def flat_values(self, t, v):
        """Flattened elements of an argument of an external function, without leaving the framework."""
        if t[0] in "fi": return [v]
        if t[0] == "m":
            if tuple(v.shape) != (t[1], t[2]):
                raise ValueError("external function got a matrix of shape %s instead of %s" % (v.shape, (t[1], t[2])))
            return [v[r, c] for r in range(t[1]) for c in range(t[2])]
        return [y for f, x in t[2] for y in self.flat_values(x, getattr(v, f))]

    def make(self, t, vals, classes):
        if t[0] in "fi":
            if self.target == "numpy": return self.dt(vals[0])
            return self.lib.as_tensor(vals[0]) if self.target == "torch" else vals[0]
        if t[0] == "m":
            if self.target == "numpy": return self.np.array(vals, dtype=self.dt).reshape(t[1], t[2])
            if self.target == "jax": return self.lib.array(vals).reshape(t[1], t[2])
            return self.lib.stack([self.lib.as_tensor(v, dtype=self.dt) for v in vals]).reshape(t[1], t[2])
        kw, k = {}, 0
        for f, x in t[2]:
            m = flat(x)
            kw[f] = self.make(x, vals[k:k + m], classes)
            k += m
        return classes[t[1]](**kw)

    def run(self, q, hook=None):
        self.dtypes = set()
        classes = {}

        def klass(t):
            for f, x in t[2]:
                if x[0] == "s": klass(x)
            if t[1] not in classes:
                names = [f for f, _ in t[2]]

                def init(self, **kw):
                    if sorted(kw) != sorted(names):
                        raise TypeError("constructed with fields %s" % sorted(kw))
                    self.__dict__.update(kw)
                classes[t[1]] = type(t[1], (), {"__init__": init, "__slots__": ("__dict__",)})
        for _, t in q["args"]:
            if t[0] == "s": klass(t)
        for o in q["outputs"]:
            if o[2][0] == "s": klass(o[2])
        for e in q["exts"]:
            for _, t in list(e[1]) + [("", e[2])]:
                if t[0] == "s": klass(t)
        for t in q.get("structs", ()):
            klass(t)
        ns = dict(self.ns)
        ns.update(classes)
        calls = []

        def ext(e):
            def call(*a):
                if len(a) != len(e[1]):
                    raise TypeError("%s called with %d arguments" % (e[0], len(a)))
                v = [x for (_, t), y in zip(e[1], a) for x in self.flat_values(t, y)]
                if self.target == "numpy":
                    calls.append([e[0], [float(x) for x in v]])
                out = []
                for i, y in enumerate(flat_types(e[2])):
                    if y == "i":
                        out.append(7 * i + 3)
                        continue
                    s = 0.125 * (i + 1)
                    for j, x in enumerate(v):
                        s = s + ext_weights(e[0], i, j) * x
                    out.append(s)
                return self.make(e[2], out, classes)
            return call
        for e in q["exts"]:
            ns[e[0]] = ext(e)
        if hook:
            ns.update(hook)
        try:
            exec(q["code"] if not isinstance(q["code"], str) else compile(q["code"], "<generated>", "exec"), ns)
        except Exception as ex:
            return ["%s: %s" % (type(ex).__name__, ex)] * len(q["points"])
        fn = ns[q["name"]]
        order = [o for o in q["outputs"] if o[0] == "ret"] + [o for o in q["outputs"] if o[0] != "ret"]
        res = []
        if q.get("mode") == "vmap":
            return self.vmap(q, fn, order)
        for pi, (p, want) in enumerate(zip(q["points"], q["want"])):
            calls.clear()
            try:
                self.vecflat = bool(q.get("vecflat"))
                k, a = 0, {}
                for n, t in q["args"]:
                    m = flat(t)
                    a[n] = self.obj(t, p[k:k + m], classes)
                    k += m
                self.vecflat = False
                outs = {}
                if q.get("outargs"):
                    for o in q["outputs"]:
                        if o[0] != "ret":
                            buf = self.array([float("nan")] * flat(o[2]), o[2][1], o[2][2]) if o[0] == "out" or o[1] in want else None
                            if q.get("counted") and buf is not None:
                                buf = buf.view(counted_array())
                                buf.log = [0] * buf.size
                            outs[o[1]] = buf
                            a[o[1]] = buf
                else:
                    for o in q["outputs"]:
                        if o[0] == "opt":
                            a["compute_" + o[1]] = o[1] in want
                f = fn
                if q.get("mode") == "jit" and self.target == "jax":
                    static = [n for n in a if n.startswith("compute_")]
                    f = self.jax.jit(fn, static_argnames=static)
                names = list(a)
                if pi % 2:
                    r = f(*[a[n] for n in [x for x, _ in q["args"]]], **{n: a[n] for n in names if n not in dict(q["args"])})
                else:
                    r = f(**a)
                if q.get("outargs"):
                    rets = {o[1]: r for o in order if o[0] == "ret"}
                    rets.update(outs)
                    if not any(o[0] == "ret" for o in order) and r is not None:
                        raise ValueError("returned %r" % (r,))
                    vals = [rets[o[1]] for o in q["outputs"]]
                else:
                    if len(order) == 1:
                        r = (r,)
                    if len(r) != len(order):
                        raise ValueError("returned %d values instead of %d" % (len(r), len(order)))
                    m = {o[1]: v for o, v in zip(order, r)}
                    vals = [m[o[1]] for o in q["outputs"]]
                row = []
                for o, v in zip(q["outputs"], vals):
                    if o[0] == "opt" and o[1] not in want:
                        if v is not None:
                            raise ValueError("optional output %s was not requested but is %r" % (o[1], v))
                        row.append(None)
                    else:
                        row.append(self.unobj(o[2], v))
                res.append([row, [list(c) for c in calls]] + ([{n: b.log for n, b in outs.items() if b is not None}] if q.get("counted") else []))
            except Exception as ex:
                if os.environ.get("WFV_TRACE"):
                    import traceback; traceback.print_exc()
                res.append("%s: %s" % (type(ex).__name__, str(ex)[:600]))
        bad = self.dtypes - {"float%d" % q["width"]}
        if bad and not (self.target == "numpy" and q["width"] == 32):      # np.power(float32, int32) is wider than asked for
            res = ["output of type %s with width %d" % (bad, q["width"])] * len(res)
        return res


    def vmap(self, q, fn, order):
        """All points at once (JAX); every point requests the same optional outputs."""
        np, jnp = self.np, self.lib
        want = set(q["want"][0])
        P = np.array(q["points"], dtype=np.float64)
        a, k = [], 0
        for n, t in q["args"]:
            m = flat(t)
            v = P[:, k:k + m]
            k += m
            if t[0] == "i": a.append(jnp.array(v[:, 0].astype(np.int32)))
            elif t[0] == "f": a.append(jnp.array(v[:, 0], dtype=self.dt))
            else: a.append(jnp.array(v, dtype=self.dt).reshape((len(P),) + ((t[1],) if self.vecflat and t[2] == 1 else (t[1], t[2]))))
        kw = {"compute_" + o[1]: o[1] in want for o in q["outputs"] if o[0] == "opt"}
        try:
            r = self.jax.jit(self.jax.vmap(lambda *x: fn(*x, **kw)))(*a)
            if len(order) == 1:
                r = (r,)
            m = {o[1]: v for o, v in zip(order, r)}
            rows = [[] for _ in P]
            for o in q["outputs"]:
                if o[0] == "opt" and o[1] not in want:
                    if m[o[1]] is not None:
                        raise ValueError("optional output %s was not requested but is present" % o[1])
                    for x in rows: x.append(None)
                    continue
                v = np.asarray(m[o[1]])
                shape = (len(P),) + (() if o[2][0] in "fi" else (o[2][1], o[2][2]))
                if v.shape != shape:
                    if o[2][0] in "fi" and v.shape == ():
                        v = np.broadcast_to(v, shape)
                    else:
                        raise ValueError("batched output of shape %s instead of %s" % (v.shape, shape))
                for x, y in zip(rows, v): x.append([float(z) for z in y.reshape(-1)])
            return [[x, []] for x in rows]
        except Exception as ex:
            if os.environ.get("WFV_TRACE"):
                import traceback; traceback.print_exc()
            return ["%s: %s" % (type(ex).__name__, str(ex)[:600])] * len(P)


def serve():
    import warnings
    warnings.simplefilter("ignore")
    target, width = sys.argv[1], int(sys.argv[2])
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    h = Host(target, width)
    import numpy as np
    np.seterr(all="ignore")
    for line in sys.stdin:
        out.write(json.dumps(h.run(json.loads(line))) + "\n")
        out.flush()


class Remote:
    """A server process, started on first use."""

    def __init__(self, target, width):
        self.target, self.width, self.p = target, width, None

    def run(self, q):
        import subprocess
        from . import build as B
        if self.p is None or self.p.poll() is not None:
            e = B._env()
            e["PYTHONPATH"] = str(B.VERIF)
            e["JAX_PLATFORMS"] = "cpu"
            for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
                e[k] = "1"
            e["XLA_FLAGS"] = "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
            self.p = subprocess.Popen([str(B.PY), "-c", "from wfv import pyexec; pyexec.serve()", self.target, str(self.width)], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                      stderr=subprocess.DEVNULL, env=e, text=True)
        self.p.stdin.write(json.dumps(q) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            self.p.wait()
            rc, self.p = self.p.returncode, None
            return ["the interpreter died with status %s" % rc] * len(q["points"])
        return json.loads(line)
