"""Builds of /repo's working tree used by the checks (out of tree, below /verif/build).

Variants:
  asan : wf_core + pywrenfold, ASan + UBSan + float-cast-overflow + libstdc++ assertions + WF_DEBUG.
  tsan : wf_core only (for the C++ thread harness).
  plain: wf_core + pywrenfold without instrumentation (glibc's allocator and address layout, for transcripts).
ninja decides what is stale by time stamps; a content stamp of the source tree catches the case in
which a changed file carries an old time stamp, by rebuilding everything through ccache (whose
decisions depend on file contents only).
"""
import fcntl, hashlib, json, os, pathlib, shutil, subprocess, sys, time

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path("/repo")
BUILD = VERIF / "build"
VENV = pathlib.Path("/opt/vp/venv")
PY = VENV / "bin/python"

SAN = ("-O1 -gline-tables-only -fno-omit-frame-pointer -fsanitize=address,undefined,float-cast-overflow "
       "-fno-sanitize=vptr,function,float-divide-by-zero -fno-sanitize-recover=undefined -shared-libasan "
       "-D_GLIBCXX_ASSERTIONS -w -Wno-error")
TSAN = "-O1 -gline-tables-only -fno-omit-frame-pointer -fsanitize=thread -w -Wno-error"

VARIANTS = {
    "asan": dict(flags=SAN, targets=["pywrenfold"]),
    "plain": dict(flags="-O1 -g0 -w -Wno-error", targets=["pywrenfold"]),
    "tsan": dict(flags=TSAN, targets=["wf_core"]),
}


class BuildError(Exception):
    pass


def _env():
    e = dict(os.environ)
    e.update(CC="clang", CXX="clang++", LANG="C.UTF-8", LC_ALL="C.UTF-8",
             PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
             CCACHE_DIR=str(BUILD / "ccache"), CCACHE_MAXSIZE="2G", CCACHE_NOCOMPRESS="1",
             CCACHE_SLOPPINESS="", PYTHONDONTWRITEBYTECODE="1")
    for k in ("PYTHONPATH", "PYTHONHOME", "VIRTUAL_ENV", "LD_PRELOAD"):
        e.pop(k, None)
    return e


def source_stamp():
    """Content hashes of the C++ and CMake sources (not of tests or examples)."""
    out = {}
    for top in ("components/core", "components/wrapper", "components/runtime", "cmake", "CMakeLists.txt",
                "components/CMakeLists.txt", "dependencies/CMakeLists.txt"):
        p = REPO / top
        files = [p] if p.is_file() else sorted(q for q in p.rglob("*") if q.is_file() and
                                               q.suffix in (".cc", ".h", ".txt", ".cmake", ".cpp"))
        for f in files:
            rel = str(f.relative_to(REPO))
            if "/tests/" in rel or "/test" in rel.rsplit("/", 1)[0]:
                continue
            out[rel] = hashlib.sha1(f.read_bytes()).hexdigest()
    return out


def _run(cmd, log, env):
    with open(log, "ab") as f:
        f.write(("\n$ " + " ".join(map(str, cmd)) + "\n").encode())
        f.flush()
        return subprocess.run([str(c) for c in cmd], stdout=f, stderr=subprocess.STDOUT, env=env).returncode


def _configure(variant, bdir, debug, log, env):
    v = VARIANTS[variant]
    flags = v["flags"] + (" -DWF_DEBUG" if debug else "")
    cmd = ["cmake", "-S", REPO, "-B", bdir, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None",
           "-DCMAKE_CXX_FLAGS=" + flags, "-DCMAKE_C_FLAGS=" + flags,
           "-DCMAKE_PROJECT_wrenfold_INCLUDE=/opt/vp/cmake/offline_deps.cmake",
           "-DWF_NANOBIND_CMAKE_DIR=/opt/vp/nanobind-2.12.0/nanobind/cmake",
           f"-DPython_ROOT_DIR={VENV}", f"-DPython_EXECUTABLE={PY}", "-DPython_FIND_VIRTUALENV=ONLY",
           "-DWF_BUILD_TESTS=OFF", "-DWF_BUILD_EXAMPLES=OFF", "-DWF_BUILD_BENCHMARKS=OFF",
           "-DWF_BUILD_STUBS=OFF", "-DWF_BUILD_DOCS=OFF", "-Wno-deprecated"]
    if shutil.which("ccache"):
        cmd += ["-DCMAKE_CXX_COMPILER_LAUNCHER=ccache", "-DCMAKE_C_COMPILER_LAUNCHER=ccache"]
    return _run(cmd, log, env)


def build(variant="asan"):
    """Returns the build directory; raises BuildError."""
    BUILD.mkdir(exist_ok=True)
    bdir = BUILD / variant
    log = BUILD / f"{variant}.log"
    env = _env()
    with open(BUILD / f"{variant}.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stampf = bdir / "wfv_stamp.json"
        now = source_stamp()
        old = json.loads(stampf.read_text()) if stampf.exists() else None
        if (old and old["src"] == now and old["flags"] == VARIANTS[variant]["flags"]
                and all((bdir / t).exists() for t in old["outputs"])):
            return bdir
        if log.exists():
            log.unlink()
        t0 = time.time()
        debug = True if not old else old["debug"]
        if not (bdir / "build.ninja").exists() or (old and old["flags"] != VARIANTS[variant]["flags"]):
            if bdir.exists():
                shutil.rmtree(bdir)
            if _configure(variant, bdir, debug, log, env):
                raise BuildError(f"cmake failed, see {log}")
            old = None
        if old:
            newest = max([(bdir / t).stat().st_mtime for t in old["outputs"] if (bdir / t).exists()] or [0])
            for f, h in now.items():
                if old["src"].get(f) != h and (REPO / f).stat().st_mtime <= newest:
                    _run(["ninja", "-C", bdir, "-t", "clean"], log, env)
                    break
        if stampf.exists():
            stampf.unlink()
        targets = VARIANTS[variant]["targets"]
        cmd = ["ninja", "-C", bdir, "-j", str(os.cpu_count() or 8)] + targets
        rc = _run(cmd, log, env)
        if rc and debug:
            # the tree may only build without its debug assertions
            debug = False
            if _configure(variant, bdir, False, log, env) == 0:
                rc = _run(cmd, log, env)
        if rc:
            raise BuildError(f"{variant} build failed, see {log}:\n" + tail(log))
        outs = [str(p.relative_to(bdir)) for p in list((bdir / "components/core").glob("libwf_core.a")) +
                list((bdir / "components/wrapper").glob("pywrenfold*.so"))]
        stampf.write_text(json.dumps(dict(src=now, debug=debug, outputs=outs, flags=VARIANTS[variant]["flags"])))
        print(f"[build] {variant}: {time.time()-t0:.1f} s (debug assertions: {debug})", file=sys.stderr, flush=True)
    return bdir


def tail(p, n=30):
    return "\n".join(pathlib.Path(p).read_text(errors="replace").splitlines()[-n:])


_rt = None


def asan_runtime():
    global _rt
    if _rt is None:
        _rt = subprocess.run(["clang", "-print-file-name=libclang_rt.asan-x86_64.so"], capture_output=True,
                             text=True, env=_env()).stdout.strip()
    return _rt


def worker_env(bdir, seed=None):
    """Environment for a python process that imports the instrumented pywrenfold."""
    e = _env()
    e["LD_PRELOAD"] = asan_runtime()
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:max_allocation_size_mb=3000:detect_stack_use_after_return=0:handle_abort=1:allow_user_segv_handler=0"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=78"
    e["PYTHONPATH"] = f"{bdir}/components/wrapper:{REPO}/components/python:{VERIF}"
    e["JAX_PLATFORMS"] = "cpu"
    e["PYTHONHASHSEED"] = "0"
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        e[k] = "1"
    return e


if __name__ == "__main__":
    for v in sys.argv[1:] or ["asan"]:
        print(build(v))
