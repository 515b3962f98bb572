"""Builds, from /repo's current working tree, (a) the LLVM IR the symbolic executor reads and
(b) the native library counterexamples are replayed on.  Nothing is reused unless every input byte
is the same (content-addressed cache under /verif/.build)."""
import contextlib, hashlib, io, os, re, runpy, shlex, shutil, subprocess, sys, time, fcntl
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
CACHE = os.path.join(VERIF, ".build")
CLANG = "clang"
IRFLAGS = ["-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-ffp-contract=off",
           "-fno-math-errno", "-fno-inline-functions", "-fopenmp", "-w", "-std=gnu99", "-fno-pic", "-gline-tables-only", "-fno-discard-value-names",
           "-DPLASMA_USE_LUA", "-DPLASMA_WITH_OPENBLAS",
           "-I/usr/include/x86_64-linux-gnu/openblas-pthread", "-I/usr/include/lua5.4"]
NATFLAGS = ["-DPLASMA_USE_LUA", "-DPLASMA_WITH_OPENBLAS", "-I/usr/include/x86_64-linux-gnu/openblas-pthread",
            "-I/usr/include/lua5.4", "-fopenmp", "-O1", "-std=gnu99", "-fPIC", "-w"]
DIRS = ("compute", "core_blas", "control", "include", "tools")


class BuildError(Exception):
    pass


def _files():
    out = []
    for d in DIRS:
        top = os.path.join(REPO, d)
        for root, dirs, names in os.walk(top):
            dirs[:] = [x for x in dirs if x not in ("__pycache__",)]
            for n in names:
                if n.endswith((".c", ".h", ".hin", ".py")):
                    out.append(os.path.relpath(os.path.join(root, n), REPO))
    return sorted(out)


def tree_hash():
    h = hashlib.sha256()
    for f in _files():
        h.update(f.encode() + b"\0")
        with open(os.path.join(REPO, f), "rb") as fp:
            h.update(hashlib.sha256(fp.read()).digest())
    for f in (__file__, os.path.join(HERE, "include", "omp.h")):
        with open(f, "rb") as fp:
            h.update(fp.read())
    return h.hexdigest()[:20]


def generate(dst):
    """Copies the sources to dst and generates the s, d, c and ds precisions there."""
    for f in _files():
        p = os.path.join(dst, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        shutil.copyfile(os.path.join(REPO, f), p)
    # the project's own driver says which codegen calls are made
    code = r'''
import os, sys, runpy, json
calls=[]
os.system=lambda c: calls.append(c) or 0
sys.argv=["generate_precisions.py"]
sys.dont_write_bytecode=True
try:
    runpy.run_path("tools/generate_precisions.py", run_name="__main__")
except SystemExit: pass
json.dump(calls, open(".calls.json","w"))
'''
    # generate_precisions.py may look at directories (test, ...) that are not copied: give it those
    for d in ("test", "lib", "fortran_examples"):
        s = os.path.join(REPO, d)
        if os.path.isdir(s):
            os.makedirs(os.path.join(dst, d), exist_ok=True)
            for n in os.listdir(s):
                if n.endswith((".c", ".h", ".py")):
                    shutil.copyfile(os.path.join(s, n), os.path.join(dst, d, n))
    r = subprocess.run([sys.executable, "-c", code], cwd=dst, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    import json
    try:
        calls = json.load(open(os.path.join(dst, ".calls.json")))
    except Exception:
        raise BuildError("generate_precisions.py: " + r.stdout.decode(errors="replace")[-2000:])
    letters = {}
    for cmd in calls:
        words = shlex.split(cmd)[2:]
        if not words or words[0] != "-p":
            continue
        for t in words[2:]:
            if t.startswith(("test/",)):
                continue
            mine = letters.setdefault(t, [])
            if words[1] not in mine:
                mine.append(words[1])

    def gen(item):
        t, ps = item
        if not os.path.exists(os.path.join(dst, t)):
            return None
        cmd = [sys.executable, "-W", "ignore", "tools/codegen.py", "-v"]
        for q in ps:
            cmd += ["-p", q]
        r = subprocess.run(cmd + [t], cwd=dst, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
        o = r.stdout.decode(errors="replace")
        if r.returncode or "Error:" in o:
            return t + ": " + o
        return None
    with ThreadPoolExecutor(os.cpu_count()) as pool:
        errs = [e for e in pool.map(gen, sorted(letters.items())) if e]
    if errs:
        raise BuildError("codegen: " + "\n".join(errs)[:3000])
    cfg = os.path.join(dst, "include", "plasma_config.h")
    hin = os.path.join(dst, "include", "plasma_config.hin")
    if not os.path.exists(cfg) and os.path.exists(hin):
        txt = open(hin).read()
        txt = re.sub(r"#cmakedefine\s+(\w+).*", lambda m: "#define %s" % m.group(1)
                     if m.group(1) in ("PLASMA_USE_LUA", "PLASMA_WITH_OPENBLAS") else "/* #undef %s */" % m.group(1), txt)
        txt = re.sub(r"@\w+@", "", txt)
        open(cfg, "w").write(txt)


def is_prec(name, p):
    """does the C file belong to precision p (or to all)?"""
    return prec_of(name) in (p, "")


TWO = {"zc": ("z", "c"), "ds": ("d", "s")}


def prec_of(path, _cache={}):
    b = os.path.basename(path)[:-2]
    if path.startswith("control/"):
        return ""
    if b.startswith("core_"):
        b = b[5:]
    if b in ("dcabs1", "scabs1"):
        return "z" if b[0] == "d" else "c"
    for k in ("dzamax", "scamax", "damax", "samax"):
        if b in (k, "p" + k):
            return {"dzamax": "z", "scamax": "c", "damax": "d", "samax": "s"}[k]
    if b in ("clag2z", "pclag2z"):
        return "zc"
    if b in ("slag2d", "pslag2d"):
        return "ds"
    if b in ("zlag2c", "pzlag2c", "zcposv", "zcgesv", "zcgbsv"):
        return "zc"
    if b in ("dlag2s", "pdlag2s", "dsposv", "dsgesv", "dsgbsv"):
        return "ds"
    q = b[1] if b[0] == "p" and len(b) > 1 else b[0]
    return q if q in "szdc" else ""


def ensure(precs="z", quiet=True):
    """returns the directory with src/, bc/<prec>.bc for the current tree"""
    os.makedirs(CACHE, exist_ok=True)
    h = tree_hash()
    d = os.path.join(CACHE, h)
    lock = open(os.path.join(CACHE, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        src = os.path.join(d, "src")
        if not os.path.exists(os.path.join(d, "src.ok")):
            for old in sorted((os.path.join(CACHE, x) for x in os.listdir(CACHE)), key=os.path.getmtime)[:-6]:
                if os.path.isdir(old):
                    shutil.rmtree(old, ignore_errors=True)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(src)
            generate(src)
            open(os.path.join(d, "src.ok"), "w").close()
        todo = []
        for p in [""] + list(precs):
            if not os.path.exists(os.path.join(d, "bc%s.ok" % p)):
                todo.append(p)
        if "z" in precs and "c" in precs:
            todo += [] if os.path.exists(os.path.join(d, "bczc.ok")) else ["zc"]
        if "d" in precs and "s" in precs:
            todo += [] if os.path.exists(os.path.join(d, "bcds.ok")) else ["ds"]
        if todo:
            _compile(d, src, todo)
        return d
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


SKIP_IF_Z = ("zstevx2", "zlaneg2", "zlaebz2")


def csources(src, p):
    out = []
    for dd in ("control", "core_blas", "compute"):
        for n in sorted(os.listdir(os.path.join(src, dd))):
            if n.endswith(".c"):
                rel = dd + "/" + n
                if prec_of(rel) == p:
                    if n[:-2] in SKIP_IF_Z or n[1:-2] in ("stevx2", "laneg2", "laebz2") and n[0] in "zc":
                        continue
                    out.append(rel)
    return out


def _compile(d, src, precs):
    jobs = []
    for p in precs:
        od = os.path.join(d, "o", p or "all")
        os.makedirs(od, exist_ok=True)
        for rel in csources(src, p):
            jobs.append((p, rel, os.path.join(od, os.path.basename(rel)[:-2] + ".bc")))

    def cc(j):
        p, rel, out = j
        r = subprocess.run([CLANG, *IRFLAGS, "-I" + os.path.join(HERE, "include"), "-I" + os.path.join(src, "include"),
                            "-emit-llvm", "-c", os.path.join(src, rel), "-o", out],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            return rel + ": " + r.stdout.decode(errors="replace")[:1500]
        return None
    with ThreadPoolExecutor(os.cpu_count()) as pool:
        errs = [e for e in pool.map(cc, jobs) if e]
    if errs:
        raise BuildError("clang: " + "\n".join(errs)[:4000])
    for p in precs:
        outs = [o for q, _, o in jobs if q == p]
        r = subprocess.run(["llvm-link-18", "-o", os.path.join(d, "bc%s.bc" % p), *outs],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildError("llvm-link: " + r.stdout.decode(errors="replace")[:3000])
        open(os.path.join(d, "bc%s.ok" % p), "w").close()


def harness_bc(d, name):
    """IR of a harness file of engine/include, compiled against the headers of the current tree"""
    out = os.path.join(d, "h%d_%s.bc" % (os.getpid(), name))
    r = subprocess.run([CLANG, *IRFLAGS, "-I" + os.path.join(HERE, "include"), "-I" + os.path.join(d, "src", "include"),
                        "-emit-llvm", "-c", os.path.join(HERE, "include", name), "-o", out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError(r.stdout.decode(errors="replace")[:1500])
    import atexit
    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and os.path.exists(out) and os.unlink(out))
    return out


def bc_files(d, precs):
    out = [os.path.join(d, "bc.bc")] + [os.path.join(d, "bc%s.bc" % p) for p in precs]
    if "z" in precs and "c" in precs:
        out.append(os.path.join(d, "bczc.bc"))
    if "d" in precs and "s" in precs:
        out.append(os.path.join(d, "bcds.bc"))
    return out


def native_lib(d, precs="zcds", tag="nat", cc="gcc", flags=None, extra_src=(), libs=("-lopenblas", "-llapacke", "-llua5.4", "-lm")):
    """native shared library of the whole tree (used only to replay counterexamples)"""
    so = os.path.join(d, "lib%s-%s.so" % (tag, precs))
    lock = open(os.path.join(CACHE, "lock-nat-" + precs), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(so):
            return so
        src = os.path.join(d, "src")
        od = os.path.join(d, "nat-" + tag + precs)
        os.makedirs(od, exist_ok=True)
        fl = NATFLAGS if flags is None else flags
        ps = [""] + list(precs) + (["zc"] if "z" in precs and "c" in precs else []) + (["ds"] if "d" in precs and "s" in precs else [])
        rels = [x for p in ps for x in csources(src, p)]
        objs = []

        def one(rel):
            out = os.path.join(od, os.path.basename(rel)[:-2] + ".o")
            r = subprocess.run([cc, *fl, "-I" + os.path.join(src, "include"), "-c",
                                rel if os.path.isabs(rel) else os.path.join(src, rel), "-o", out],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                return rel + ": " + r.stdout.decode(errors="replace")[:1500], out
            return None, out
        with ThreadPoolExecutor(os.cpu_count()) as pool:
            res = list(pool.map(one, rels + list(extra_src)))
        errs = [e for e, _ in res if e]
        if errs:
            raise BuildError("native: " + "\n".join(errs)[:3000])
        link = [cc, "-shared", "-o", so + ".tmp", *[o for _, o in res]]
        if cc == "gcc":
            link.append("-fopenmp")
        r = subprocess.run(link + list(libs), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildError("native link: " + r.stdout.decode(errors="replace")[:3000])
        os.rename(so + ".tmp", so)
        shutil.rmtree(od, ignore_errors=True)
        return so
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


if __name__ == "__main__":
    t = time.time()
    d = ensure(sys.argv[1] if len(sys.argv) > 1 else "zcds")
    print(d, round(time.time() - t, 1), "s")
