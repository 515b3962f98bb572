"""Cases, solver verdicts, native replay and evidence: the common part of every check."""
import ctypes, hashlib, json, multiprocessing as mp, os, random, struct, sys, time, traceback
import z3
import core
from core import *
import fp
from fractions import Fraction as Q

VERIF = os.path.dirname(HERE)
TIER = os.environ.get("VERIF_TIER", "quick")
SEEDV = int(os.environ.get("VERIF_SEED", "1") or 1)
NPROC = int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 4
T0 = time.time()
MAXV = int(os.environ.get("VERIF_MAXV", "5"))


# ---- one public call -----------------------------------------------------------------------
class Sc:
    """scalar argument in the precision of the routine (complex by value) or real"""

    def __init__(self, prec, v):
        self.P = blas.PRS[prec]
        self.v = v


class RealArg:
    """scalar argument of the real type that goes with a precision"""

    def __init__(self, prec, v):
        self.c = {"z": "d", "d": "d", "c": "s", "s": "s"}[prec]
        self.v = v


class Ints:
    def __init__(self, n, vals=None, name="ints", kind="user"):
        self.n = n
        self.o = mem.alloc(4 * n, kind, name)
        self.p = self.o.addr
        self.name = name
        self.init = list(vals) if vals is not None else None
        if vals is not None:
            for i, v in enumerate(vals):
                mem._put(self.o, 4 * i, 4, v)
        self.snap = dict(self.o.c)

    def get(self, i):
        return mem.load(self.p + 4 * i, 4, "i")

    def changed(self):
        return [k // 4 for k, v in self.o.c.items() if self.snap.get(k) is not v and not (
            self.snap.get(k).__class__ is int and v.__class__ is int and self.snap[k] == v)]


class Desc:
    """plasma_desc_t passed by value for the descriptor T of QR/LQ (created by the routine)"""
    SIZE = None

    def __init__(self, name="T"):
        self.o = mem.alloc(256, "user", name)
        self.p = self.o.addr
        self.name = name


class ByVal:
    """a descriptor argument passed by value"""

    def __init__(self, desc):
        self.d = desc


class Raw:
    def __init__(self, name, size, kind="user"):
        self.o = mem.alloc(size, kind, name)
        self.p = self.o.addr
        self.name = name
        self.size = size


def lower(args):
    out = []
    for a in args:
        if isinstance(a, Sc):
            if a.P.cx:
                r, i = poly.split(a.v)
                if a.P.c == "z":
                    out += [r, i]
                else:
                    out.append((r, i))
            else:
                out.append(a.v)
        elif isinstance(a, RealArg):
            out.append(a.v)
        elif isinstance(a, ByVal):
            # the callee owns its copy
            n = enum_consts()["sizeof_desc"]
            o = mem.alloc(n, "stack", "byval")
            with nolog():
                mem.memcpy(o.addr, a.d.p, n)
            out.append(o.addr)
        elif isinstance(a, (Arr, Ints, Desc, Raw)):
            out.append(a.p)
        else:
            out.append(a)
    return out


class Mismatch(Exception):
    pass


# ---- solver verdict ------------------------------------------------------------------------
def differ_query(pairs, pc=()):
    """z3: can any pair differ?  returns None (never) or index of a pair that can"""
    vm = {}
    ors = []
    idx = []
    s = z3.SolverFor("QF_NRA") if False else z3.Solver()
    s.set("timeout", 60000)
    nt = 0
    for k, (got, want) in enumerate(pairs):
        g, w = lift(got), lift(want)
        for x, y in zip(fp.zformal(g, vm), fp.zformal(w, vm)):
            if x is None and y is None:
                continue
            ors.append((x if x is not None else z3.RealVal(0)) != (y if y is not None else z3.RealVal(0)))
            idx.append(k)
    # variables and their formal inverses are related
    for (l, neg), v in list(vm.items()):
        if neg:
            b = vm.get((l, False))
            if b is not None:
                s.add(v * b == 1)
    s.add(z3.Or(ors))
    r = sym.check(s)
    if r == z3.unsat:
        return None
    if r == z3.unknown:
        return -1
    m = s.model()
    for o, k in zip(ors, idx):
        if z3.is_true(m.eval(o, True)):
            return k
    return idx[0]


def structurally_different(pairs):
    return [k for k, (g, w) in enumerate(pairs) if not same(g, w)]


def cval(v):
    """concrete value at the witness"""
    x = evalp(v)
    return x


class Outcome:
    """result of one case (picklable)"""
    __slots__ = ("label", "status", "kind", "msg", "data", "stat", "sample")

    def __init__(self, label, status="ok", kind="", msg="", data=None, stat=None, sample=None):
        self.label, self.status, self.kind, self.msg = label, status, kind, msg
        self.data, self.stat, self.sample = data, stat, sample


class CallCase:
    """One public routine called on symbolic data with concrete shape.

    make(case) returns (function, args, arrays, expect) where expect(ret, arrays) yields
    (array, {(i,j): wanted}, mode) -- cells not listed must keep their initial value -- and may
    raise Mismatch."""

    def __init__(self, label, make, nb=2, ib=1, mtpf=1, tree=False, nthreads=2, want_ret=0, prop=None, native=True,
                 tol=1e-6, retcheck=None, forkvars=(), coop=False, maxpaths=64):
        self.label, self.make = label, make
        self.nb, self.ib, self.mtpf, self.tree, self.nthreads = nb, ib, mtpf, tree, nthreads
        self.want_ret = want_ret
        self.native_ok = native
        self.tol = tol
        self.coop = coop
        self.maxpaths = maxpaths
        self.nosample = not native
        self.norm = None

    def start(self):
        begin(nthreads=self.nthreads, coop=self.coop)
        setup_plasma(self.nb, self.ib, self.mtpf, self.tree)

    def run_path(self):
        self.start()
        self.leak = []
        spec = self.make(self)
        fname, args, arrays, expect = spec
        self.spec = spec
        calls = fname if isinstance(fname, list) else [(fname, args, self.want_ret)]
        for c in calls:
            if callable(c):
                r = c()
                if r is not None:
                    return ("value", r, None)
                continue
            ret = call(c[0], *lower(c[1]))
            self.ret = ret
            if c[2] is not None and not (ret.__class__ is int and ret == c[2]):
                return ("ret", "%s returned %r, expected %r" % (c[0], ret, c[2]), None)
        pairs, names = [], []
        listed = {}
        try:
            wanted = expect(ret)
        except Mismatch as e:
            return ("ret", str(e), None)
        for arr, want in wanted:
            listed[id(arr)] = want
            for ij, w in want.items():
                g = arr[ij] if isinstance(arr, Arr) else arr.get(ij)
                if self.norm is not None:
                    g, w = self.norm(g), self.norm(w)
                pairs.append((g, w))
                names.append((arr.name, ij))
        for a in arrays:
            if isinstance(a, Arr):
                want = listed.get(id(a), {})
                for ij in a.changed():
                    if ij not in want:
                        return ("frame", "element %s%r was changed; it is outside what the operation writes" % (a.name, ij), None)
            elif isinstance(a, Ints) and id(a) not in listed and a.init is not None:
                ch = a.changed()
                if ch:
                    return ("frame", "integer argument %s[%d] was changed" % (a.name, ch[0]), None)
        if pairs:
            bad = differ_query(pairs)
            if bad is not None:
                if bad == -1:
                    sd = structurally_different(pairs)
                    if not sd:
                        return None
                    bad = sd[0]
                g, w = pairs[bad]
                return ("value", "%s%r = %s, expected %s" % (names[bad][0], names[bad][1], poly.show(lift(g), 6), poly.show(lift(w), 6)), bad)
        live = [o for o in RT.mallocs if not o.freed]
        if live:
            return ("leak", "%d allocations are not released" % len(live), None)
        return None

    def run(self):
        ex = sym.Explorer(max_paths=self.maxpaths)
        n = 0
        last = None
        for res in ex.explore(self._guarded):
            n += 1
            if res is not None:
                kind, msg, extra = res
                data = self.replay_data()
                return Outcome(self.label, "bad", kind, msg, data)
        smp = None
        try:
            smp = None if self.nosample else self.replay_data()
        except Exception:
            pass
        return Outcome(self.label, "ok", sample=smp)

    def _guarded(self):
        try:
            return self.run_path()
        except Violation as v:
            return (v.kind, v.msg, None)

    # concrete instance for native replay
    def replay_data(self):
        fname, args, arrays, expect = self.spec
        arrs = {}
        for k, a in enumerate(arrays):
            if isinstance(a, Arr):
                init = [[cjson(cval(a.init[i, j])) for i in range(a.ld)] for j in range(a.n)]
                try:
                    fin = [[cjson(cval(a.get(i, j))) for i in range(a.ld)] for j in range(a.n)]
                except Exception:
                    fin = None
                arrs[k] = dict(t="arr", prec=a.P.c, m=a.m, n=a.n, ld=a.ld, init=init, final=fin, name=a.name)
            elif isinstance(a, Ints):
                fin = []
                for i in range(a.n):
                    v = a.o.c.get(4 * i)
                    fin.append(v if v.__class__ is int else None)
                arrs[k] = dict(t="ints", n=a.n, init=a.init, final=fin, name=a.name)
            elif isinstance(a, Desc):
                arrs[k] = dict(t="desc", name=a.name)
            elif isinstance(a, Raw):
                arrs[k] = dict(t="raw", size=a.size, name=a.name)
        def enc(args):
            al = []
            for a in args:
                if isinstance(a, Sc):
                    al.append(["sc", a.P.c, cjson(cval(a.v))])
                elif isinstance(a, RealArg):
                    al.append(["sc", a.c, cjson(cval(a.v))])
                elif isinstance(a, ByVal):
                    al.append(["val", [k for k, b in enumerate(arrays) if b is a.d][0]])
                elif isinstance(a, (Arr, Ints, Desc, Raw)):
                    al.append(["ref", [k for k, b in enumerate(arrays) if b is a][0]])
                else:
                    al.append(["int", int(a)])
            return al
        calls = fname if isinstance(fname, list) else [(fname, args, self.want_ret)]
        calls = [[c[0], enc(c[1]), c[2]] for c in calls if not callable(c)]
        exp = {}
        try:
            for arr, want in expect(self.ret):
                k = [q for q, b in enumerate(arrays) if b is arr][0]
                if isinstance(arr, Arr):
                    exp[k] = [[i, j, cjson(cval(w))] for (i, j), w in want.items()]
                else:
                    exp[k] = [[i, 0, cjson(cval(w))] for i, w in want.items()]
        except Exception:
            exp = None
        return dict(label=self.label, fn=calls[-1][0], calls=calls, arrays=arrs, expect=exp, nb=self.nb, ib=self.ib, mtpf=self.mtpf,
                    tree=self.tree, nthreads=getattr(self, "nthreads", 2), want_ret=self.want_ret, got_ret=self.ret if getattr(self, "ret", None).__class__ is int else None,
                    tol=self.tol, final_is_engine=True)


def cjson(x):
    if isinstance(x, complex):
        return [x.real, x.imag]
    if isinstance(x, poly.Top):
        return None
    return float(x)


# ---- native replay -------------------------------------------------------------------------
class Native:
    def __init__(self, so):
        self.lib = ctypes.CDLL(so)
        try:
            ctypes.CDLL("libopenblas.so.0").openblas_set_num_threads(1)
        except Exception:
            pass

    def run(self, d):
        """run a replay record natively; returns (ret, arrays)"""
        import numpy as np
        E = enum_consts()
        L = self.lib
        L.omp_set_num_threads(ctypes.c_int(d.get("nthreads", 4)))
        L.plasma_init()
        L.plasma_set(E["PlasmaTuning"], E["PlasmaDisabled"])
        L.plasma_set(E["PlasmaNb"], d["nb"])
        L.plasma_set(E["PlasmaIb"], d["ib"])
        L.plasma_set(E["PlasmaNumPanelThreads"], d["mtpf"])
        L.plasma_set(E["PlasmaHouseholderMode"], E["PlasmaTreeHouseholder" if d["tree"] else "PlasmaFlatHouseholder"])
        bufs = {}
        for k, a in d["arrays"].items():
            k = int(k)
            if a["t"] == "arr":
                dt = {"d": np.float64, "s": np.float32, "z": np.complex128, "c": np.complex64}[a["prec"]]
                x = np.zeros((a["n"], a["ld"]), dtype=dt)
                for j in range(a["n"]):
                    for i in range(a["ld"]):
                        v = a["init"][j][i]
                        x[j, i] = complex(*v) if isinstance(v, list) else v
                bufs[k] = x
            elif a["t"] == "ints":
                bufs[k] = np.array(a["init"] if a["init"] is not None else [-77] * a["n"], dtype=np.int32)
            elif a["t"] == "desc":
                bufs[k] = np.zeros(256, dtype=np.uint8)
            else:
                bufs[k] = np.zeros(a["size"], dtype=np.uint8)
        bad = None
        for fn, args, want in d["calls"]:
            cargs = []
            for a in args:
                if a[0] == "int":
                    cargs.append(ctypes.c_int(a[1]))
                elif a[0] == "sc":
                    v = complex(*a[2]) if isinstance(a[2], list) else complex(a[2])
                    if a[1] == "z":
                        cargs += [ctypes.c_double(v.real), ctypes.c_double(v.imag)]
                    elif a[1] == "d":
                        cargs.append(ctypes.c_double(v.real))
                    elif a[1] == "s":
                        cargs.append(ctypes.c_float(v.real))
                    else:
                        cargs.append(ctypes.c_double(struct.unpack("<d", struct.pack("<ff", v.real, v.imag))[0]))
                elif a[0] == "val":
                    DB = descbuf(E["sizeof_desc"])
                    cargs.append(DB.from_buffer_copy(bufs[a[1]].tobytes()[:E["sizeof_desc"]]))
                else:
                    cargs.append(ctypes.c_void_p(bufs[a[1]].ctypes.data))
            f = getattr(L, fn)
            f.restype = ctypes.c_double if d.get("rettype") == "d" else ctypes.c_float if d.get("rettype") == "f" else ctypes.c_int
            ret = f(*cargs)
            if want is not None and ret != want and not d.get("rettype") and bad is None:
                bad = "%s returned %r, expected %r" % (fn, ret, want)
        self.bad = bad
        L.plasma_finalize()
        return ret, bufs

    def compare(self, d, against="expect"):
        """None if the native result agrees with the record, else a description"""
        import numpy as np
        ret, bufs = self.run(d)
        if self.bad:
            return self.bad
        tol = d["tol"]
        if d.get("value") is not None and against == "expect" and not (abs(ret - d["value"]) <= 1e-9 * (1 + abs(d["value"]))):
            return "returned %r, expected %r" % (ret, d["value"])
        for k, a in d["arrays"].items():
            if a["t"] == "arr":
                x = bufs[int(k)]
                single = a["prec"] in "sc"
                tl = max(tol, 2e-3) if single else tol
                ex = {}
                if against == "expect":
                    for i, j, v in (d["expect"] or {}).get(k, (d["expect"] or {}).get(int(k), [])):
                        ex[i, j] = v
                else:
                    if a["final"] is None:
                        continue
                scale = 1.0 + max((abs(complex(*v) if isinstance(v, list) else v) for v in ex.values() if v is not None), default=0)
                for j in range(a["n"]):
                    for i in range(a["ld"]):
                        if against == "expect":
                            v = ex.get((i, j), a["init"][j][i])
                        else:
                            v = a["final"][j][i]
                        if v is None:
                            continue
                        w = complex(*v) if isinstance(v, list) else complex(v)
                        g = complex(x[j, i])
                        if not (abs(g - w) <= tl * max(scale, abs(w))):
                            return "%s(%d,%d) = %r, expected %r" % (a["name"], i, j, g, w)
            elif a["t"] == "ints":
                x = bufs[int(k)]
                e = (d["expect"] or {}).get(k, (d["expect"] or {}).get(int(k)))
                if against == "expect":
                    if e:
                        for i, _, v in e:
                            if int(x[i]) != int(v):
                                return "%s[%d] = %d, expected %d" % (a["name"], i, x[i], v)
                    elif a["init"] is not None:
                        for i, v in enumerate(a["init"]):
                            if int(x[i]) != v:
                                return "%s[%d] was changed" % (a["name"], i)
                else:
                    for i, v in enumerate(a["final"]):
                        if v is not None and int(x[i]) != v:
                            return "%s[%d] = %d, engine %d" % (a["name"], i, x[i], v)
        return None


def descbuf(n):
    class DescBuf(ctypes.Structure):
        _fields_ = [("b", ctypes.c_uint8 * n)]
    return DescBuf


def isolated(f, *args, timeout=120):
    """run f in a forked child; returns ('ok', value) | ('crash', text) | ('timeout', '')"""
    ctx = mp.get_context("fork")
    r, w = ctx.Pipe(False)

    def body():
        try:
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 2)
            os.dup2(dn, 1)
            v = f(*args)
            w.send(("ok", v))
        except BaseException as e:
            w.send(("exc", repr(e)))
        w.close()
        os._exit(0)
    p = ctx.Process(target=body)
    p.start()
    w.close()
    try:
        if r.poll(timeout):
            try:
                out = r.recv()
            except EOFError:
                p.join(5)
                out = ("crash", "process died with exit code %s" % p.exitcode)
        else:
            out = ("timeout", "")
    finally:
        if p.is_alive():
            p.kill()
        p.join(5)
    return out


# ---- the check driver ----------------------------------------------------------------------
class Check:
    def __init__(self, prop, precs="zd", bounds=None, outside=None, level="model_checking", assumptions=None,
                 native_precs=None):
        self.prop, self.precs = prop, precs
        self.bounds = bounds or {}
        self.outside = outside or []
        self.level = level
        self.assumptions = assumptions or []
        self.native_precs = native_precs or precs
        self.budget = float(os.environ.get("VERIF_BUDGET", "0")) or (150 if TIER == "quick" else 780)
        self.outs = []
        self.stat = {k: 0 for k in STAT}
        self.encoded = set()
        self.ncase = 0
        self.known = self.load_known()
        self.viol = []
        self.knownhit = []
        self.validated = 0
        self.samples = []
        self.extra = {}
        self.nat = None
        self.unconfirmed = []
        self.errors = []

    def load_known(self):
        p = os.path.join(VERIF, "known_findings.json")
        if not os.path.exists(p):
            return []
        return [x for x in json.load(open(p)) if x.get("status") == "known" and self.prop in x.get("properties", [x.get("property")])]

    def start(self, extra=()):
        core.init(self.precs, extra)
        enum_consts()
        # native library in the background (used to replay and to validate the translator)
        self.natproc = mp.get_context("fork").Process(target=self._nat)
        self.natproc.start()

    def _nat(self):
        try:
            os.nice(5)
            build.native_lib(core.BDIR, self.native_precs)
        except BaseException as e:
            with open(os.path.join(core.BDIR, "nat.err"), "w") as f:
                f.write(str(e))

    def native(self):
        if self.nat is None:
            if self.natproc is not None:
                self.natproc.join()
            self.nat = Native(build.native_lib(core.BDIR, self.native_precs))
        return self.nat

    def run_cases(self, cases, shuffle=True, deadline=None, group=1):
        """run all cases in forked workers; cases: list of objects with .label and .run()"""
        cases = list(cases)
        if shuffle:
            random.Random(SEEDV).shuffle(cases)
        end = deadline or (T0 + self.budget)
        n = len(cases)
        ctx = mp.get_context("fork")
        nxt = ctx.Value("i", 0)
        nw = max(1, min(NPROC, n))
        pipes = []
        procs = []

        def worker(conn):
            base = dict(STAT)
            try:
                while True:
                    with nxt.get_lock():
                        k = nxt.value
                        if k >= n:
                            break
                        nxt.value = k + 1
                    if time.time() > end:
                        conn.send((k, None))
                        continue
                    try:
                        o = cases[k].run()
                    except Violation as v:
                        o = Outcome(cases[k].label, "bad", v.kind, v.msg)
                    except Infeasible:
                        o = Outcome(cases[k].label, "ok")
                    except Exception as e:
                        o = Outcome(cases[k].label, "error", type(e).__name__, "%s\n%s" % (e, traceback.format_exc()[-3000:]))
                    if o.status == "ok" and (k * 2654435761) % max(1, n // 12):
                        o.sample = None
                    conn.send((k, o))
                st = {x: STAT[x] - base[x] for x in STAT}
                conn.send(("end", st, sorted(core.MACH.encoded) if core.MACH else []))
            except BaseException as e:
                try:
                    conn.send(("dead", repr(e)))
                except Exception:
                    pass
            conn.close()
            os._exit(0)
        for _ in range(nw):
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(w,))
            p.start()
            w.close()
            pipes.append(r)
            procs.append(p)
        from multiprocessing.connection import wait
        skipped = 0
        done = 0
        live = list(pipes)
        while live:
            for c in wait(live, timeout=5):
                try:
                    msg = c.recv()
                except EOFError:
                    live.remove(c)
                    continue
                if msg[0] == "end":
                    for x, v in msg[1].items():
                        self.stat[x] += v
                    self.encoded.update(msg[2])
                elif msg[0] == "dead":
                    self.errors.append(("worker", msg[1]))
                elif msg[1] is None:
                    skipped += 1
                else:
                    done += 1
                    self.note(msg[1])
            if time.time() > end + 60:
                for p in procs:
                    p.kill()
                break
        for p in procs:
            p.join(5)
        self.ncase += done
        self.extra["cases_skipped_for_time"] = self.extra.get("cases_skipped_for_time", 0) + skipped + max(0, n - done - skipped)
        return done

    def note(self, o):
        if o.status == "bad":
            self.viol.append(o)
        elif o.status == "error":
            self.errors.append((o.label, o.kind + ": " + o.msg))
        elif o.sample is not None and len(self.samples) < 12:
            self.samples.append(o.sample)

    def match_known(self, o):
        for k in self.known:
            m = k.get("match", {})
            if all((m_ in (o.label if f == "label" else o.kind if f == "kind" else o.msg)) for f, m_ in m.items() if f != "re"):
                import re as _re
                if "re" not in m or _re.search(m["re"], o.label):
                    return k
        return None

    def confirm(self, o):
        """replay a counterexample on the natively compiled code; True/False/None(not replayable)"""
        d = o.data
        if d is None or not isinstance(d, dict) or "fn" not in d:
            return None
        try:
            nat = self.native()
        except build.BuildError as e:
            return None
        st, v = isolated(lambda: nat.compare(d))
        if st == "ok":
            if v is not None:
                o.msg += " | native replay: " + v
                return True
            return False
        if st in ("crash", "timeout"):
            o.msg += " | native replay: " + (v or st)
            return True
        return None

    def finish(self, validate=4):
        viol = []
        seen_known = {}
        conf = 0
        for o in self.viol:
            k = self.match_known(o)
            if k is not None:
                seen_known.setdefault(k["id"], (k, o))
                continue
            if conf < 40 and len(viol) < MAXV:
                c = self.confirm(o)
                conf += 1
                if c is False and o.kind in ("value", "ret"):
                    self.unconfirmed.append((o.label, o.kind, o.msg[:300]))
                    continue
                viol.append(o)
        # translator validation on sampled instances
        val_bad = []
        if validate and self.samples:
            try:
                nat = self.native()
                for d in self.samples[:validate]:
                    st, v = isolated(lambda: nat.compare(d, "engine"))
                    if st == "ok" and v is None:
                        self.validated += 1
                    else:
                        val_bad.append((d.get("label"), st, v))
            except build.BuildError as e:
                self.errors.append(("native build", str(e)[:500]))
        rep = []
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        for n, o in enumerate(viol[:MAXV]):
            path = os.path.join(VERIF, "evidence", "replay-%s-%d.json" % (self.prop, n))
            with open(path, "w") as f:
                json.dump(dict(property=self.prop, label=o.label, kind=o.kind, msg=o.msg, data=o.data), f, indent=1, default=str)
            rep.append((o, path))
        cov = dict(states=self.stat["paths"] or self.ncase, transitions=self.stat["blocks"],
                   traces_validated_against_impl=self.validated,
                   samples=[dict(label=d.get("label"), fn=d.get("fn")) for d in self.samples[:5]] or ["none"],
                   cases=self.ncase, paths=self.stat["paths"], ir_blocks_executed=self.stat["blocks"],
                   queries=self.stat["queries"], solver_s=round(self.stat["solver_s"], 2), unknown=self.stat["unknown"],
                   functions_encoded=len(self.encoded), functions=sorted(self.encoded)[:400], bounds=self.bounds,
                   outside_bounds=self.outside, unconfirmed=self.unconfirmed[:10], errors=[e[0] for e in self.errors[:10]],
                   translator_validation_failures=val_bad[:5], **self.extra)
        ev = dict(property=self.prop, tier=TIER, seed=SEEDV, level=self.level, coverage=cov, wall_s=round(time.time() - T0, 2),
                  assumptions=self.assumptions,
                  violations=[dict(label=o.label, kind=o.kind, msg=o.msg[:500], replay=p) for o, p in rep])
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if self.natproc is not None:
            self.natproc.join()
        for kid, (k, o) in sorted(seen_known.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        for o, p in rep:
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
            print("  %s [%s] %s" % (o.label, o.kind, o.msg[:400]))
        seen = {}
        for e in self.errors:
            seen.setdefault(e[1].strip()[-200:], []).append(e)
        for key, es in list(seen.items())[:6]:
            print("ERROR (x%d) %s: %s" % (len(es), es[0][0], es[0][1][-900:]), file=sys.stderr)
        for e in self.unconfirmed[:5]:
            print("UNCONFIRMED %s %s %s" % e, file=sys.stderr)
        for e in val_bad[:5]:
            print("VALIDATION %s %s %s" % e, file=sys.stderr)
        print("%s: %d cases, %d paths, %d queries, %.1f s solver, %d functions encoded, %d validated, %d violations, %d known, %.1f s" % (
            self.prop, self.ncase, self.stat["paths"], self.stat["queries"], self.stat["solver_s"], len(self.encoded),
            self.validated, len(viol), len(seen_known), time.time() - T0))
        sys.stdout.flush()
        if viol:
            sys.exit(1)
        if len(self.errors) > 0.05 * self.ncase or (self.errors and os.environ.get("VERIF_STRICT")):
            sys.exit(3)
        sys.exit(0)
