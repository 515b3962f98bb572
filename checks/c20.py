"""C20: a failed sequence stays failed and inert, and the asynchronous interface reports illegal arguments without touching data."""
import sys, os, re, glob
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from chk import *
from race import *
import api

C = Check("C20", "zcds")
C.start()
E = setc()
ILL = E["PlasmaErrorIllegalValue"]
MASK32 = (1 << 32) - 1


# ---- prototypes of the asynchronous functions ------------------------------------------------
def prototypes():
    out = {}
    for p in glob.glob(os.path.join(core.BDIR, "src", "include", "plasma_*.h")):
        for m in re.finditer(r"\bvoid\s+(plasma_omp_\w+)\s*\(([^)]*)\)\s*;", re.sub(r"//[^\n]*|/\*.*?\*/", "", open(p).read(), flags=re.S)):
            args, pos = [], 0
            for a in m.group(2).split(","):
                a = " ".join(a.replace("*", " * ").split())
                t, n = a.rsplit(" ", 1)
                w = 2 if t == "plasma_complex64_t" else 1
                args.append((t, n, pos, w))
                pos += w
            out[m.group(1)] = args
    return out


PROTO = prototypes()
HOOK = [None]
ORIG = {}


def orig(name):
    if name not in ORIG:
        ORIG[name] = core.MACH.translate(*core.MACH.defs[name])
        core.MACH.encoded.add(name)
    return ORIG[name]


def wrap(name):
    def f(*a):
        h = HOOK[0]
        return orig(name)(*a) if h is None else h(name, orig(name), a)
    return f


WATCH = [n for n in PROTO if n in core.MACH.defs] + ["plasma_sequence_init", "plasma_desc_general_create", "plasma_desc_general_band_create", "plasma_desc_triangular_create"]
for _n in WATCH:
    if _n in core.MACH.defs:
        core.MACH.override[_n] = wrap(_n)


class World:
    """the objects of one call: the sequence, its status, the matrices"""

    def __init__(self):
        self.seq = None
        self.data = {}
        self.soff = self.roff = self.qoff = None
        self.own_req = mem.alloc(64, "user", "request of the failed operation")
        s = mem.alloc(64, "user", "probe")
        call("plasma_sequence_init", s.addr)
        call("plasma_request_init", self.own_req.addr)
        call("plasma_request_fail", s.addr, self.own_req.addr, 1000001)
        for k, v in s.c.items():
            if v == 1000001:
                self.soff = k
            if v == self.own_req.addr:
                self.qoff = k
        for k, v in self.own_req.c.items():
            if v == 1000001:
                self.roff = k
        if self.soff is None or self.roff is None:
            raise Violation("status", "plasma_request_fail does not record the status in both the sequence and the request")

    def status(self):
        return mem.load(self.seq + self.soff, 4, "i")

    def desc(self, p):
        m = mem.load(p + E["off_matrix"], 8, "p")
        if m.__class__ is int and m:
            self.data[m >> mem.SH] = "matrix"


def touched(seg, data):
    for a in sorted(seg.wr):
        if a >> mem.SH in data:
            return a
    return None


def is_S(ex, v, S):
    if v is S:
        return True
    if v.__class__ is not SymInt:
        return False
    ex.solver.push()
    ex.solver.add(v.e != S.e)
    r = sym.check(ex.solver)
    ex.solver.pop()
    return r == z3.unsat


class Bad(Exception):
    pass


class SeqCase:
    """mode 'task': every task body is first executed with the sequence failed (any nonzero status) and must change nothing;
    mode 'start': the sequence has failed before the first operation is submitted"""

    def __init__(self, inst, mode):
        self.inst, self.mode = inst, mode
        self.label = "%s, failed %s" % (inst.label, "at any task" if mode == "task" else "before")

    def run(self):
        ex = sym.Explorer(max_paths=64, deadline=time.time() + 200)
        n = 0
        for r in ex.explore(self.guarded):
            n += 1
            if r is not None:
                return Outcome(self.label, "bad", "failed-sequence", r, dict(label=self.label, routine=self.inst.fn, vals=self.inst.vals))
        if not ex.complete:
            return Outcome(self.label, "error", "bound", "exploration not complete")
        return Outcome(self.label, "ok", sample=dict(label=self.label, fn=self.inst.fn, tasks=self.nt))

    def guarded(self):
        try:
            return self.one()
        except Bad as b:
            return str(b)
        except Violation as v:
            if self.infail:
                return "with a failed sequence: %s" % v.msg
            raise
        finally:
            HOOK[0] = None
            RT.__dict__.pop("call", None) if self.saved is None else setattr(RT, "call", self.saved)
            mem.CUR[0] = None

    def one(self):
        i, ex = self.inst, sym.EXP[0]
        self.infail, self.saved, self.nt = False, RT.call, 0
        i.start(nthreads=2, log=False, top=True)
        self.saved = RT.call
        fp.TOPPOLICY[0] = policy(0)
        pre, (fn, args) = i.build()
        for f, a in pre:
            if call(f, *lower(a)) != 0:
                raise EngineError("setup")
        W = World()
        S = sym.ivar("status")
        ex.add(S.e != 0)
        for a in i.arrays:
            if not (isinstance(a, Ints) and a.name == "iter") and not isinstance(a, Desc):
                W.data[a.p >> mem.SH] = a.name
        for d in i.descs():
            v = d.o.c.get(E["off_matrix"])
            if v.__class__ is int and v:
                W.data[v >> mem.SH] = d.name

        def hook(name, real, a):
            r = real(*a)
            if name == "plasma_sequence_init":
                W.seq = a[0]
            elif name.endswith("_create"):
                if r == 0:
                    W.desc(a[-1])
            return r
        HOOK[0] = hook
        self.seg = mem.Seg()
        low = lower(args)
        if self.mode == "start":
            def fork():
                # the asynchronous part begins: a sequence that is there has failed already
                if W.seq is not None and not self.infail:
                    call("plasma_request_fail", W.seq, W.own_req.addr, S)
                    self.infail = True
                    mem.CUR[0] = self.seg
            RT.on_fork = fork
            r = call(fn, *low)
            RT.on_fork = None
            mem.CUR[0] = None
            HOOK[0] = None
            if W.seq is None:
                return None
            # the matrices of the call have been released: only what was allocated before counts, except through free itself
            user = {k: v for k, v in W.data.items() if v != "matrix"}
            t = touched(self.seg, user)
            if t is not None:
                return "the sequence had failed before the first operation, and %s is written" % mem.where(t)
            if i.sp.rettype == "i" and not is_S(ex, r, S):
                return "the sequence had failed before the first operation; the call returns %r instead of that status" % (r,)
            return None
        depth = [0]
        real_call = RT.call
        tasks = {}

        def rcall(entry, *a):
            # only task bodies come with a task structure
            t = a[1] if len(a) == 2 else None
            if t is None or t not in RT.taskmem or W.seq is None or RT.cur.implicit or self.infail or not RT.cur.parent.implicit:
                # parts of an operation that is already running (nested tasks) are not later operations
                return real_call(entry, *a)
            self.nt += 1
            o = mem.OBJS[t >> mem.SH]
            before = (dict(o.c), o.es, None if o.z is None else dict(o.z))
            st0 = W.status()
            req0 = mem.load(W.seq + W.qoff, 8, "p") if W.qoff is not None else 0
            seg = mem.Seg()
            mem.store(W.seq + W.soff, 4, S)
            mem.CUR[0] = seg
            self.infail = True
            cur, team = RT.cur, RT.team
            try:
                real_call(entry, *a)
            finally:
                mem.CUR[0] = None
                RT.cur, RT.team = cur, team
            self.infail = False
            tn = RT.cur.name
            b = touched(seg, W.data)
            if b is not None:
                raise Bad("a task (number %d, %s) that starts after the sequence has failed writes %s" % (self.nt, _tname(entry), mem.where(b)))
            if not is_S(ex, W.status(), S):
                raise Bad("a task (number %d, %s) that starts after the sequence has failed replaces the status" % (self.nt, _tname(entry)))
            mem.store(W.seq + W.soff, 4, st0)
            if W.qoff is not None:
                mem.store(W.seq + W.qoff, 8, req0)
            o.c, o.es, o.z = before
            return real_call(entry, *a)
        RT.call = rcall
        r = call(fn, *low)
        RT.call = real_call
        HOOK[0] = None
        if i.sp.rettype == "i" and not (r.__class__ is int and r >= 0):
            raise EngineError("%s returned %r" % (fn, r))
        return None


def _tname(entry):
    return RT.machine.fname.get(entry, "?").replace(".omp_task_entry.", "task")


class IllegalCase:
    """one argument of the asynchronous function made illegal (for every illegal value) on its way in"""

    def __init__(self, inst, name, j, kind, failed, mixed=False):
        self.inst, self.name, self.j, self.kind, self.failed = inst, name, j, kind, failed
        t, n, pos, w = PROTO[name][j]
        self.arg = n
        self.label = "%s %s %s%s (from %s)" % (name, n, kind, ", sequence already failed" if failed else "", inst.label)

    def run(self):
        ex = sym.Explorer(max_paths=64, deadline=time.time() + 100)
        for r in ex.explore(self.guarded):
            if r == "unreached":
                return Outcome(self.label, "ok")
            if r is not None:
                return Outcome(self.label, "bad", "illegal", r, dict(label=self.label, routine=self.name, arg=self.arg, vals=self.inst.vals))
        if not ex.complete:
            return Outcome(self.label, "error", "bound", "exploration not complete")
        return Outcome(self.label, "ok", sample=dict(label=self.label, fn=self.name))

    def guarded(self):
        self.inside = False
        rt = RT.run_task
        try:
            return self.one()
        except Stop as s:
            return "accepted: it goes on to submit tasks" if str(s) == "task" else None
        except Bad as b:
            return str(b)
        except Violation as v:
            if self.inside:
                # some routines stop the program on a NULL sequence or request
                return None if v.kind == "exit" and self.kind == "NULL" else v.msg
            raise
        finally:
            HOOK[0] = None
            RT.__dict__.pop("run_task", None)
            mem.CUR[0] = None

    def one(self):
        i, ex = self.inst, sym.EXP[0]
        i.start(nthreads=2, log=False, top=True)
        fp.TOPPOLICY[0] = policy(0)
        pre, (fn, args) = i.build()
        for f, a in pre:
            if call(f, *lower(a)) != 0:
                raise EngineError("setup")
        W = World()
        for a in i.arrays:
            if not isinstance(a, Desc) and a.name != "iter":
                W.data[a.p >> mem.SH] = a.name
        P = PROTO[self.name]
        names = [x[1] for x in P]
        hit = [False]

        def hook(name, real, a):
            if name != self.name:
                r = real(*a)
                if name.endswith("_create") and r == 0:
                    W.desc(a[-1])
                return r
            hit[0] = True
            a = list(a)
            sj, rj = [[x[2] for x in P if x[1] == w][0] for w in ("sequence", "request")]
            seq, req = mem.alloc(64, "user", "sequence"), mem.alloc(64, "user", "request")
            call("plasma_sequence_init", seq.addr)
            call("plasma_request_init", req.addr)
            a[sj], a[rj] = seq.addr, req.addr
            S = None
            if self.failed:
                S = sym.ivar("status")
                ex.add(S.e != 0)
                call("plasma_request_fail", seq.addr, W.own_req.addr, S)
            t, n, pos, w = P[self.j]
            if self.kind == "NULL":
                a[pos] = 0
            elif t == "plasma_desc_t":
                sz = E["sizeof_desc"]
                o = mem.alloc(sz, "stack", "byval")
                mem.memcpy(o.addr, a[pos], sz)
                v = sym.ivar("bad")
                f = self.kind
                if f == "precision":
                    ex.add(z3.And([v.e != E["Plasma" + x] for x in ("RealFloat", "RealDouble", "ComplexFloat", "ComplexDouble")]))
                else:
                    ex.add(v.e <= 0 if f in ("mb", "nb") else v.e < 0)
                mem.store(o.addr + E["off_" + f], 4, v)
                a[pos] = o.addr
            else:
                v = sym.ivar("bad")
                e = i.env()
                setattr(e, n, v.e)
                q = i.sp.legal[n](e)
                ex.add(z3.Not(q) if not isinstance(q, bool) else z3.BoolVal(not q))
                a[pos] = v
            if sym.check(ex.solver) == z3.unsat:
                raise Stop("none")
            seg = mem.Seg()

            def nomore(*x, **k):
                raise Stop("task")
            RT.run_task = nomore
            self.inside = True
            mem.CUR[0] = seg
            real(*a)
            mem.CUR[0] = None
            self.inside = False
            b = touched(seg, W.data)
            if b is not None:
                raise Bad("%s is written" % mem.where(b))
            # gels documents transposition as not supported in complex arithmetic and says so
            ok = (ILL, -102) if self.name.endswith("gels") and n == "trans" else (ILL,)
            if a[sj]:
                st = mem.load(a[sj] + W.soff, 4, "i")
                if self.failed and not is_S(ex, st, S):
                    raise Bad("the sequence had failed before; its first error is replaced by %r" % (st,))
                if not self.failed and st not in ok:
                    raise Bad("the status of the sequence is %r instead of PlasmaErrorIllegalValue" % (st,))
            if a[rj]:
                st = mem.load(a[rj] + W.roff, 4, "i")
                if st not in ok:
                    raise Bad("the status of the request is %r instead of PlasmaErrorIllegalValue" % (st,))
            raise Stop("done")
        HOOK[0] = hook
        low = lower(args)
        r = call(fn, *low)
        return None if hit[0] else "unreached"


def sizes(sets):
    def f(names):
        out = []
        for s in sets:
            v = {}
            for q, n in enumerate(names):
                if n in ("kl", "ku", "kd"):
                    v[n] = s[3]
                elif n == "nrhs":
                    v[n] = 3
                else:
                    v[n] = s[("m", "n", "k").index(n)]
            out.append(v)
        return out
    return f


only = os.environ.get("C20_ONLY")
cases = []
SKIP = []
TRANSL = ("gemm", "trmm", "gbsv", "pbsv", "hetrf", "geadd")     # the callers from which the layout translations are tested
for sp in api.specs():
    for pr in sp.precs:
        fn = api.fname(sp, pr)
        if not fn or sp.base == "gesdd" or (only and sp.base not in only.split(",")):
            continue
        if QUICK and pr[0] in "sc" and pr not in ("cz", "sd"):
            continue
        full = pr[0] == "z" or not QUICK
        S = sizes([(5, 4, 3, 2)] if not full else [(5, 4, 3, 2), (4, 5, 3, 2)] if QUICK else [(5, 4, 3, 2), (4, 5, 3, 2), (7, 7, 7, 3), (3, 7, 5, 0), (7, 3, 2, 4)])
        trees = (False, True) if any(x in sp.base for x in ("qr", "lq", "gels")) else (False,)
        first = {}
        for tree in trees:
            for i in instances(sp, pr, S, nb=2, tree=tree):
                cases.append(SeqCase(i, "task"))
                cases.append(SeqCase(i, "start"))
                first.setdefault(tree, i)
        for i in list(first.values())[:1]:
            om = fn.replace("plasma_", "plasma_omp_")
            fns = [om] + [n for n in sorted(PROTO) if re.match(r"plasma_omp_[%s](ge2desc|desc2ge|pb2desc|desc2pb|tr2desc|desc2tr)$" % pr[0], n)]
            for name in fns:
                if name not in PROTO or name not in core.MACH.defs:
                    SKIP.append(name)
                    continue
                if name != om and (sp.base not in TRANSL or pr != pr[0]):
                    continue
                pend = []
                for j, (t, n, pos, w) in enumerate(PROTO[name]):
                    kinds = []
                    if n in ("sequence", "request"):
                        kinds = ["NULL"]
                    elif t == "plasma_desc_t":
                        kinds = ["precision", "mb", "nb", "m", "n"]
                    elif t == "plasma_enum_t":
                        kinds = ["option"] if n in sp.legal else []
                        if not kinds:
                            SKIP.append("%s %s" % (name, n))
                    elif name != om and n in ("pA", "lda"):
                        kinds = ["NULL"] if n == "pA" else []
                    for k in kinds:
                        for failed in (False, True):
                            pend.append(IllegalCase(i, name, j, k, failed))
                cases += pend
C.extra["arguments_not_made_illegal"] = sorted(set(SKIP))
C.bounds = dict(status="every nonzero earlier status (symbolic 32-bit value)", point="failure before the first operation, and before every single task of every routine",
                arguments="every option argument: every illegal value; every descriptor: illegal precision, tile sizes and dimensions (all values); NULL sequence, request, LAPACK array",
                sizes="2 x 3 tiles of 2, ragged (thorough: up to 4 x 4); every legal combination of options; flat and tree QR")
C.outside = ["gesdd and stevx2", "scratch arrays (norm workspaces, panel scratch) of a failed sequence", "iter of the mixed-precision solvers", "failure in the middle of a running task"]
if __name__ == "__main__":
    C.run_cases(cases)
    C.finish(validate=0)
