"""C26: the statically scheduled band-to-bidiagonal reduction.
The real code (plasma_{z,c,d,s}gesdd up to the end of the bulge chasing) runs once with T threads.  Accesses to the progress table become
events: a read is a solver variable with the condition under which the code goes on, a write has its value; everything between two events
is a segment with the set of elements it reads and writes.  The solver then decides, over every interleaving of the events of all threads
(every order consistent with program order in which each read sees the last write), (1) whether some interleaving runs two segments that
touch a common element in another order than the reference run or at the same time, (2) whether the threads can get stuck, each unfinished
thread at a read whose condition the final value of the table does not meet.  The reference order is compared with the run of one thread."""
import sys, os, subprocess, tempfile, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from chk import *
import fp, mem, core, machine, z3, blas, build
from race import conflicts, where

C = Check("C26", "zcds")
C.start()
E = setc()


class S:
    on = False              # between the start and the end of the bulge chasing
    vol = False
    thr = {}
    n = 0


class LSet(set):
    """remembers when it was first used"""
    __slots__ = ("seg",)

    def add(self, x):
        g = self.seg
        if g.idx is None:
            g.idx = S.n
            S.n += 1
            S.order.append(g)
        set.add(self, x)

    def update(self, *xs):
        for l in xs:
            for x in l:
                self.add(x)


class Seg(mem.Seg):
    __slots__ = ("ids", "pos")

    def __init__(self, task, pos):
        mem.Seg.__init__(self, task, None)
        self.rd, self.wr = LSet(), LSet()
        self.rd.seg = self.wr.seg = self
        self.ids = []
        self.pos = pos


class Thr:
    def __init__(self, task):
        self.task = task
        self.ev = []            # (kind, address, value/variable, [conditions], current value)
        self.seg = [Seg(task, 0)]

    def event(self, kind, a, v, cur=None):
        self.ev.append((kind, a, v, [], cur))
        s = Seg(self.task, len(self.ev))
        self.seg.append(s)
        mem.CUR[0] = s


def me():
    t = RT.cur.tid
    return S.thr.get(t)


def empty(s):
    """nothing was done since the last event that another thread could see or that uses shared data"""
    for a in s.wr:
        if mem.obj_of(a) is not None and mem.obj_of(a).kind != "stack":
            return False
    for a in s.rd:
        o = mem.obj_of(a)
        if o is not None and o.kind == "heap" and o.es == S.es and o.c:
            return False
    return True


def table(p):
    return p.__class__ is int and p >> mem.SH in S.tabs


ld0, st0 = mem.load, mem.store


def ld(p, n, k):
    if S.on:
        v = S.vol
        S.vol = False
        if v and p.__class__ is int and RT.team is not None:
            o = mem.obj_of(p)
            if o is not None and o.kind != "stack":
                S.tabs.add(o.id)
        if S.tabs and table(p) and me() is not None:
            s, mem.CUR[0] = mem.CUR[0], None
            x = ld0(p, n, k)
            mem.CUR[0] = s
            if x.__class__ is not int:
                raise Violation("uninit", "the progress table is read before it is written: %s" % where(p))
            t = me()
            # a new look at an entry that was looked at before without doing anything in between: the earlier look did not let the thread go on
            j = len(t.ev)
            while j > 0 and t.ev[j - 1][0] == "rd" and empty(t.seg[j]):
                j -= 1
                if t.ev[j][1] == p:
                    del t.ev[j:], t.seg[j + 1:]
                    break
            S.nv += 1
            var = z3.BitVec("r%d" % S.nv, 8 * n)
            t.event("rd", p, var, x)
            return SymInt(8 * n, var)
    return ld0(p, n, k)


def st(p, n, v):
    if S.on and S.tabs and table(p) and me() is not None:
        if v.__class__ is not int:
            raise EngineError("value written to the progress table is not known: %r" % (v,))
        s, mem.CUR[0] = mem.CUR[0], None
        st0(p, n, v)
        mem.CUR[0] = s
        me().event("wr", p, v & ((1 << 8 * n) - 1))
        if machine.SCHED[0] is not None:
            machine.SCHED[0].progress()
        return
    return st0(p, n, v)


vy0 = machine.vyield


def vy():
    vy0()
    S.vol = True


machine.load, machine.store, machine.vyield = ld, st, vy


class Conc:
    """decides branches on the values read from the table as in the run at hand and records the condition"""

    def branch(self, b):
        e = b.z()
        t = me()
        vs = [(v, x) for k, a, v, c, x in t.ev if k == "rd" and v.size()]
        r = z3.simplify(z3.substitute(e, *[(v, z3.BitVecVal(x, v.size())) for v, x in vs[-8:]]))
        if not (z3.is_true(r) or z3.is_false(r)):
            r = z3.simplify(z3.substitute(e, *[(v, z3.BitVecVal(x, v.size())) for v, x in vs]))
        if not (z3.is_true(r) or z3.is_false(r)):
            raise EngineError("branch on an unknown value in the static schedule")
        for q in range(len(t.ev) - 1, -1, -1):
            if t.ev[q][0] == "rd":
                t.ev[q][3].append(e if z3.is_true(r) else z3.Not(e))
                break
        return z3.is_true(r)

    def __getattr__(self, n):
        raise EngineError("value of the progress table used in an unexpected way (%s)" % n)


ORIG = {}


def over(name, f):
    if name in core.MACH.defs:
        def g(*a):
            o = ORIG.get(name)
            if o is None:
                o = ORIG[name] = core.MACH.translate(*core.MACH.defs[name])
                core.MACH.encoded.add(name)
            return f(o, *a)
        core.MACH.override[name] = g


def kernel(name, pr):
    def f(o, *a):
        t = me()
        if S.on and t is not None:
            ints = tuple(x for x in a if x.__class__ is int and x < 1 << mem.SH)
            t.seg[-1].ids.append((name,) + ints)
        return o(*a)
    return f


def gbbrd(o, *a):
    """the bulge chasing: everything of interest happens here, the caller is left afterwards"""
    S.on, S.thr, S.n, S.order, S.tabs, S.nv, S.vol = True, {}, 0, [], set(), 0, False
    fork0 = RT.fork
    call0 = RT.call

    def fork(fn, args, n):
        # an earlier region must not have worked on the band (its kernels are not ordered by the table alone)
        if any(t.ev or any(s.ids for s in t.seg) for t in S.thr.values()):
            raise EngineError("two regions work on the band")
        S.thr, S.order, S.n = {}, [], 0
        bar = RT.barrier

        def nobar():
            if n > 1:
                raise EngineError("barrier inside the static schedule")
        RT.barrier = nobar
        RT.call = lambda f, *args: (enter(n), call0(f, *args))[1]
        try:
            return fork0(fn, args, n)
        finally:
            RT.call = call0
            RT.barrier = bar
            mem.CUR[0] = None

    def enter(n):
        c = RT.cur
        if c.tid in S.thr:
            return
        t = S.thr[c.tid] = Thr(c)
        mem.CUR[0] = t.seg[0]
    RT.fork = fork
    ex, sym.EXP[0] = sym.EXP[0], Conc()
    try:
        o(*a)
    finally:
        sym.EXP[0] = ex
        del RT.fork
        S.on = False
        S.vol = False
        mem.CUR[0] = None
    raise sym.Stop("chased")


for p in "zcds":
    over("plasma_p%sgbbrd_static" % p, gbbrd)
    for k in "123":
        over("plasma_core_%sgbtype%scb" % (p, k), kernel("type%s" % k, p))
    over("plasma_p%sge2gb" % p, lambda o, *a: None)


def concval(ev, val):
    """is the condition of this read met by the value"""
    v = ev[2]
    for c in ev[3]:
        r = z3.simplify(z3.substitute(c, (v, z3.BitVecVal(val, v.size()))))
        if z3.is_false(r):
            return False
        if not z3.is_true(r):
            raise EngineError("condition on several entries of the progress table")
    return True


class Case:
    def __init__(self, pr, m, n, nb, T, vec, table=False):
        self.pr, self.m, self.n, self.nb, self.T, self.vec, self.table = pr, m, n, nb, T, vec, table
        self.label = "plasma_%sgesdd bulge chasing %dx%d nb%d %s %d threads%s" % (pr, m, n, nb, "vectors" if vec else "values", T, " (table)" if table else "")

    def go(self, T):
        pr, m, n, nb = self.pr, self.m, self.n, self.nb
        begin(nthreads=T, top=True, coop=T > 1)
        P = blas.PRS[pr]
        S.es = P.es
        RT.call = core.MACH.call_addr
        RT.maxthreads = T
        if call("plasma_init") != 0:
            raise EngineError("plasma_init")
        call("plasma_set", E["PlasmaTuning"], E["PlasmaDisabled"])
        call("plasma_set", E["PlasmaNb"], nb)
        call("plasma_set", E["PlasmaIb"], max(1, nb // 2))
        mn = min(m, n)
        A = mem.alloc(m * n * P.sz, "user", "A")
        T_ = mem.alloc(E["sizeof_desc"], "user", "T")
        sv = mem.alloc(mn * P.es, "user", "S")
        U = mem.alloc(m * m * P.sz, "user", "U")
        V = mem.alloc(n * n * P.sz, "user", "VT")
        for k in range(m * n):
            P.put(A.addr + k * P.sz, TOP)
        job = E["PlasmaSomeVec"] if self.vec else E["PlasmaNoVec"]
        try:
            call("plasma_%sgesdd" % pr, job, job, m, n, A.addr, m, T_.addr, sv.addr, U.addr, m, V.addr, n)
        except sym.Stop:
            pass
        else:
            raise EngineError("the bulge chasing was not reached")
        return S.thr, S.order

    def run(self):
        thr1, ord1 = self.go(1)
        seq = [i for s in ord1 for i in s.ids]
        ref = {i: k for k, i in enumerate(seq)}
        if len(ref) != len(seq):
            ref = None
        thr, order = self.go(self.T)
        ran = [i for s in order for i in s.ids]
        if ref is not None and sorted(ran) != sorted(seq):
            miss = [i for i in seq if i not in ran] or [i for i in ran if i not in ref] or [i for i in ran if ran.count(i) > 1]
            return Outcome(self.label, "bad", "schedule", "with %d threads the kernel %s%s runs %d times, with one thread %d times" % (
                self.T, miss[0][0], miss[0][1:], ran.count(miss[0]), seq.count(miss[0])), None)
        nodes = order
        pairs = conflicts(nodes)
        # reference order against the order of one thread
        if ref is not None:
            for a, b in pairs:
                x, y = nodes[a], nodes[b]
                if x.ids and y.ids and max(ref[i] for i in x.ids) > min(ref[i] for i in y.ids):
                    return Outcome(self.label, "bad", "order", "in the run with %d threads %s%s comes before %s%s, with one thread after it; both touch %s" % (
                        self.T, x.ids[0][0], x.ids[0][1:], y.ids[0][0], y.ids[0][1:], where(pairs[a, b][0])),
                        dict(replay="order", pr=self.pr, m=self.m, n=self.n, nb=self.nb, T=self.T, vec=self.vec, order=ran))
        if self.table:          # large teams: only the accesses to the table and the order of the reference run
            return Outcome(self.label, "ok", sample=dict(label=self.label, fn="plasma_p%sgbbrd_static" % self.pr, kernels=len(ran)))
        allp = pairs
        pairs = [(a, b) for a, b in pairs if nodes[a].task is not nodes[b].task]
        tids = sorted(thr)
        # ---- encoding
        ev = [(t, k) for t in tids for k in range(len(thr[t].ev))]
        ti = {e: z3.Int("t%d_%d" % e) for e in ev}
        ex = {e: z3.Bool("x%d_%d" % e) for e in ev}
        E_ = lambda e: thr[e[0]].ev[e[1]]
        wr = {}
        for e in ev:
            if E_(e)[0] == "wr":
                wr.setdefault(E_(e)[1], []).append(e)
        base = []
        for t in tids:
            for k in range(len(thr[t].ev) - 1):
                base.append(ti[t, k] < ti[t, k + 1])
                base.append(z3.Implies(ex[t, k + 1], ex[t, k]))
        stuck = {}
        for e in ev:
            k, a, v, cs, x = E_(e)
            if k != "rd" or not cs:
                continue
            ws = wr.get(a, [])
            good = [w for w in ws if concval(E_(e), E_(w)[2])]
            bad = [w for w in ws if w not in good]
            g0 = concval(E_(e), 0)
            alt = []
            for w in good:
                if w[0] == e[0] and w[1] > e[1]:
                    continue
                c = [ex[w], ti[w] < ti[e]]
                for w2 in bad:
                    if w2[0] == w[0] and w2[1] < w[1] or w2[0] == e[0] and w2[1] > e[1]:
                        continue
                    if w2[0] == w[0] == e[0] and w[1] < w2[1] < e[1]:
                        c.append(z3.BoolVal(False))
                    c.append(z3.Or(z3.Not(ex[w2]), ti[w2] < ti[w], ti[w2] > ti[e]))
                alt.append(z3.And(c))
            if g0:
                alt.append(z3.And([z3.Or(z3.Not(ex[w2]), ti[w2] > ti[e]) for w2 in bad] or [z3.BoolVal(True)]))
            base.append(z3.Implies(ex[e], z3.Or(alt) if alt else z3.BoolVal(False)))
            st_ = [z3.And([ex[w]] + [z3.Or(z3.Not(ex[g]), ti[g] < ti[w]) for g in good]) for w in bad]
            if not g0:
                st_.append(z3.And([z3.Not(ex[g]) for g in good] or [z3.BoolVal(True)]))
            stuck[e] = z3.Or(st_) if st_ else z3.BoolVal(False)

        def solver():
            s = z3.Solver()
            s.set("timeout", 240000)
            s.add(base)
            return s

        def trace(m, full):
            es = [e for e in ev if full or z3.is_true(m.eval(ex[e], True))]
            es.sort(key=lambda e: m.eval(ti[e], True).as_long())
            return es
        # ---- (2) deadlock: every thread is at its end or before a read that does not let it go on
        s = solver()
        fin = []
        for t in tids:
            n = len(thr[t].ev)
            if not n:
                continue
            at = [z3.And(ex[t, n - 1])]
            fin.append(at[0])
            for k in range(n):
                c = stuck.get((t, k))
                if c is not None:
                    at.append(z3.And(([ex[t, k - 1]] if k else []) + [z3.Not(ex[t, k]), c]))
            s.add(z3.Or(at))
        if fin:
            s.add(z3.Not(z3.And(fin)))
            r = sym.check(s)
            if r == z3.unknown:
                raise EngineError("no answer on the deadlock query")
            if r == z3.sat:
                m = s.model()
                w = []
                for t in tids:
                    ks = [k for k in range(len(thr[t].ev)) if not z3.is_true(m.eval(ex[t, k], True))]
                    if ks:
                        nxt = [s_ for s_ in thr[t].seg[ks[0] + 1:] if s_.ids]
                        w.append("thread %d at entry %d%s" % (t, (E_((t, ks[0]))[1] - mem.obj_of(E_((t, ks[0]))[1]).addr) // 4, " before %s%s" % (nxt[0].ids[0][0], nxt[0].ids[0][1:]) if nxt else ""))
                return Outcome(self.label, "bad", "deadlock", "after %d steps nobody can go on: %s" % (len(trace(m, False)), "; ".join(w)), self.sched(thr, trace(m, False), None))
        # ---- (1) order of conflicting segments
        s = solver()
        s.add([ex[e] for e in ev])
        q = []
        for a, b in pairs:
            x, y = nodes[a], nodes[b]
            pa = (x.task.tid, x.pos)                # the event after the segment x
            pb = (y.task.tid, y.pos - 1)            # the event before the segment y
            if pa not in ti or pb not in ti:
                q.append((z3.BoolVal(True), a, b))
            else:
                q.append((ti[pb] < ti[pa], a, b))
        if q:
            s.add(z3.Or([c for c, _, _ in q]))
            r = sym.check(s)
            if r == z3.unknown:
                raise EngineError("no answer on the order query")
            if r == z3.sat:
                m = s.model()
                for c, a, b in q:
                    if z3.is_true(m.eval(c, True)):
                        x, y = nodes[a], nodes[b]
                        ad = allp[a, b][0]
                        return Outcome(self.label, "bad", "race", "%s can run before or while %s runs; both touch %s" % (
                            name(y), name(x), where(ad)), self.sched(thr, trace(m, True), (x, y)))
        return Outcome(self.label, "ok", sample=dict(label=self.label, fn="plasma_p%sgbbrd_static" % self.pr, kernels=len(ran), events=len(ev), pairs=len(pairs), threads=len([t for t in tids if thr[t].ev])))

    def sched(self, thr, tr, pair):
        """the order in which the kernels start"""
        out = []
        for t, k in tr:
            for i in thr[t].seg[k + 1].ids:
                out.append(i)
        if pair and all(s.ids for s in pair):
            # the second of the pair does not wait for the first: let it run first
            x, y = pair[0].ids[0], pair[1].ids[0]
            if x in out and y in out and out.index(x) < out.index(y):
                out.remove(x)
                out.insert(out.index(y) + 1, x)
        return dict(replay="order", pr=self.pr, m=self.m, n=self.n, nb=self.nb, T=self.T, vec=self.vec, order=out)


def name(s):
    return "%s%s of thread %d" % (s.ids[0][0], s.ids[0][1:], s.task.tid) if s.ids else "a step of thread %d" % s.task.tid


NCONF = [0]


def confirm(o):
    d = o.data
    if not d:
        return None
    NCONF[0] += 1
    if NCONF[0] > 2:
        return None
    t = tempfile.mkdtemp(prefix="c26")
    try:
        od = [(int(i[0][4]), i[5], i[7]) for i in d["order"]]
        pr = d["pr"]
        with open(os.path.join(t, "order.h"), "w") as f:
            f.write("static int order[][3] = {%s};\n#define LEN %d\n#define HANG %d\n" % (",".join("{%d,%d,%d}" % x for x in od) or "{0,0,0}", len(od), o.kind == "deadlock"))
            f.write("#define NT %d\n#define NB %d\n#define M %d\n#define N %d\n#define NN %d\n#define JOB %s\n#define TOL %s\n" % (
                d["T"], d["nb"], d["m"], d["n"], max(d["m"], d["n"]) ** 2, "PlasmaSomeVec" if d["vec"] else "PlasmaNoVec", "1e-9" if pr in "zd" else "1e-3"))
            f.write("#define NUM %s\n#define REAL %s\n#define CORE(k) CORE_(k)\n#define CORE_(k) plasma_core_%sgbtype##k##cb\n#define GESDD plasma_%sgesdd\n" % (
                {"z": "plasma_complex64_t", "c": "plasma_complex32_t", "d": "double", "s": "float"}[pr], "double" if pr in "zd" else "float", pr, pr))
        so = build.native_lib(core.BDIR, C.native_precs)
        r = subprocess.run(["gcc", "-O1", "-w", "-fopenmp", *[x for x in build.NATFLAGS if x[:2] in ("-D", "-I")], "-I" + os.path.join(core.BDIR, "src", "include"), "-I" + t,
                            os.path.join(VERIF, "engine", "include", "replay_gbbrd.c"), so, "-Wl,-rpath," + os.path.dirname(so), "-ldl", "-lm", "-lpthread", "-o", t + "/r"], capture_output=True, text=True)
        if r.returncode:
            o.msg += " | native replay: not built: " + r.stderr[:200]
            return None
        try:
            x = subprocess.run([t + "/r"], capture_output=True, text=True, timeout=100, env=dict(os.environ, OPENBLAS_NUM_THREADS="1"))
        except subprocess.TimeoutExpired:
            o.msg += " | native replay: the run does not end"
            return True
        o.msg += " | native replay of the kernel order: " + x.stdout.strip()[:200]
        return x.returncode in (1, 3)
    finally:
        shutil.rmtree(t)


C.confirm = confirm
cases = []
for nb, ns in ((2, (2, 3, 4, 5, 6, 7, 8, 9, 10, 12) if QUICK else tuple(range(2, 17)) + (20,)), (3, (3, 4, 5, 7, 8, 9, 10, 12) if QUICK else tuple(range(3, 18)) + (21,)),
               (4, (4, 5, 9, 12, 13) if QUICK else tuple(range(4, 20)) + (24,)), (5, () if QUICK else tuple(range(5, 22))), (8, (17,) if QUICK else tuple(range(8, 30)))):
    for n in ns:
        for T in ((1, 2, 3, 4, 6) if QUICK else (1, 2, 3, 4, 5, 6, 8, 12)):
            for low in (0, 1):
                for vec in (0, 1):
                    if vec and nb < 4:
                        continue
                    if T > (n + nb - 1) // nb + 2:
                        continue
                    pr = "zdcs"[(n + T + low + vec + nb) % 4]
                    cases.append(Case(pr, n if low else n + 1, n + 1 if low else n, nb, T, vec))
for n, nb, T in ((30, 2, 16), (26, 2, 14), (34, 2, 24)) + (() if QUICK else ((32, 2, 17), (65, 2, 40), (48, 3, 16))):
    cases.append(Case("d", n, n + 1, nb, T, 0, True))
C.bounds = dict(sizes="min(m, n) up to %d" % (17 if QUICK else 29), nb="2, 3, 4, 8 (vectors: 4, 8)" if QUICK else "2, 3, 4, 5, 8 (vectors: 4, 5, 8)", threads="1 to %d" % (6 if QUICK else 12),
                interleavings="every interleaving of the reads and writes of the progress table (order variables, reads-from choice by the solver), sequentially consistent",
                table="bounds of the progress table and the order of one run also for min(m, n) up to %d and %d threads" % ((34, 24) if QUICK else (65, 40)),
                data="unknown (TOP): the access sets do not depend on the values")
C.outside = ["weaker memory models: the progress table consists of plain volatile ints, its accesses are taken to be sequentially consistent and to order the data accesses around them",
             "a region that gets fewer threads than the region before it", "larger sizes and thread counts", "values computed by the kernels", "vectors with nb < 4 (block size nb/4 = 0)"]
if __name__ == "__main__":
    C.run_cases(cases)
    C.finish(validate=0)
