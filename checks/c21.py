"""C21: public calls touch exactly the memory they may touch.  Leading dimensions are symbolic; every access to a caller's array is
translated by the solver; elements nothing may depend on (uninitialised memory, the other triangle, rows outside the band) carry marks
that follow the data, and no result may carry one."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from chk import *
from poly import Taint
from race import *
import api

C = Check("C21", "zcds")
C.start()
E = setc()
LDMAX = 1 << 30
UP, LO, GE = E["PlasmaUpper"], E["PlasmaLower"], E["PlasmaGeneral"]
UNIT, NOTR = E["PlasmaUnit"], E["PlasmaNoTrans"]

ALL = lambda i, j: True


def tri(uplo, unit=False):
    if uplo == GE:
        return ALL
    return (lambda i, j: i < j or (i == j and not unit)) if uplo == UP else (lambda i, j: i > j or (i == j and not unit))


def flip(f):
    return lambda i, j: f(j, i)


def roles(sp, e):
    """array -> (reads, writes): which elements the call may depend on, which it may change (None: none)"""
    b = sp.base
    u = getattr(e, "uplo", None)
    unit = getattr(e, "diag", None) == UNIT
    A1 = lambda rd, wr: dict(A=(rd, wr))
    if b == "gemm" or b == "gbmm":
        return dict(A=(ALL, None), B=(ALL, None), C=(ALL, ALL))
    if b in ("symm", "hemm"):
        return dict(A=(tri(u), None), B=(ALL, None), C=(ALL, ALL))
    if b in ("syrk", "herk", "syr2k", "her2k"):
        return dict(A=(ALL, None), B=(ALL, None), C=(tri(u), tri(u)))
    if b in ("trmm", "trsm"):
        return dict(A=(tri(u, unit), None), B=(ALL, ALL))
    if b == "trtri":
        return A1(tri(u, unit), tri(u, unit))
    if b in ("lauum", "potrf", "potri", "poinv"):
        return A1(tri(u), tri(u))
    if b == "posv":
        return dict(A=(tri(u), tri(u)), B=(ALL, ALL))
    if b == "potrs":
        return dict(A=(tri(u), None), B=(ALL, ALL))
    if b in ("pbtrf", "pbsv", "pbtrs"):
        band = (lambda r, j: r >= e.kd - j) if u == UP else (lambda r, j: j + r < e.n)
        return dict(AB=(band, None if b == "pbtrs" else band), B=(ALL, ALL))
    if b in ("gbtrf", "gbsv", "gbtrs", "langb", "%gbsv"):
        m = getattr(e, "m", e.n)
        kl, ku = e.kl, e.ku
        row = lambda r, j: j + r - ku - kl
        inb = lambda r, j: -ku <= row(r, j) - j <= kl and 0 <= row(r, j) < m
        # inside the matrix but outside the band the tile layout takes what the array holds: the caller provides zeros (and in the
        # factored matrix whatever the factorization left there)
        mat = lambda r, j: 0 <= row(r, j) < m
        rd = lambda r, j: True if inb(r, j) or b == "gbtrs" and mat(r, j) else "0" if mat(r, j) else False
        if b == "langb":
            return dict(AB=(rd, None))
        if b == "gbtrs":
            return dict(AB=(rd, None), B=(ALL, ALL))
        if b == "%gbsv":
            return dict(AB=(rd, mat), B=(ALL, None), X=(None, ALL))
        return dict(AB=(rd, mat), B=(ALL, ALL))
    if b == "geadd":
        return dict(A=(ALL, None), B=(ALL, ALL))
    if b == "tradd":
        return dict(A=(tri(u) if e.transa == NOTR else flip(tri(u)), None), B=(tri(u), tri(u)))
    if b == "lacpy":
        return dict(A=(tri(u), None), B=(None, tri(u) if e.transa == NOTR else flip(tri(u))))
    if b == "laset":
        return A1(None, tri(u))
    if b == "lascl":
        return A1(tri(u), tri(u))
    if b in ("lange", "amax"):
        return A1(ALL, None)
    if b in ("lansy", "lanhe"):
        return A1(tri(u), None)
    if b == "lantr":
        return A1(tri(u, unit), None)
    if b in ("geswp", "getri", "getri_aux", "geinv", "getrf", "geqrf", "gelqf"):
        return A1(ALL, ALL)
    if b in ("gesv", "gels"):
        return dict(A=(ALL, ALL), B=(ALL, ALL))
    if b in ("getrs", "geqrs", "gelqs"):
        return dict(A=(ALL, None), B=(ALL, ALL))
    if b in ("unmqr", "unmlq"):
        return dict(A=(ALL, None), C=(ALL, ALL))
    if b in ("ungqr", "unglq"):
        return dict(A=(ALL, None), Q=(None, ALL))
    if b == "hetrf":
        return dict(A=(tri(LO), tri(LO)), T=(None, ALL))
    if b == "hesv":
        return dict(A=(tri(LO), tri(LO)), T=(None, ALL), B=(ALL, ALL))
    if b == "hetrs":
        return dict(A=(tri(LO), None), T=(ALL, None), B=(ALL, ALL))
    if b == "%gesv":
        return dict(A=(ALL, ALL), B=(ALL, None), X=(None, ALL))
    if b == "%posv":
        return dict(A=(tri(u), tri(u)), B=(ALL, None), X=(None, ALL))
    if b == "lag2":
        return dict(A=(ALL, None), As=(None, ALL))
    raise EngineError("no region table for " + b)


class MemCase:
    def __init__(self, inst, pol=0, fixed=None):
        self.inst, self.pol, self.fixed = inst, pol, fixed or {}
        self.label = inst.label + "".join(" %s+%d" % kv for kv in self.fixed.items()) + (" data%d" % pol if pol else "") + ("" if not inst.scal else " " + " ".join("%s=%s" % kv for kv in sorted(inst.scal.items())))

    def run(self):
        ex = sym.Explorer(max_paths=128, deadline=time.time() + 120)
        try:
            for r in ex.explore(self.one):
                if r is not None:
                    return Outcome(self.label, "bad", r[0], r[1], dict(label=self.label, routine=self.inst.fn, vals=self.inst.vals, ld=r[2]))
        except Violation as v:
            return Outcome(self.label, "bad", v.kind, v.msg, dict(label=self.label, routine=self.inst.fn, vals=self.inst.vals, ld=v.data))
        finally:
            mem.STR.clear()
            blas.SYMLD[0] = False
        if not ex.complete:
            return Outcome(self.label, "error", "bound", "exploration not complete")
        return Outcome(self.label, "ok", sample=dict(label=self.label, fn=self.inst.fn, accesses=self.n))

    def one(self):
        i, ex = self.inst, sym.EXP[0]
        i.start(nthreads=2, log=False, top=True)
        fp.TOPPOLICY[0] = policy(self.pol)
        sp, e, p0 = i.sp, i.e, i.pr[0]
        rl = roles(sp, i.env())
        self.n = 0
        pre, (fn, args) = i.build()
        for f, a in pre:
            if call(f, *lower(a)) != 0:
                raise EngineError("setup")
        mem.JUNK[0] = lambda o, off: Taint("uninitialised memory (%s, byte %d)" % (mem.where(o.addr), off))
        low = lower(args)
        strs = {}
        pos = 0
        arrs = {a.name: a for a in i.arrays if isinstance(a, Arr)}
        # replace every array and its leading dimension
        byp = {a.p: a for a in arrs.values()}
        ldpos = {}
        k = 0
        names = [n for kk, n in sp.args]
        flat = list(low)
        # positions in the lowered argument list
        at = {}
        q = 0
        for (kk, n), a in zip(sp.args, args):
            at[n] = q
            q += len(lower([a]))
        for n, a in arrs.items():
            ldn = [x for x in names if x.lower() == "ld" + n.lower()][0]
            lo = i.vals[ldn]
            L = sym.ivar(ldn)
            hi = LDMAX
            if ldn in self.fixed:
                lo = hi = lo + self.fixed[ldn]
            ex.add(z3.And(L.e >= lo, L.e <= hi))
            S = mem.strided(a.P.sz, a.m, a.n, L, lo, hi, n)
            rd, wr = rl[n]
            init = {}
            for c in range(a.n):
                for r in range(a.m):
                    ad = S.o.addr + (r + c * a.m) * a.P.sz
                    ok = rd is not None and rd(r, c)
                    v = 0 if ok == "0" else poly.Top() if ok else Taint("%s(%d,%d), which is not part of the input" % (n, r, c))
                    for part in range(0, a.P.sz, a.P.es):
                        mem.store(ad + part, a.P.es, v)
                        init[r, c, part] = v
            strs[n] = (S, a, wr, init)
            flat[at[n]] = S.base
            flat[at[ldn]] = L if lo < hi else lo
        blas.SYMLD[0] = True
        ints = {a.name: (a, dict(a.o.c)) for a in i.arrays if isinstance(a, Ints)}
        r = call(fn, *flat)
        blas.SYMLD[0] = False
        lds = lambda: {n: mem._model(ex, None).eval(S[0].ld.e, True).as_signed_long() for n, S in strs.items()}
        if sp.rettype == "i" and not (r.__class__ is int and r >= 0):
            raise EngineError("%s returned %r" % (fn, r))
        if sp.rettype == "f" and r.__class__ is Taint:
            return "uninit", "the result depends on %s" % r.name, lds()
        done = sp.rettype == "f" or r == 0
        for n, (S, a, wr, init) in strs.items():
            self.n += len(init)
            for (x, y, part), v in init.items():
                w = S.o.c.get((x + y * a.m) * a.P.sz + part)
                if w is v and v.__class__ is not int:
                    if wr is not None and wr(x, y) and done and v.__class__ is Taint and not (sp.base in ("hesv", "hetrf") and n == "T"):
                        return "uninit", "%s(%d,%d) is not computed" % (n, x, y), lds()
                    continue
                if w.__class__ is int and w == v:
                    continue
                if wr is None:
                    return "frame", "the input argument %s changes at (%d,%d)" % (n, x, y), lds()
                if not wr(x, y):
                    return "frame", "%s(%d,%d) is outside the referenced part and changes" % (n, x, y), lds()
                if w.__class__ is Taint:
                    return "uninit", "%s(%d,%d) depends on %s" % (n, x, y, w.name), lds()
                if w is None or w.__class__ is Undef:
                    return "uninit", "%s(%d,%d) becomes undefined" % (n, x, y), lds()
        for kk, n in sp.args:
            if kk == "q" and ints[n][0].o.c != ints[n][1]:
                return "frame", "the pivot vector %s changes" % n, lds()
            if kk == "p" and done:
                a = ints[n][0]
                for x in range(len(ints[n][1])):
                    w = a.o.c.get(4 * x)
                    if w.__class__ is not int:
                        return "uninit", "%s[%d] is %r" % (n, x, w), lds()
        return None


def sizes(sets):
    def f(names):
        out = []
        for s in sets:
            v = {}
            for q, n in enumerate(names):
                if n in ("kl", "ku", "kd"):
                    v[n] = s[3]
                elif n == "nrhs":
                    v[n] = s[4]
                else:
                    v[n] = s[("m", "n", "k").index(n)]
            out.append(v)
        return out
    return f


# leading dimensions that determine the layout of a descriptor: a few values each instead of all of them
FIXED = {"pbsv": "ldb", "hetrf": "ldt", "hesv": "ldt", "hetrs": "ldt"}
only = os.environ.get("C21_ONLY")
cases = []
QS = [(5, 4, 3, 2, 3), (4, 5, 3, 1, 1), (3, 3, 3, 0, 2)]
TS = QS + [(7, 5, 6, 3, 4), (5, 7, 2, 4, 5), (1, 1, 1, 0, 1), (2, 6, 1, 1, 1), (6, 2, 5, 1, 6), (8, 8, 8, 3, 3)]
for sp in api.specs():
    for pr in sp.precs:
        fn = api.fname(sp, pr)
        if not fn or sp.base == "gesdd" or (only and sp.base not in only.split(",")):
            continue
        S = sizes(TS if not QUICK else QS if pr[0] in "zd" else QS[:1])
        trees = (False, True) if any(x in sp.base for x in ("qr", "lq", "gels")) else (False,)
        scals = [{}]
        if any(n == "beta" for k, n in sp.args) and sp.base != "laset":
            scals.append({"beta": "0"})
        for tree in trees:
            for sc in scals:
                for i in instances(sp, pr, S, nb=2, tree=tree, scal=sc):
                    if sp.base in FIXED:
                        cases += [MemCase(i, fixed={FIXED[sp.base]: x}) for x in (0, 1, 3)]
                    else:
                        cases.append(MemCase(i))
                    if sp.base in ("getrf", "gesv", "gbtrf", "gbsv", "hetrf", "hesv", "%gesv", "%posv", "%gbsv"):
                        cases += [MemCase(i, p, {FIXED[sp.base]: 1} if sp.base in FIXED else None) for p in ((1,) if QUICK else (1, 2, 3))]
C.bounds = dict(leading_dimensions="symbolic: every value from the smallest legal one to 2^30, independently for every array",
                sizes="up to 3 tiles of 2 in each dimension, ragged (thorough: up to 4)", options="every legal combination", trees="flat and tree QR",
                data="comparisons of data follow fixed policies (2 of them; thorough 4); all other data are unknown")
C.outside = ["gesdd and stevx2", "one panel thread (mtpf = 1)"]
if __name__ == "__main__":
    C.run_cases(cases)
    C.finish(validate=0)
