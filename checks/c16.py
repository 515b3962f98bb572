"""C16: the mixed-precision solvers return only an iterate that met the stopping test, or the full-precision solution.

The real driver (plasma_zcgesv, zcposv, zcgbsv and their ds variants, with everything they call in control/ and compute/ down to the
tile algorithms) is executed symbolically.  The tile algorithms (plasma_pz*, plasma_pc*: decided by the other properties) are
replaced by what they mean for whole matrices: every tile matrix holds a formal expression over the caller's A and B, and the norm
of an expression is a solver variable (or a NaN).  Every outcome of every convergence test is a solver decision."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from chk import *
from inst import *
import api, fp, mem, core

C = Check("C16", "zcds")
C.start()
E = setc()
ITERMAX = 30
NAN = float("nan")
ENUM = {}
for _k, _v in E.items():
    if _k.startswith("Plasma") and 100 < _v < 1000:
        ENUM.setdefault(_v, _k[6:])


# ---- formal matrix expressions: sums of coefficient * (ordered product of atoms) ----
class Mat(dict):
    """{tuple of atoms: coefficient}"""

    def key(self):
        return tuple(sorted(((m, c) for m, c in self.items()), key=repr))

    def lin(self, a, o=None, b=0):
        r = Mat()
        for x, f in ((self, a), (o or {}, b)):
            for m, c in x.items():
                v = r.get(m, 0) + f * c
                if v == 0:
                    r.pop(m, None)
                else:
                    r[m] = v
        return r

    def mul(self, o):
        r = Mat()
        for m, c in self.items():
            for n, d in o.items():
                v = r.get(m + n, 0) + c * d
                if v == 0:
                    r.pop(m + n, None)
                else:
                    r[m + n] = v
        return r


IDS = {}


def atom(*k):
    """a new opaque matrix, the same for the same definition"""
    i = IDS.setdefault(k, len(IDS))
    return Mat({((i,)): 1})


def show(m):
    names = {i: k for k, i in IDS.items()}

    def nm(i, d=0):
        k = names[i]
        return k[1] if k[0] == "user" else "%s%d" % (k[0], i)
    return " + ".join("%s*%s" % (c, ".".join(nm(x) for x in t)) for t, c in m.items()) or "0"


class State:
    pass


S = State()


def reset():
    S.mat = {}          # matrix address -> Mat
    S.piv = {}          # pivot array address -> key of the matrix whose factorization left it
    S.norm = {}         # (what, key) -> values
    S.nlow = S.nfull = 0
    IDS.clear()


def get(a):
    a = getattr(a, "addr", a)
    m = S.mat.get(a)
    if m is None:
        m = S.mat[a] = atom("undefined", a)
    return m


def ld4(p, f):
    return mem.load(p + E["off_" + f], 4, "i")


class D:
    """what a pz routine is given: the descriptor's matrix, whole"""

    def __init__(self, p):
        if not isinstance(p, int) and hasattr(p, "addr"):
            p = p.addr
        self.addr = mem.load(p + E["off_matrix"], 8, "p")
        self.m, self.n, self.gm, self.gn = ld4(p, "m"), ld4(p, "n"), ld4(p, "gm"), ld4(p, "gn")
        if ld4(p, "i") or ld4(p, "j"):
            raise EngineError("a part of a matrix is passed on: no whole-matrix meaning")


def put(d, m):
    S.mat[d.addr] = m


def live(seq):
    return mem.load(seq, 4, "i") == 0


def num(a):
    a = lift(a)
    if a.__class__ is Poly:
        a = a.const()
    return a


def op(trans, m):
    return m if trans == E["PlasmaNoTrans"] else atom("op", trans, m.key())


def sym_(kind, uplo, m):
    return atom(kind, uplo, m.key())


ORIG = {}


def over(name, f):
    """f replaces the function while S.on"""
    if name not in core.MACH.defs:
        return

    def g(*a):
        if S.on:
            return f(*a)
        o = ORIG.get(name)
        if o is None:
            o = ORIG[name] = core.MACH.translate(*core.MACH.defs[name])
        return o(*a)
    core.MACH.override[name] = g


def factor(kind, pr):
    def f(A, seq, *pk):
        if not live(seq):
            return
        low = pr in "cs"
        if low:
            S.nlow += 1
        else:
            S.nfull += 1
        k = ("lowprec" if low else "fullprec") + " factorization"
        if S.fail and EXP[0].branch(sym.SymBool(z3.Bool("%s %d breaks down" % (k, S.nlow if low else S.nfull)))):
            call("plasma_request_fail", seq, S.req, 2)
            S.failed = True
            return
        m = get(A.addr)
        put(A, atom(kind, pr, m.key(), *pk))
        return m
    return f


EXP = sym.EXP


def install(p):
    """replace the tile algorithms of precision p"""
    cx = p in "zc"

    def sc(a, i):
        """scalar argument(s) at position i: (value, next position)"""
        if p == "z":
            re, im = num(a[i]), num(a[i + 1])
            if im != 0:
                raise EngineError("complex scalar")
            return re, i + 2
        if p == "c":
            v = a[i]
            v = v[0] if isinstance(v, (tuple, list)) else v
            v = num(v)
            return v, i + 1
        return num(a[i]), i + 1
    P = "plasma_p" + p

    def ge2desc(pA, lda, A, seq, req):
        if live(seq):
            put(D(A), get(pA))

    def desc2ge(A, pA, lda, seq, req):
        if live(seq):
            S.mat[getattr(pA, "addr", pA)] = get(D(A).addr)
    for n in ("ge2desc", "pb2desc", "gb2desc"):
        over(P + n, ge2desc)
    for n in ("desc2ge", "desc2pb"):
        over(P + n, desc2ge)

    def tr2desc(pA, lda, A, seq, req):
        ge2desc(pA, lda, A, seq, req)
    over(P + "tr2desc", tr2desc)

    def desc2tr(A, pA, lda, seq, req):
        desc2ge(A, pA, lda, seq, req)
    over(P + "desc2tr", desc2tr)

    def getrf(A, ipiv, seq, req):
        S.req = req
        A = D(A)
        m = factor("getrf", p)(A, seq)
        if m is not None:
            S.piv[getattr(ipiv, "addr", ipiv)] = (p, m.key())
    over(P + "getrf", getrf)
    over(P + "gbtrf", getrf)

    def potrf(uplo, A, seq, req):
        S.req = req
        factor("potrf", p)(D(A), seq, uplo)
    over(P + "potrf", potrf)

    def pv(ipiv):
        return S.piv.get(getattr(ipiv, "addr", ipiv), ("undefined pivots",))

    def geswp(colrow, A, ipiv, incx, seq, req):
        if live(seq):
            put(D(A), atom("swp", p, colrow, incx, pv(ipiv), get(D(A).addr).key()))
    over(P + "geswp", geswp)

    def trsm(*a):
        side, uplo, trans, diag = a[:4]
        al, i = sc(a, 4)
        A, B, seq, req = a[i:i + 4]
        if live(seq):
            put(D(B), atom("trsm", p, side, uplo, trans, diag, al, get(D(A).addr).key(), get(D(B).addr).key()))
    over(P + "trsm", trsm)

    def tbsm(*a):
        side, uplo, trans, diag = a[:4]
        al, i = sc(a, 4)
        A, B, ipiv, seq, req = a[i:i + 5]
        if live(seq):
            put(D(B), atom("tbsm", p, side, uplo, trans, diag, al, get(D(A).addr).key(), get(D(B).addr).key(), pv(ipiv)))
    over(P + "tbsm", tbsm)

    def lacpy(uplo, trans, A, B, seq, req):
        if live(seq):
            m = op(trans, get(D(A).addr))
            if uplo != E["PlasmaGeneral"]:
                m = atom("part", uplo, m.key(), get(D(B).addr).key())
            put(D(B), m)
    over(P + "lacpy", lacpy)

    def gemm(*a):
        ta, tb = a[:2]
        al, i = sc(a, 2)
        A, B = a[i:i + 2]
        be, i = sc(a, i + 2)
        Cc, seq, req = a[i:i + 3]
        if live(seq):
            put(D(Cc), op(ta, get(D(A).addr)).mul(op(tb, get(D(B).addr))).lin(al, get(D(Cc).addr), be))
    over(P + "gemm", gemm)

    def hemm(kind):
        def f(*a):
            side, uplo = a[:2]
            al, i = sc(a, 2)
            A, B = a[i:i + 2]
            be, i = sc(a, i + 2)
            Cc, seq, req = a[i:i + 3]
            if live(seq):
                h, b = sym_(kind, uplo, get(D(A).addr)), get(D(B).addr)
                x = h.mul(b) if side == E["PlasmaLeft"] else b.mul(h)
                put(D(Cc), x.lin(al, get(D(Cc).addr), be))
        return f
    over(P + "hemm", hemm("herm"))
    over(P + "symm", hemm("herm" if not cx else "symm"))

    def geadd(*a):
        ta = a[0]
        al, i = sc(a, 1)
        A = a[i]
        be, i = sc(a, i + 1)
        B, seq, req = a[i:i + 3]
        if live(seq):
            put(D(B), op(ta, get(D(A).addr)).lin(al, get(D(B).addr), be))
    over(P + "geadd", geadd)

    sz = 8 if p in "zd" else 4

    def lan(*pos):
        def f(*a):
            i = 1 + len(pos)
            A, work, value, seq, req = a[i:i + 5]
            if live(seq):
                st(value, norm(("norm", a[0]) + tuple(a[1:i]), get(D(A).addr)), sz)
        return f

    def st(addr, v, sz):
        mem.store(getattr(addr, "addr", addr), sz, v)
    over(P + "lange", lan())
    over(P + "langb", lan())
    over(P + "lanhe", lan("uplo"))
    over(P + "lansy", lan("uplo"))
    
    def amax(colrow, A, work, values, seq, req):
        if not live(seq):
            return
        d = D(A)
        m = get(d.addr)
        cnt = d.n if colrow == E["PlasmaColumnwise"] else d.m
        for j in range(cnt):
            mem.store(getattr(values, "addr", values) + j * sz, sz, norm(("amax", colrow, j), m))
    over("plasma_p" + {"z": "dzamax", "c": "scamax", "d": "damax", "s": "samax"}[p], amax)


def norm(what, m):
    k = (what, m.key())
    v = S.norm.get(k)
    if v is None:
        v = S.norm[k] = S.newnorm(what, m)
    return v


def conv(low, hi):
    l, h = low, hi
    a = {"z": "plasma_pzlag2c", "d": "plasma_pdlag2s"}[hi]
    b = {"z": "plasma_pclag2z", "d": "plasma_pslag2d"}[hi]

    def f(kind):
        def g(A, B, seq, req):
            if live(seq):
                put(D(B), atom(kind, get(D(A).addr).key()))
        return g
    over(a, f("low"))
    over(b, f("high"))


for _p in "zcds":
    install(_p)
conv("c", "z")
conv("s", "d")


class SolverCase:
    """free: refinement steps whose convergence tests are unconstrained; at the others column `bad` stays above the threshold.
    nan: (step, column, kinds) a norm that is not a number from that step on"""

    def __init__(self, base, pr, n, nrhs, nb, uplo=None, free=None, bad=0, nan=None, fail=False):
        self.base, self.pr, self.n, self.nrhs, self.nb, self.uplo = base, pr, n, nrhs, nb, uplo
        self.free, self.bad, self.nan, self.fail = free, bad, nan, fail
        self.fn = "plasma_%s%s" % ({"z": "zc", "d": "ds"}[pr], base)
        self.label = "%s n%d nrhs%d nb%d%s%s%s%s" % (self.fn, n, nrhs, nb, " " + ENUM[uplo] if uplo else "", "" if free is None else " free steps %s, otherwise only column %d fails" % (
            "+".join(map(str, sorted(free))), bad), " NaN in column %d of %s from step %d" % (nan[1], nan[2], nan[0]) if nan else "", " breakdown" if fail else "")

    def arrays(self):
        n, r, p = self.n, self.nrhs, self.pr
        ld = n + 1
        A = Arr("A", p, 5 if self.base == "gbsv" else n, n, 5 if self.base == "gbsv" else ld, top=True)
        return A, Arr("B", p, n, r, ld, top=True), Arr("X", p, n, r, ld, top=True), Ints(n, name="ipiv"), Ints(1, name="iter"), ld

    def step(self, m):
        """refinement steps in an iterate: number of terms after the first"""
        return len(m) - 1

    def newnorm(self, what, m):
        """a norm of a matrix expression: a nonnegative real number, or NaN"""
        i = len(S.norm)
        if what[0] == "amax" and self.nan is not None:
            stp, col, kinds = self.nan
            if what[2] == col and S.steps >= stp and ("X" if S.isX(m) else "R") in kinds:
                return NAN
        if what[0] == "norm" and self.nan is not None and "A" in self.nan[2]:
            return NAN
        v = poly.real("%s%d_%d" % (what[0], what[-1], i))
        EXP[0].add(fp.zterm(v)[0] >= 0)
        S.names[i] = (what, m)
        return v

    def one(self):
        reset()
        begin(nthreads=2, log=False, coop=False)
        fp.FCMPHOOK[0] = None      # comparisons of norms are solver decisions
        S.norm, S.names, S.fail, S.failed, S.req = {}, {}, self.fail, False, None
        setup_plasma(self.nb, 1, 1, False)
        n, r, p = self.n, self.nrhs, self.pr
        A, B, X, ipiv, it, ld = self.arrays()
        args = {"gesv": [n, r, A, ld, ipiv, B, ld, X, ld, it],
                "posv": [self.uplo, n, r, A, ld, B, ld, X, ld, it],
                "gbsv": [n, 1, 1, r, A, 5, ipiv, B, ld, X, ld, it]}[self.base]
        low = lower(args)
        a, b, x, itp = (o.p for o in (A, B, X, it))
        S.mat[a], S.mat[b] = atom("user", "A"), atom("user", "B")
        A0, B0 = S.mat[a], S.mat[b]
        Am = A0 if self.base != "posv" else sym_("herm", self.uplo, A0)
        S.steps = 0
        mn = E["PlasmaInfNorm"]
        akey = (("norm", mn) if self.base != "posv" else ("norm", mn, self.uplo), A0.key())
        cw = E["PlasmaColumnwise"]
        thr = {}

        def threshold(xm, j):
            nx, na = S.norm.get((("amax", cw, j), xm.key())), S.norm.get(akey)
            if nx is None or na is None:
                return None
            # sqrt(n)*Xnorm*Anorm*eps*BWDmax with BWDmax = 1 and eps = 2^-53
            if nx.__class__ is float or na.__class__ is float:
                return NAN
            return nx * na * (poly.sqrt_(n) * Q(1, 2 ** 53))
        self.threshold = threshold

        def isX(m):
            """an iterate (not a residual): contains no product with A"""
            return all(len(t) == 1 for t in m) and not any(t == next(iter(B0)) for t in m)
        S.isX = isX

        def newnorm(what, m):
            if what[0] == "amax":
                if isX(m):
                    S.steps = max(S.steps, self.step(m))
            return self.newnorm(what, m)
        S.newnorm = newnorm
        self.hist = []
        # steps outside `free`: column `bad` does not meet the threshold
        base_new = S.newnorm

        def newnorm2(what, m):
            v = base_new(what, m)
            if self.free is not None and what[0] == "amax" and what[1] == cw and S.steps not in self.free:
                j = what[2]
                S.norm[(what, m.key())] = v
                for mx in list(S.mat.values()):
                    if isX(mx) and self.step(mx) == S.steps:
                        # the residual of this iterate: B - A*X
                        rk = B0.lin(1, Am.mul(mx), -1).key()
                        nr = S.norm.get((("amax", cw, j), rk))
                        t = threshold(mx, j)
                        if nr is None or t is None or (rk, j) in thr:
                            continue
                        thr[rk, j] = 1
                        if nr.__class__ is float or t.__class__ is float:
                            continue
                        a, b = fp.zterm(nr)[0], fp.zterm(t)[0]
                        EXP[0].assume(sym.SymBool(a > b if j == self.bad else a <= b))
            return v
        S.newnorm = newnorm2
        ret = call(self.fn, *low)
        if not isinstance(ret, int):
            raise EngineError("%s returned %r" % (self.fn, ret))
        if get(b).key() != B0.key():
            return "B", "the caller's B changes"
        if S.failed:
            if ret <= 0:
                return "ret", "the factorization breaks down and the call returns %d" % ret
            return None
        if ret != 0:
            return "ret", "the call returns %d" % ret
        iv = mem.load(itp, 4, "i")
        if iv.__class__ is not int:
            return "iter", "iter is not set"
        xf = get(x)
        if S.nlow > 1 or S.nfull > 1:
            return "history", "%d single-precision and %d double-precision factorizations are made" % (S.nlow, S.nfull)
        if iv >= 0:
            if iv > ITERMAX:
                return "iter", "iter = %d exceeds the limit" % iv
            if not isX(xf):
                return "X", "iter = %d and the solution returned is %s" % (iv, show(xf))
            if self.step(xf) != iv:
                return "iter", "iter = %d after %d refinement steps" % (iv, self.step(xf))
            rm = B0.lin(1, Am.mul(xf), -1)
            for j in range(r):
                nr = S.norm.get((("amax", cw, j), rm.key()))
                if nr is None:
                    return "threshold", "iter = %d and the residual of right-hand side %d was never tested" % (iv, j)
                t = threshold(xf, j)
                if t is None:
                    return "threshold", "iter = %d and the norms of X or A behind the test were never computed" % iv
                if nr.__class__ is float or t.__class__ is float:
                    return "threshold", "iter = %d and right-hand side %d of the solution returned is not a number" % (iv, j)
                res = self.decide(fp.zterm(nr)[0] <= fp.zterm(t)[0])
                if res is not True:
                    return "threshold", "iter = %d and right-hand side %d of the solution returned has a residual above the threshold (%s)" % (iv, j, res)
            return None
        if iv != -ITERMAX - 1:
            return "iter", "iter = %d after the fall-back" % iv
        want = self.full
        if repr(self.canon(xf)) != want:
            return "fallback", "iter = %d and the solution is not what the double-precision solver computes" % iv
        return None

    def decide(self, c):
        s = EXP[0].solver
        s.push()
        s.add(z3.Not(c))
        q = sym.check(s)
        m = s.model() if q == z3.sat else None
        s.pop()
        if q == z3.unsat:
            return True
        if q != z3.sat:
            raise EngineError("solver does not decide the threshold")
        return ", ".join("%s=%s" % (d.name().split("#")[0], m[d]) for d in sorted(m.decls(), key=lambda d: d.name()) if str(d.name())[:4] in ("amax", "norm"))[:300]

    def canon(self, m):
        """expand atom numbers into their definitions"""
        names = {i: k for k, i in IDS.items()}

        def ex(k):
            if isinstance(k, tuple):
                if k and isinstance(k[0], tuple) and len(k[0]) == 2 and isinstance(k[0][0], tuple):
                    # key of a Mat: ((atoms), coefficient)...
                    return tuple((tuple(ex(names[i]) for i in t), c) for t, c in k)
                return tuple(ex(z) for z in k)
            return k
        return ex(m.key())

    def reference(self):
        """the expression the double-precision solver of the same family leaves in B"""
        reset()
        begin(nthreads=2, log=False, coop=False)
        fp.FCMPHOOK[0] = None      # comparisons of norms are solver decisions
        S.norm, S.names, S.fail, S.failed, S.req = {}, {}, False, False, None
        setup_plasma(self.nb, 1, 1, False)
        n, r, p = self.n, self.nrhs, self.pr
        A, B, X, ipiv, it, ld = self.arrays()
        fn = "plasma_%s%s" % (p, self.base)
        args = {"gesv": [n, r, A, ld, ipiv, B, ld], "posv": [self.uplo, n, r, A, ld, B, ld],
                "gbsv": [n, 1, 1, r, A, 5, ipiv, B, ld]}[self.base]
        low = lower(args)
        S.mat[A.p], S.mat[B.p] = atom("user", "A"), atom("user", "B")
        ret = call(fn, *low)
        if ret != 0:
            raise EngineError("%s returned %r" % (fn, ret))
        return repr(self.canon(get(B.p)))

    def run(self):
        np = 0
        S.on = True
        ex = sym.Explorer(max_paths=5)
        for f in ex.explore(self.reference):
            self.full = f
        ex = sym.Explorer(max_paths=3000, deadline=time.time() + 200)
        its = set()
        for r in ex.explore(self.one):
            np += 1
            if r is not None:
                d = dict(label=self.label, routine=self.fn, n=self.n, nrhs=self.nrhs, what=r[1])
                return Outcome(self.label, "bad", r[0], r[1], d)
        if not ex.complete:
            return Outcome(self.label, "error", "bound", "exploration incomplete")
        return Outcome(self.label, "ok", None, None, None)


class AmaxCase:
    """the norms behind the stopping test: an element that is not a number makes the norm of its column (row) not a number, wherever it stands"""

    def __init__(self, pr, colrow, m, n, nb):
        self.pr, self.colrow, self.m, self.n, self.nb = pr, colrow, m, n, nb
        self.fn = "plasma_" + {"z": "dzamax", "c": "scamax", "d": "damax", "s": "samax"}[pr]
        self.label = "%s %s %dx%d nb%d" % (self.fn, ENUM[colrow], m, n, nb)

    def one(self):
        begin(nthreads=2, log=False, coop=False)
        setup_plasma(self.nb, 1, 1, False)
        ex = EXP[0]
        pi, pj = z3.Int("row"), z3.Int("column")
        ex.add(z3.And(pi >= 0, pi < self.m, pj >= 0, pj < self.n))
        i = next(k for k in range(self.m) if k == self.m - 1 or ex.branch(sym.SymBool(pi == k)))
        j = next(k for k in range(self.n) if k == self.n - 1 or ex.branch(sym.SymBool(pj == k)))
        A = Arr("A", self.pr, self.m, self.n, self.m + 1, fill=lambda r, c: 0)
        for r in range(self.m):
            for c in range(self.n):
                # concrete magnitudes in no particular order
                mem.store(A.p + (r + c * (self.m + 1)) * blas.PRS[self.pr].sz, *(self.el(NAN if (r, c) == (i, j) else Q((7 * r + 5 * c) % 11 - 4))))
                if self.pr in "zc":
                    mem.store(A.p + (r + c * (self.m + 1)) * blas.PRS[self.pr].sz + blas.PRS[self.pr].sz // 2, *self.el(0))
        cw = self.colrow == E["PlasmaColumnwise"]
        k = self.n if cw else self.m
        V = Raw("values", k * blas.PRS[self.pr].real.sz)
        ret = call(self.fn, *lower([self.colrow, self.m, self.n, A, self.m + 1, V]))
        if ret != 0:
            return "ret", "the call returns %r" % (ret,)
        for x in range(k):
            v = mem.load(V.p + x * blas.PRS[self.pr].real.sz, blas.PRS[self.pr].real.sz, "f")
            nan = v.__class__ is float and v != v
            if nan != (x == (j if cw else i)):
                return "nan", "element (%d,%d) is not a number and value %d is %r" % (i, j, x, v)
        return None

    def el(self, v):
        return blas.PRS[self.pr].real.sz, v

    def run(self):
        S.on = False
        ex = sym.Explorer(max_paths=3000, deadline=time.time() + 200)
        for r in ex.explore(self.one):
            if r is not None:
                return Outcome(self.label, "bad", r[0], r[1], dict(label=self.label, routine=self.fn, what=r[1]))
        if not ex.complete:
            return Outcome(self.label, "error", "bound", "exploration incomplete")
        return Outcome(self.label, "ok", None, None, None)


cases = []
T = TIER == "thorough"
UPLO = (E["PlasmaUpper"], E["PlasmaLower"])
for base in ("gesv", "posv", "gbsv"):
    for pr in "zd":
        for u in (UPLO if base == "posv" else (None,)):
            for n, nb in (((4, 2), (3, 4)) if not T else ((4, 2), (3, 4), (9, 4), (1, 2), (6, 2))):
                cases.append(SolverCase(base, pr, n, 1, nb, u))
                cases.append(SolverCase(base, pr, n, 1, nb, u, fail=True))
            for r in (2, 3) + ((5,) if T else ()):
                for bad in range(r):
                    for k in range(ITERMAX + 1):
                        if not T and (k * 3 + bad + r) % 4 and k not in (0, 1, 29, 30):
                            continue
                        cases.append(SolverCase(base, pr, 4, r, 2, u, free={k}, bad=bad))
                    if T:
                        for k in range(0, 30, 3):
                            for l in (k + 1, 30):
                                cases.append(SolverCase(base, pr, 4, r, 2, u, free={k, l}, bad=bad))
                    for k in ((0, 1, 7, 30) if not T else range(31)):
                        cases.append(SolverCase(base, pr, 4, r, 2, u, free={max(0, k - 1), k}, bad=(bad + 1) % r, nan=(k, bad, "XR")))
                        cases.append(SolverCase(base, pr, 4, r, 2, u, free={max(0, k - 1), k}, bad=(bad + 1) % r, nan=(k, bad, "R")))
                cases.append(SolverCase(base, pr, 4, r, 2, u, nan=(0, 0, "A")))
                cases.append(SolverCase(base, pr, 4, r, 2, u, nan=(0, 0, "AXR")))

for pr in "zcds":
    for cr in (E["PlasmaColumnwise"], E["PlasmaRowwise"]):
        for m, n, nb in ((3, 3, 2), (5, 3, 2), (2, 5, 3), (1, 4, 2), (4, 1, 2)):
            cases.append(AmaxCase(pr, cr, m, n, nb))

if __name__ == "__main__":
    C.run_cases(cases, shuffle=True)
    C.bounds = dict(refinement_steps="all 0..30 (the limit in the code), every decision of every convergence test", right_hand_sides="1..3 (5 in the thorough tier): with one, every history; with more, every joint outcome of one (pairs in the thorough tier) chosen step while another fixed column fails elsewhere",
                    sizes="n = 3, 4 (1, 6, 9 thorough); the tile algorithms below are replaced by their meaning, so n only enters through sqrt(n)",
                    values="norms: all nonnegative reals, or NaN from any step on")
    C.outside = ["the tile algorithms themselves (properties C01..C14)", "rounding in the comparison itself: norms are exact reals",
                 "a low-precision factorization that breaks down is reported as an error, as documented; the solution is then not specified"]
    C.finish()
