"""Reference models (over exact symbolic values) of the BLAS/LAPACKE routines the library calls.
Written from the BLAS/LAPACK definitions; each reads exactly the elements the definition references."""
from fractions import Fraction as Q
import mem
import poly
import z3
from poly import join, split, cj, div, TOP, Taint, re, im, modulus, lift, Poly
from machine import EXTERN
from mem import load, store, CUR
from sym import Violation, EngineError, SymInt, mkint
from fp import fcmp

TOPMODE = [False]
CALLS = {}
ERR_MODE = [None]

NO, TR, CT = 111, 112, 113
UP, LO, GEN = 121, 122, 123
NU, UN = 131, 132
LE, RI = 141, 142
COL = 102


TAINT = [None]      # TOP mode: the first value read by the current BLAS call that nothing may depend on
SYMLD = [False]     # leading dimensions may be symbolic (see mem.STR)


def I_(x):
    if x.__class__ is int:
        return x
    return int(x) if not SYMLD[0] else widen(x)


def widen(x):
    """a 32-bit integer in the 64-bit address arithmetic"""
    if x.__class__ is SymInt and x.w < 64:
        return mkint(64, z3.SignExt(64 - x.w, x.e))
    return x


NORM = [None]       # rewriting of values the reference models store (algebraic relations between the variables)

class Pr:
    """one precision: element size and complex flag"""

    def __init__(self, c):
        self.c = c
        self.es = 8 if c in "dz" else 4
        self.cx = c in "cz"
        self.sz = self.es * (2 if self.cx else 1)
        self.real = PRS.get({"z": "d", "c": "s"}.get(c, c), self)

    def get(self, p):
        if self.cx:
            return join(load(p, self.es, "f"), load(p + self.es, self.es, "f"))
        return load(p, self.es, "f")

    def put(self, p, v):
        if NORM[0] is not None and v.__class__ is Poly:
            v = NORM[0](v)
        if self.cx:
            a, b = split(v)
            store(p, self.es, a)
            store(p + self.es, self.es, b)
        else:
            if v.__class__ is poly.RePart or v.__class__ is poly.ImPart:
                pass
            elif v.__class__ is Poly and v.i:
                raise EngineError("complex value stored as real: " + repr(v))
            store(p, self.es, v)

    def mat(self, p, m, n, ld):
        """column lists"""
        g, s = self.get, self.sz
        return [[g(p + (i + j * ld) * s) for i in range(m)] for j in range(n)]

    def putmat(self, p, ld, X):
        g, s = self.put, self.sz
        for j, col in enumerate(X):
            b = p + j * ld * s
            for i, v in enumerate(col):
                g(b + i * s, v)

    def touch(self, p, m, n, ld, w=False, r=True, uplo=None, unit=False):
        """TOP-mode access of an m x n block (or a triangle of it)"""
        if r and w:
            self.touch(p, m, n, ld, False, True, uplo, unit)
            r = False
        for j in range(n):
            lo, hi = 0, m
            if uplo == UP:
                hi = min(m, j + (0 if unit else 1))
            elif uplo == LO:
                lo = j + (1 if unit else 0)
            for i in range(lo, hi):
                a = p + (i + j * ld) * self.sz
                if r:
                    v = self.get(a)
                    if v.__class__ is Taint and TAINT[0] is None:
                        TAINT[0] = v
                if w:
                    self.put(a, TOP if TAINT[0] is None else TAINT[0])

    def scalar(self, x):
        """BLAS scalar argument: by pointer for complex, by value for real"""
        if self.cx:
            return self.get(x)
        return x


PRS = {}
for _c in "sdcz":
    PRS[_c] = Pr(_c)


def xerr(name, cond, msg):
    if not cond:
        raise Violation("blas-argument", "%s called with illegal %s" % (name, msg))


def need(name, m=None, n=None, lds=()):
    for v, t in ((m, "row count"), (n, "column count")):
        if v is not None and v < 0:
            raise Violation("blas-argument", "%s called with negative %s %d" % (name, t, v))
    for ld, mn, t in lds:
        if ld < max(1, mn):
            raise Violation("blas-argument", "%s called with leading dimension %s=%d < %d" % (name, t, ld, max(1, mn)))


def iszero(x):
    return x.__class__ is not Poly and not isinstance(x, poly.Top) and lift(x) == 0 if not (x.__class__ in (poly.RePart, poly.ImPart)) else iszero(x.poly())


def op(A, t):
    """accessor of op(A) given column lists"""
    if t == NO:
        return lambda i, j: A[j][i]
    if t == TR:
        return lambda i, j: A[i][j]
    return lambda i, j: cj(A[i][j])


def tri(A, n, uplo, diag, t):
    """dense op(T) of a triangular matrix; A: accessor (i,j) for referenced elements"""
    T = [[0] * n for _ in range(n)]      # T[i][j]
    for j in range(n):
        for i in range(n):
            if i == j:
                v = 1 if diag == UN else A(i, j)
            elif (i < j) == (uplo == UP):
                v = A(i, j)
            else:
                continue
            if t == NO:
                T[i][j] = v
            elif t == TR:
                T[j][i] = v
            else:
                T[j][i] = cj(v)
    return T


def dot(xs):
    s = 0
    for a, b in xs:
        if a.__class__ is int and not a or b.__class__ is int and not b:
            continue
        s = s + a * b
    return s


def regall():
    for c in "sdcz":
        reg(PRS[c])
    reg_mixed()
    for k, f in list(EXTERN.items()):
        if k[:5] in ("cblas", "LAPAC") or k.endswith("_"):
            EXTERN[k] = fresh(f)


def fresh(f):
    def g(*a):
        TAINT[0] = None
        return f(*a)
    return g


def reg(P):
    c = P.c
    S = P.sz
    R = P.real
    X = EXTERN

    def chkorder(o):
        if o != COL:
            raise EngineError("row-major BLAS call")

    def TT(t):
        """real precision: ConjTrans = Trans"""
        if t not in (NO, TR, CT):
            raise Violation("blas-argument", "illegal transpose value %r" % (t,))
        return TR if (t == CT and not P.cx) else t

    def gemm(o, ta, tb, m, n, k, al, a, lda, b, ldb, be, cc, ldc):
        chkorder(o)
        ta, tb = TT(ta), TT(tb)
        m, n, k, lda, ldb, ldc = map(I_, (m, n, k, lda, ldb, ldc))
        need("gemm", m, n, ((lda, m if ta == NO else k, "lda"), (ldb, k if tb == NO else n, "ldb"), (ldc, m, "ldc")))
        if k < 0:
            raise Violation("blas-argument", "gemm with negative k")
        al, be = P.scalar(al), P.scalar(be)
        if m == 0 or n == 0 or ((iszero(al) or k == 0) and lift(be) == 1):
            return
        za, zb = iszero(al) or k == 0, iszero(be)
        if TOPMODE[0]:
            if not za:
                P.touch(a, *((m, k) if ta == NO else (k, m)), lda)
                P.touch(b, *((k, n) if tb == NO else (n, k)), ldb)
            P.touch(cc, m, n, ldc, True, not zb)
            return
        if not za:
            A = op(P.mat(a, *((m, k) if ta == NO else (k, m)), lda), ta)
            B = op(P.mat(b, *((k, n) if tb == NO else (n, k)), ldb), tb)
        for j in range(n):
            for i in range(m):
                p = cc + (i + j * ldc) * S
                v = 0 if za else al * dot((A(i, l), B(l, j)) for l in range(k))
                if not zb:
                    v = v + be * P.get(p)
                P.put(p, v)
    X["cblas_%sgemm" % c] = gemm

    def symm(her):
        def f(o, side, uplo, m, n, al, a, lda, b, ldb, be, cc, ldc):
            chkorder(o)
            m, n, lda, ldb, ldc = map(I_, (m, n, lda, ldb, ldc))
            na = m if side == LE else n
            need("symm/hemm", m, n, ((lda, na, "lda"), (ldb, m, "ldb"), (ldc, m, "ldc")))
            al, be = P.scalar(al), P.scalar(be)
            if m == 0 or n == 0 or (iszero(al) and lift(be) == 1):
                return
            za, zb = iszero(al), iszero(be)
            if TOPMODE[0]:
                if not za:
                    P.touch(a, na, na, lda, uplo=uplo)
                    P.touch(b, m, n, ldb)
                P.touch(cc, m, n, ldc, True, not zb)
                return
            if not za:
                def A(i, j):
                    if i == j:
                        v = P.get(a + (i + j * lda) * S)
                        return re(v) if her else v
                    if (i < j) == (uplo == UP):
                        return P.get(a + (i + j * lda) * S)
                    v = P.get(a + (j + i * lda) * S)
                    return cj(v) if her else v
                AA = [[A(i, j) for j in range(na)] for i in range(na)]
                B = P.mat(b, m, n, ldb)
            for j in range(n):
                for i in range(m):
                    p = cc + (i + j * ldc) * S
                    if za:
                        v = 0
                    elif side == LE:
                        v = al * dot((AA[i][l], B[j][l]) for l in range(m))
                    else:
                        v = al * dot((B[l][i], AA[l][j]) for l in range(n))
                    if not zb:
                        v = v + be * P.get(p)
                    P.put(p, v)
        return f
    X["cblas_%ssymm" % c] = symm(False)
    X["cblas_%shemm" % c] = symm(True)

    def rk(her, two):
        def f(o, uplo, trans, n, k, al, a, lda, *rest):
            chkorder(o)
            if two:
                b, ldb, be, cc, ldc = rest
            else:
                be, cc, ldc = rest
                b, ldb = a, lda
            t = TT(trans)
            n, k, lda, ldb, ldc = map(I_, (n, k, lda, ldb, ldc))
            if her:
                xerr("herk/her2k", t in (NO, CT) or not P.cx, "trans")
            elif P.cx:
                xerr("syrk/syr2k", t in (NO, TR), "trans")
            need("rank-k update", n, k, ((lda, n if t == NO else k, "lda"), (ldb, n if t == NO else k, "ldb"), (ldc, n, "ldc")))
            al = al if (her and not two) else P.scalar(al)
            be = be if her else P.scalar(be)
            if n == 0 or ((iszero(al) or k == 0) and lift(be) == 1):
                return
            za, zb = iszero(al) or k == 0, iszero(be)
            sh = (n, k) if t == NO else (k, n)
            if TOPMODE[0]:
                if not za:
                    P.touch(a, *sh, lda)
                    if two:
                        P.touch(b, *sh, ldb)
                P.touch(cc, n, n, ldc, True, not zb, uplo=uplo)
                return
            if not za:
                A0 = P.mat(a, *sh, lda)
                B0 = P.mat(b, *sh, ldb) if two else A0
                if t == NO:
                    A = lambda i, l: A0[l][i]
                    B = lambda i, l: B0[l][i]
                elif her:
                    A = lambda i, l: cj(A0[i][l])
                    B = lambda i, l: cj(B0[i][l])
                else:
                    A = lambda i, l: A0[i][l]
                    B = lambda i, l: B0[i][l]
            h = cj if her else (lambda x: x)
            for j in range(n):
                for i in range(n):
                    if not (i <= j if uplo == UP else i >= j):
                        continue
                    p = cc + (i + j * ldc) * S
                    v = 0
                    if not za:
                        if two:
                            v = al * dot((A(i, l), h(B(j, l))) for l in range(k)) + \
                                h(al) * dot((B(i, l), h(A(j, l))) for l in range(k))
                        else:
                            v = al * dot((A(i, l), h(A(j, l))) for l in range(k))
                    if not zb:
                        old = P.get(p)
                        if her and i == j:
                            old = re(old)
                        v = v + be * old
                    if her and i == j:
                        v = re(v)
                    P.put(p, v)
        return f
    X["cblas_%ssyrk" % c] = rk(False, False)
    X["cblas_%sherk" % c] = rk(True, False)
    X["cblas_%ssyr2k" % c] = rk(False, True)
    X["cblas_%sher2k" % c] = rk(True, True)

    def trmm(o, side, uplo, trans, diag, m, n, al, a, lda, b, ldb):
        chkorder(o)
        t = TT(trans)
        m, n, lda, ldb = map(I_, (m, n, lda, ldb))
        na = m if side == LE else n
        need("trmm", m, n, ((lda, na, "lda"), (ldb, m, "ldb")))
        if m == 0 or n == 0:
            return
        al = P.scalar(al)
        if iszero(al):
            P.putmat(b, ldb, [[0] * m for _ in range(n)])
            return
        if TOPMODE[0]:
            P.touch(a, na, na, lda, uplo=uplo, unit=diag == UN)
            P.touch(b, m, n, ldb, True)
            return
        T = tri(lambda i, j: P.get(a + (i + j * lda) * S), na, uplo, diag, t)
        B = P.mat(b, m, n, ldb)
        if side == LE:
            Y = [[al * dot((T[i][l], B[j][l]) for l in range(m)) for i in range(m)] for j in range(n)]
        else:
            Y = [[al * dot((B[l][i], T[l][j]) for l in range(n)) for i in range(m)] for j in range(n)]
        P.putmat(b, ldb, Y)
    X["cblas_%strmm" % c] = trmm

    def solve(T, upper, B, m, unit):
        """T X = B in place on column lists"""
        order = range(m - 1, -1, -1) if upper else range(m)
        for col in B:
            for i in order:
                rng = range(i + 1, m) if upper else range(i)
                v = col[i] - dot((T[i][l], col[l]) for l in rng)
                col[i] = v if unit else div(v, T[i][i])
        return B

    def trsm(o, side, uplo, trans, diag, m, n, al, a, lda, b, ldb):
        chkorder(o)
        t = TT(trans)
        m, n, lda, ldb = map(I_, (m, n, lda, ldb))
        na = m if side == LE else n
        need("trsm", m, n, ((lda, na, "lda"), (ldb, m, "ldb")))
        if m == 0 or n == 0:
            return
        al = P.scalar(al)
        if iszero(al):
            P.putmat(b, ldb, [[0] * m for _ in range(n)])
            return
        if TOPMODE[0]:
            P.touch(a, na, na, lda, uplo=uplo, unit=diag == UN)
            P.touch(b, m, n, ldb, True)
            return
        T = tri(lambda i, j: P.get(a + (i + j * lda) * S), na, uplo, diag, t)
        B = P.mat(b, m, n, ldb)
        if lift(al) != 1:
            B = [[al * x for x in col] for col in B]
        upper = (uplo == UP) == (t == NO)
        if side == LE:
            Y = solve(T, upper, B, m, diag == UN)
        else:
            # X T = B  <=>  T^t X^t = B^t
            Tt = [[T[j][i] for j in range(n)] for i in range(n)]
            Bt = [[B[j][i] for j in range(n)] for i in range(m)]
            Yt = solve(Tt, not upper, Bt, n, diag == UN)
            Y = [[Yt[i][j] for i in range(m)] for j in range(n)]
        P.putmat(b, ldb, Y)
    X["cblas_%strsm" % c] = trsm

    def trmv(o, uplo, trans, diag, n, a, lda, x, incx):
        t = TT(trans)
        n, lda, incx = map(I_, (n, lda, incx))
        need("trmv", n, None, ((lda, n, "lda"),))
        xs = [P.get(x + i * incx * S) for i in range(n)]
        T = tri(lambda i, j: P.get(a + (i + j * lda) * S), n, uplo, diag, t)
        for i in range(n):
            P.put(x + i * incx * S, dot((T[i][l], xs[l]) for l in range(n)))
    X["cblas_%strmv" % c] = trmv

    def trsv(o, uplo, trans, diag, n, a, lda, x, incx):
        trsm_like = tri(lambda i, j: P.get(a + (i + j * lda) * S), I_(n), uplo, diag, TT(trans))
        xs = [[P.get(x + i * I_(incx) * S) for i in range(n)]]
        solve(trsm_like, (uplo == UP) == (TT(trans) == NO), xs, n, diag == UN)
        for i in range(n):
            P.put(x + i * incx * S, xs[0][i])
    X["cblas_%strsv" % c] = trsv

    def gemv(o, trans, m, n, al, a, lda, x, incx, be, y, incy):
        t = TT(trans)
        m, n, lda, incx, incy = map(I_, (m, n, lda, incx, incy))
        need("gemv", m, n, ((lda, m, "lda"),))
        al, be = P.scalar(al), P.scalar(be)
        if m == 0 or n == 0 or (iszero(al) and lift(be) == 1):
            return
        ly, lx = (m, n) if t == NO else (n, m)
        za = iszero(al)
        if not za:
            A = op(P.mat(a, m, n, lda), t)
            xs = [P.get(x + i * incx * S) for i in range(lx)]
        for i in range(ly):
            p = y + i * incy * S
            v = 0 if za else al * dot((A(i, l), xs[l]) for l in range(lx))
            if not iszero(be):
                v = v + be * P.get(p)
            P.put(p, v)
    X["cblas_%sgemv" % c] = gemv

    def hemv(her):
        def f(o, uplo, n, al, a, lda, x, incx, be, y, incy):
            n, lda, incx, incy = map(I_, (n, lda, incx, incy))
            al, be = P.scalar(al), P.scalar(be)
            xs = [P.get(x + i * incx * S) for i in range(n)]

            def A(i, j):
                if i == j:
                    v = P.get(a + (i + j * lda) * S)
                    return re(v) if her else v
                if (i < j) == (uplo == UP):
                    return P.get(a + (i + j * lda) * S)
                v = P.get(a + (j + i * lda) * S)
                return cj(v) if her else v
            for i in range(n):
                p = y + i * incy * S
                v = al * dot((A(i, l), xs[l]) for l in range(n))
                if not iszero(be):
                    v = v + be * P.get(p)
                P.put(p, v)
        return f
    X["cblas_%shemv" % c] = hemv(True)
    X["cblas_%ssymv" % c] = hemv(False)

    def ger(conj):
        def f(o, m, n, al, x, incx, y, incy, a, lda):
            m, n, lda, incx, incy = map(I_, (m, n, lda, incx, incy))
            need("ger", m, n, ((lda, m, "lda"),))
            if m == 0 or n == 0:
                return
            al = P.scalar(al)
            if iszero(al):
                return
            if TOPMODE[0]:
                P.touch(x, 1, m, incx)
                P.touch(y, 1, n, incy)
                P.touch(a, m, n, lda, True)
                return
            xs = [P.get(x + i * incx * S) for i in range(m)]
            ys = [P.get(y + i * incy * S) for i in range(n)]
            for j in range(n):
                t = al * (cj(ys[j]) if conj else ys[j])
                for i in range(m):
                    p = a + (i + j * lda) * S
                    P.put(p, P.get(p) + xs[i] * t)
        return f
    X["cblas_%sgeru" % c] = ger(False)
    X["cblas_%sgerc" % c] = ger(True)
    X["cblas_%sger" % c] = ger(False)

    def axpy(n, al, x, incx, y, incy):
        n, incx, incy = map(I_, (n, incx, incy))
        if n <= 0:
            return
        al = P.scalar(al)
        if iszero(al):
            return
        for i in range(n):
            P.put(y + i * incy * S, P.get(y + i * incy * S) + al * P.get(x + i * incx * S))
    X["cblas_%saxpy" % c] = axpy

    def scal(n, al, x, incx):
        n, incx = I_(n), I_(incx)
        if n <= 0 or incx <= 0:
            return
        al = P.scalar(al)
        for i in range(n):
            p = x + i * incx * S
            P.put(p, al * P.get(p))
    X["cblas_%sscal" % c] = scal

    def rscal(n, al, x, incx):
        for i in range(I_(n)):
            p = x + i * I_(incx) * S
            P.put(p, al * P.get(p))
    if P.cx:
        X["cblas_%sscal" % {"z": "zd", "c": "cs"}[c]] = rscal

    def copy(n, x, incx, y, incy):
        n, incx, incy = map(I_, (n, incx, incy))
        if n <= 0:
            return
        vs = [P.get(x + i * incx * S) for i in range(n)]
        for i in range(n):
            P.put(y + i * incy * S, vs[i])
    X["cblas_%scopy" % c] = copy

    def swap(n, x, incx, y, incy):
        n, incx, incy = map(I_, (n, incx, incy))
        for i in range(max(0, n)):
            p, q = x + i * incx * S, y + i * incy * S
            a, b = P.get(p), P.get(q)
            P.put(p, b)
            P.put(q, a)
    X["cblas_%sswap" % c] = swap

    def dotf(conj):
        def f(n, x, incx, y, incy):
            n, incx, incy = map(I_, (n, incx, incy))
            return dot(((cj if conj else (lambda v: v))(P.get(x + i * incx * S)), P.get(y + i * incy * S)) for i in range(n))
        return f
    X["cblas_%sdot" % c] = dotf(False)

    def dotsub(conj):
        g = dotf(conj)

        def f(n, x, incx, y, incy, r):
            P.put(r, g(n, x, incx, y, incy))
        return f
    X["cblas_%sdotu_sub" % c] = dotsub(False)
    X["cblas_%sdotc_sub" % c] = dotsub(True)

    def abs1(v):
        if P.cx:
            return poly.fabs_(re(v)) + poly.fabs_(im(v))
        return poly.fabs_(v)

    def iamax(n, x, incx):
        n, incx = I_(n), I_(incx)
        best, bi = None, 0
        for i in range(n):
            v = abs1(P.get(x + i * incx * S))
            if best is None or (fcmp("ogt", v, best)):
                best, bi = v, i
        return bi
    X["cblas_i%samax" % c] = iamax

    def nrm2(n, x, incx):
        s = 0
        for i in range(I_(n)):
            v = P.get(x + i * I_(incx) * S)
            s = s + v * cj(v)
        return poly.sqrt_(s)
    X["cblas_%snrm2" % {"z": "dz", "c": "sc"}.get(c, c)] = nrm2

    def asum(n, x, incx):
        s = 0
        for i in range(I_(n)):
            s = s + abs1(P.get(x + i * I_(incx) * S))
        return s
    X["cblas_%sasum" % {"z": "dz", "c": "sc"}.get(c, c)] = asum

    # ------------------------------------------------------------------ LAPACK
    def ch(x):
        return chr(I_(x) & 255).upper()

    def uplo_of(x):
        u = ch(x)
        return UP if u == "U" else LO if u == "L" else GEN

    def lacpy(lay, uplo, m, n, a, lda, b, ldb):
        m, n, lda, ldb = map(I_, (m, n, lda, ldb))
        u = uplo_of(uplo)
        if m <= 0 or n <= 0:
            return 0
        need("lacpy", m, n, ((lda, m, "lda"), (ldb, m, "ldb")))
        for j in range(n):
            lo, hi = (0, min(m, j + 1)) if u == UP else (j, m) if u == LO else (0, m)
            for i in range(lo, hi):
                P.put(b + (i + j * ldb) * S, P.get(a + (i + j * lda) * S))
        return 0
    X["LAPACKE_%slacpy_work" % c] = X["LAPACKE_%slacpy" % c] = lacpy

    def laset(lay, uplo, m, n, al, be, a, lda):
        m, n, lda = map(I_, (m, n, lda))
        u = uplo_of(uplo)
        if m <= 0 or n <= 0:
            return 0
        need("laset", m, n, ((lda, m, "lda"),))
        for j in range(n):
            for i in range(m):
                if i == j:
                    v = be
                elif u == GEN or (i < j) == (u == UP):
                    v = al
                else:
                    continue
                P.put(a + (i + j * lda) * S, v)
        return 0
    if P.cx:
        def lasetc(lay, uplo, m, n, *r):
            # complex by value: two doubles each (z) or one <2 x float> each (c)
            if len(r) == 6:
                al, be, a, lda = join(r[0], r[1]), join(r[2], r[3]), r[4], r[5]
            else:
                al, be, a, lda = join(*r[0]), join(*r[1]), r[2], r[3]
            return laset(lay, uplo, m, n, al, be, a, lda)
        X["LAPACKE_%slaset_work" % c] = X["LAPACKE_%slaset" % c] = lasetc
    else:
        X["LAPACKE_%slaset_work" % c] = X["LAPACKE_%slaset" % c] = laset

    def lascl_core(ty, kl, ku, cf, ct, m, n, a, lda):
        m, n, lda = map(I_, (m, n, lda))
        if m <= 0 or n <= 0:
            return 0
        need("lascl", m, n, ((lda, m, "lda"),))
        mul = div(ct, cf)
        for j in range(n):
            lo, hi = (0, min(m, j + 1)) if ty == "U" else (j, m) if ty == "L" else (0, m)
            if ty not in "GUL":
                raise EngineError("lascl type " + ty)
            for i in range(lo, hi):
                p = a + (i + j * lda) * S
                P.put(p, mul * P.get(p))
        return 0

    def lascl_f(ty, kl, ku, cf, ct, m, n, a, lda, info, *h):
        t = ch(load(ty, 1, "i"))
        g = lambda p: load(p, 4, "i")
        f = lambda p: load(p, R.es, "f")
        store(info, 4, lascl_core(t, g(kl), g(ku), f(cf), f(ct), g(m), g(n), a, g(lda)))
    X["%slascl_" % c] = lascl_f
    X["LAPACKE_%slascl_work" % c] = X["LAPACKE_%slascl" % c] = \
        lambda lay, ty, kl, ku, cf, ct, m, n, a, lda: lascl_core(ch(ty), kl, ku, cf, ct, m, n, a, lda)

    def lacgv(n, x, incx):
        n, incx = I_(n), I_(incx)
        for i in range(max(0, n)):
            p = x + i * incx * S
            P.put(p, cj(P.get(p)))
        return 0
    X["LAPACKE_%slacgv_work" % c] = X["LAPACKE_%slacgv" % c] = lacgv

    def lamch(x):
        k = ch(x)
        d = c in "dz"
        if k == "S":
            return Q(1, 2 ** (1022 if d else 126))
        if k == "E":
            return Q(1, 2 ** (53 if d else 24))
        if k == "P":
            return Q(1, 2 ** (52 if d else 23))
        if k == "O":
            return Q(2 ** (1024 if d else 128)) - 1
        raise EngineError("lamch " + k)
    X["LAPACKE_%slamch_work" % c] = X["LAPACKE_%slamch" % c] = lamch

    def potrf(lay, uplo, n, a, lda):
        n, lda = I_(n), I_(lda)
        u = uplo_of(uplo)
        need("potrf", n, None, ((lda, n, "lda"),))
        if TOPMODE[0]:
            P.touch(a, n, n, lda, True, uplo=u)
            return 0
        el = (lambda i, j: a + (i + j * lda) * S) if u == LO else (lambda i, j: a + (j + i * lda) * S)
        # left-looking on L (u == LO) or on U = L^H stored transposed-conjugated
        g = (lambda i, j: P.get(el(i, j))) if u == LO else (lambda i, j: cj(P.get(el(i, j))))
        Lm = [[0] * n for _ in range(n)]
        for j in range(n):
            d = re(g(j, j)) - dot((Lm[j][k], cj(Lm[j][k])) for k in range(j))
            if fcmp("ole", d, 0):
                P.put(el(j, j), d)
                return j + 1
            s = poly.sqrt_(d)
            Lm[j][j] = s
            P.put(el(j, j), s)
            for i in range(j + 1, n):
                v = div(g(i, j) - dot((Lm[i][k], cj(Lm[j][k])) for k in range(j)), s)
                Lm[i][j] = v
                P.put(el(i, j), v if u == LO else cj(v))
        return 0
    X["LAPACKE_%spotrf_work" % c] = X["LAPACKE_%spotrf" % c] = potrf

    def lauum(lay, uplo, n, a, lda):
        n, lda = I_(n), I_(lda)
        u = uplo_of(uplo)
        need("lauum", n, None, ((lda, n, "lda"),))
        if TOPMODE[0]:
            P.touch(a, n, n, lda, True, uplo=u)
            return 0
        T = tri(lambda i, j: P.get(a + (i + j * lda) * S), n, u, NU, NO)
        # the diagonal of the factor is taken as real
        for i in range(n):
            T[i][i] = re(T[i][i])
        for j in range(n):
            for i in range(n):
                if u == UP and i <= j:
                    v = dot((T[i][k], cj(T[j][k])) for k in range(j, n))
                elif u == LO and i >= j:
                    v = dot((cj(T[k][i]), T[k][j]) for k in range(i, n))
                else:
                    continue
                P.put(a + (i + j * lda) * S, v)
        return 0
    X["LAPACKE_%slauum_work" % c] = X["LAPACKE_%slauum" % c] = lauum

    def trtri(lay, uplo, diag, n, a, lda):
        n, lda = I_(n), I_(lda)
        u = uplo_of(uplo)
        dg = UN if ch(diag) == "U" else NU
        need("trtri", n, None, ((lda, n, "lda"),))
        if TOPMODE[0]:
            P.touch(a, n, n, lda, True, uplo=u, unit=dg == UN)
            return 0
        T = tri(lambda i, j: P.get(a + (i + j * lda) * S), n, u, dg, NO)
        if dg == NU:
            for i in range(n):
                if fcmp("oeq", re(T[i][i]), 0) and (not P.cx or fcmp("oeq", im(T[i][i]), 0)):
                    return i + 1
        B = [[1 if i == j else 0 for i in range(n)] for j in range(n)]
        solve(T, u == UP, B, n, dg == UN)
        for j in range(n):
            for i in range(n):
                if (i == j and dg == NU) or (i < j and u == UP) or (i > j and u == LO):
                    P.put(a + (i + j * lda) * S, B[j][i])
        return 0
    X["LAPACKE_%strtri_work" % c] = X["LAPACKE_%strtri" % c] = trtri

    def hegst(lay, itype, uplo, n, a, lda, b, ldb):
        itype, n, lda, ldb = map(I_, (itype, n, lda, ldb))
        u = uplo_of(uplo)
        need("hegst", n, None, ((lda, n, "lda"), (ldb, n, "ldb")))
        if itype != 1:
            raise EngineError("hegst itype %d not modelled" % itype)
        if TOPMODE[0]:
            P.touch(a, n, n, lda, True, uplo=u)
            P.touch(b, n, n, ldb, uplo=u)
            return 0
        T = tri(lambda i, j: P.get(b + (i + j * ldb) * S), n, u, NU, NO if u == LO else CT)   # the lower factor
        low = {}
        for j in range(n):
            for i in range(j, n):
                v = P.get(a + ((i + j * lda) if u == LO else (j + i * lda)) * S)
                if i == j:
                    v = re(v)
                low[i, j] = v if u == LO or i == j else cj(v)
        F = [[low[i, j] if i >= j else cj(low[j, i]) for i in range(n)] for j in range(n)]
        solve(T, False, F, n, False)
        G = [[cj(F[j][i]) for j in range(n)] for i in range(n)]       # columns of (inv(L) A)^H
        solve(T, False, G, n, False)
        for j in range(n):
            for i in range(j, n):
                # element (i, j) of (inv(L) (inv(L) A)^H)^H
                v = cj(G[i][j])
                if i == j:
                    v = re(v)
                P.put(a + ((i + j * lda) if u == LO else (j + i * lda)) * S, v if u == LO else cj(v))
        return 0
    X["LAPACKE_%shegst_work" % c] = hegst
    X["LAPACKE_%ssygst_work" % c] = hegst

    # ---- norms -------------------------------------------------------------
    def vmax(vals):
        best = 0
        for v in vals:
            if fcmp("olt", best, v):
                best = v
        return best

    def norm_of(kind, cols, m, n):
        """cols: dict (i,j) -> |.| argument"""
        if kind == "M":
            return vmax(modulus(v) for v in cols.values())
        if kind in "1O":
            return vmax(sumabs(cols, [(i, j) for i in range(m) if (i, j) in cols]) for j in range(n))
        if kind == "I":
            return vmax(sumabs(cols, [(i, j) for j in range(n) if (i, j) in cols]) for i in range(m))
        if kind in "FE":
            sc, ss = 0, 1
            for v in cols.values():
                sc, ss = lassq_upd(v, sc, ss)
            return sc * poly.sqrt_(ss)
        raise Violation("blas-argument", "norm kind %r" % kind)

    def sumabs(cols, idx):
        s = 0
        for k in idx:
            s = s + modulus(cols[k])
        return s

    def lassq_upd(v, sc, ss):
        comps = (re(v), im(v)) if P.cx else (v,)
        for x in comps:
            x = lift(x)
            if isinstance(x, poly.Top):
                t = poly.top2(x, poly.top2(lift(sc), lift(ss)))
                return t, t
            if x.__class__ is not Poly and x == 0:
                continue
            ax = poly.fabs_(x)
            if fcmp("olt", sc, ax):
                q = div(sc, ax)
                ss = 1 + ss * q * q
                sc = ax
            else:
                q = div(ax, sc)
                ss = ss + q * q
        return sc, ss

    def rd(a, lda):
        return lambda i, j: P.get(a + (i + j * lda) * S)

    def lange(lay, norm, m, n, a, lda, work=0):
        m, n, lda = map(I_, (m, n, lda))
        if min(m, n) <= 0:
            return 0
        need("lange", m, n, ((lda, m, "lda"),))
        g = rd(a, lda)
        return norm_of(ch(norm), {(i, j): g(i, j) for j in range(n) for i in range(m)}, m, n)
    X["LAPACKE_%slange_work" % c] = X["LAPACKE_%slange" % c] = lange

    def lansy(her):
        def f(lay, norm, uplo, n, a, lda, work=0):
            n, lda = I_(n), I_(lda)
            if n <= 0:
                return 0
            need("lansy", n, n, ((lda, n, "lda"),))
            u = uplo_of(uplo)
            g = rd(a, lda)
            cols = {}
            for j in range(n):
                for i in range(n):
                    if i == j:
                        v = g(i, i)
                        cols[i, i] = re(v) if her else v
                    elif (i < j) == (u == UP):
                        v = g(i, j)
                        cols[i, j] = v
                        cols[j, i] = v
            k = ch(norm)
            return norm_of("1" if k == "I" else k, cols, n, n)
        return f
    X["LAPACKE_%slansy_work" % c] = X["LAPACKE_%slansy" % c] = lansy(False)
    X["LAPACKE_%slanhe_work" % c] = X["LAPACKE_%slanhe" % c] = lansy(True)

    def lantr_core(norm, uplo, diag, m, n, a, lda):
        if min(m, n) <= 0:
            return 0
        need("lantr", m, n, ((lda, m, "lda"),))
        g = rd(a, lda)
        cols = {}
        for j in range(n):
            for i in range(m):
                if i == j:
                    cols[i, j] = 1 if diag == "U" else g(i, j)
                elif (i < j) == (uplo == "U"):
                    cols[i, j] = g(i, j)
        return norm_of(norm, cols, m, n)
    X["%slantr_" % c] = lambda no, up, dg, m, n, a, lda, work, *h: lantr_core(
        ch(load(no, 1, "i")), ch(load(up, 1, "i")), ch(load(dg, 1, "i")), load(m, 4, "i"), load(n, 4, "i"), a, load(lda, 4, "i"))
    X["LAPACKE_%slantr_work" % c] = lambda lay, no, up, dg, m, n, a, lda, work=0: lantr_core(
        ch(no), ch(up), ch(dg), I_(m), I_(n), a, I_(lda))

    def lassq(n, x, incx, scale, sumsq):
        n, incx = load(n, 4, "i"), load(incx, 4, "i")
        if n <= 0:
            return
        sc, ss = load(scale, R.es, "f"), load(sumsq, R.es, "f")
        for i in range(n):
            sc, ss = lassq_upd(P.get(x + i * incx * S), sc, ss)
        store(scale, R.es, sc)
        store(sumsq, R.es, ss)
    X["%slassq_" % c] = lassq
    X["LAPACKE_%slassq_work" % c] = lambda n, x, incx, scale, sumsq: None

    from qrstub import reg_qr
    reg_qr(P, dict(TT=TT, ch=ch, uplo_of=uplo_of, gemm=gemm))


def reg_mixed():
    X = EXTERN

    def conv(src, dst):
        S, D = PRS[src], PRS[dst]

        def f(lay, m, n, a, lda, b, ldb):
            m, n, lda, ldb = map(I_, (m, n, lda, ldb))
            if m <= 0 or n <= 0:
                return 0
            need("lag2", m, n, ((lda, m, "lda"), (ldb, m, "ldb")))
            for j in range(n):
                for i in range(m):
                    D.put(b + (i + j * ldb) * D.sz, S.get(a + (i + j * lda) * S.sz))
            h = X.get("@lag2_result")
            return h() if h else 0
        return f
    X["LAPACKE_zlag2c_work"] = X["LAPACKE_zlag2c"] = conv("z", "c")
    X["LAPACKE_clag2z_work"] = X["LAPACKE_clag2z"] = conv("c", "z")
    X["LAPACKE_dlag2s_work"] = X["LAPACKE_dlag2s"] = conv("d", "s")
    X["LAPACKE_slag2d_work"] = X["LAPACKE_slag2d"] = conv("s", "d")
