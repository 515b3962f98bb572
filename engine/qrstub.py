"""Reference models of the Householder routines of LAPACK (larfg, geqr2, gelq2, larft, larfb, larfx).
What larfg returns is supplied by LARFG[0](P, n, alpha address, x address, incx, alpha, x) -> (beta, [v], tau); see qr.py."""
import mem
import poly
from poly import cj, TOP, lift, join
from mem import load, store
from sym import Violation, EngineError, Undef
from machine import EXTERN as X

LARFG = [None]


def reg_qr(P, h):
    c, S = P.c, P.sz
    from blas import I_, need, iszero, TOPMODE as top
    ch = h["ch"]
    def scratch(w, n):
        """workspace contents are unspecified afterwards"""
        for i in range(n):
            P.put(w + i * S, mem.JUNK[0](mem.obj_of(w + i * S), 0) if top[0] else TOP)
            if not top[0]:
                o = mem.obj_of(w + i * S)
                off = (w + i * S) - o.addr
                for q in range(0, S, P.es):
                    o.c.pop(off + q, None)

    def larfg(n, al, x, incx, tau):
        n, incx = I_(n), I_(incx)
        if n <= 0 or (n == 1 and not P.cx):
            P.put(tau, 0)
            return
        if top[0]:
            P.touch(al, 1, 1, 1)
            P.touch(x, 1, n - 1, incx, True)
            P.touch(al, 1, 1, 1, True, False)
            P.touch(tau, 1, 1, 1, True, False)
            return
        a = P.get(al)
        xs = [P.get(x + i * incx * S) for i in range(n - 1)]
        if LARFG[0] is None:
            raise EngineError("larfg without a model")
        b, v, t = LARFG[0](P, n, al, x, incx, a, xs)
        P.put(al, b)
        for i in range(n - 1):
            P.put(x + i * incx * S, v[i])
        P.put(tau, t)
    X["LAPACKE_%slarfg_work" % c] = X["LAPACKE_%slarfg" % c] = lambda *a: (larfg(*a), 0)[1]

    def geqr2(o, m, n, a, lda, tau, work=None):
        m, n, lda = map(I_, (m, n, lda))
        need("geqr2", m, n, ((lda, m, "lda"),))
        A = lambda i, j: a + (i + j * lda) * S
        for i in range(min(m, n)):
            larfg(m - i, A(i, i), A(min(i + 1, m - 1), i), 1, tau + i * S)
            if i < n - 1:
                t = P.get(tau + i * S)
                if top[0]:
                    P.touch(A(i, i + 1), m - i, n - i - 1, lda, True)
                    continue
                w = [lift(1)] + [P.get(A(r, i)) for r in range(i + 1, m)]
                if iszero(t):
                    continue
                for j in range(i + 1, n):
                    s = dot((cj(w[r]), P.get(A(i + r, j))) for r in range(m - i))
                    s = s * cj(t)
                    for r in range(m - i):
                        P.put(A(i + r, j), P.get(A(i + r, j)) - w[r] * s)
        if work is not None:
            scratch(work, n)
        return 0
    X["LAPACKE_%sgeqr2_work" % c] = geqr2

    def gelq2(o, m, n, a, lda, tau, work=None):
        m, n, lda = map(I_, (m, n, lda))
        need("gelq2", m, n, ((lda, m, "lda"),))
        A = lambda i, j: a + (i + j * lda) * S
        for i in range(min(m, n)):
            if not top[0]:
                for r in range(i, n):
                    P.put(A(i, r), cj(P.get(A(i, r))))
            larfg(n - i, A(i, i), A(i, min(i + 1, n - 1)), lda, tau + i * S)
            t = P.get(tau + i * S)
            if top[0]:
                P.touch(A(i + 1, i), m - i - 1, n - i, lda, True)
                continue
            w = [lift(1)] + [P.get(A(i, r)) for r in range(i + 1, n)]
            if not iszero(t):
                for j in range(i + 1, m):
                    s = dot((P.get(A(j, i + r)), w[r]) for r in range(n - i)) * t
                    for r in range(n - i):
                        P.put(A(j, i + r), P.get(A(j, i + r)) - s * cj(w[r]))
            for r in range(i, n):
                P.put(A(i, r), cj(P.get(A(i, r))))
        if work is not None:
            scratch(work, m)
        return 0
    X["LAPACKE_%sgelq2_work" % c] = gelq2

    def dot(ps):
        s = lift(0)
        for x, y in ps:
            if iszero(x) or iszero(y):
                continue
            s = s + x * y
        return s

    def vmat(v, ldv, n, k, col):
        """V as n x k with unit diagonal and zeros above, whatever the storage"""
        def f(i, l):
            if i < l:
                return lift(0)
            if i == l:
                return lift(1)
            return P.get(v + ((i + l * ldv) if col else (l + i * ldv)) * S)
        V = [[f(i, l) for l in range(k)] for i in range(n)]
        if not col:     # H = I - V^H T V with rows stored: the column form has conj(V)^T
            V = [[cj(x) for x in r] for r in V]
        return V

    def larft(o, direct, storev, n, k, v, ldv, tau, t, ldt):
        direct, storev = ch(direct), ch(storev)
        n, k, ldv, ldt = map(I_, (n, k, ldv, ldt))
        if direct != "F":
            raise EngineError("larft backward")
        col = storev == "C"
        need("larft", n, k, ((ldv, n if col else k, "ldv"), (ldt, k, "ldt")))
        if n == 0:
            return 0
        if top[0]:
            P.touch(tau, 1, k, 1)
            if col:
                P.touch(v, n, k, ldv, uplo=122, unit=True)
            else:
                P.touch(v, k, n, ldv, uplo=121, unit=True)
            P.touch(t, k, k, ldt, True, False, uplo=121)
            return 0
        V = vmat(v, ldv, n, k, col)
        tv = [P.get(tau + i * S) for i in range(k)]
        T = [[lift(0)] * k for _ in range(k)]
        for i in range(k):
            T[i][i] = lift(tv[i])
            if not iszero(tv[i]):
                y = [-tv[i] * dot((cj(V[r][l]), V[r][i]) for r in range(n)) for l in range(i)]
                for l in range(i):
                    T[l][i] = dot((T[l][q], y[q]) for q in range(l, i))
            for l in range(i + 1):
                P.put(t + (l + i * ldt) * S, T[l][i])
        return 0
    X["LAPACKE_%slarft_work" % c] = X["LAPACKE_%slarft" % c] = larft

    def larfb(o, side, trans, direct, storev, m, n, k, v, ldv, t, ldt, cc, ldc, work=None, ldwork=0):
        side, trans, direct, storev = ch(side), ch(trans), ch(direct), ch(storev)
        m, n, k, ldv, ldt, ldc, ldwork = map(I_, (m, n, k, ldv, ldt, ldc, ldwork))
        if direct != "F":
            raise EngineError("larfb backward")
        if side not in "LR" or trans not in ("NC" if P.cx else "NTC"):
            raise Violation("blas-argument", "larfb: side %s trans %s" % (side, trans))
        nq, nw = (m, n) if side == "L" else (n, m)
        col = storev == "C"
        if m <= 0 or n <= 0:
            return 0
        need("larfb", m, n, ((ldv, nq if col else k, "ldv"), (ldt, k, "ldt"), (ldc, m, "ldc")))
        if work is not None and ldwork < nw:
            raise Violation("blas-argument", "larfb: ldwork %d < %d" % (ldwork, nw))
        if k > nq:
            raise Violation("blas-argument", "larfb: k %d > %d" % (k, nq))
        if top[0]:
            if col:
                P.touch(v, nq, k, ldv, uplo=122, unit=True)
            else:
                P.touch(v, k, nq, ldv, uplo=121, unit=True)
            P.touch(t, k, k, ldt, uplo=121)
            P.touch(cc, m, n, ldc, True)
        else:
            V = vmat(v, ldv, nq, k, col)
            T = [[P.get(t + (l + q * ldt) * S) if l <= q else lift(0) for q in range(k)] for l in range(k)]
            if trans != "N":
                T = [[cj(T[q][l]) for q in range(k)] for l in range(k)]
            C = P.mat(cc, m, n, ldc)
            if side == "L":
                for j in range(n):
                    y = [dot((cj(V[r][l]), C[j][r]) for r in range(m)) for l in range(k)]
                    z = [dot((T[l][q], y[q]) for q in range(k)) for l in range(k)]
                    for r in range(m):
                        d = dot((V[r][l], z[l]) for l in range(k))
                        P.put(cc + (r + j * ldc) * S, C[j][r] - d)
            else:
                for i in range(m):
                    y = [dot((C[r][i], V[r][l]) for r in range(n)) for l in range(k)]
                    z = [dot((y[q], T[q][l]) for q in range(k)) for l in range(k)]
                    for r in range(n):
                        d = dot((z[l], cj(V[r][l])) for l in range(k))
                        P.put(cc + (i + r * ldc) * S, C[r][i] - d)
        if work is not None:
            for l in range(k):
                scratch(work + l * ldwork * S, nw)
        return 0
    X["LAPACKE_%slarfb_work" % c] = X["LAPACKE_%slarfb" % c] = larfb

    def larfx(o, side, m, n, v, *r):
        side = ch(side)
        if not P.cx:
            t = r[0]
            r = r[1:]
        elif P.es == 8:
            t = join(r[0], r[1])
            r = r[2:]
        else:
            t = join(*r[0])
            r = r[1:]
        cc, ldc = r[:2]
        m, n, ldc = map(I_, (m, n, ldc))
        if not top[0] and iszero(t):
            return 0
        nq = m if side == "L" else n
        if top[0]:
            P.touch(v, 1, nq, 1)
            P.touch(cc, m, n, ldc, True)
            if len(r) > 2 and r[2]:
                # the contents of the workspace (used for orders above 10) are unspecified afterwards
                P.touch(r[2], 1, n if side == "L" else m, 1, True, False)
            return 0
        w = [P.get(v + i * S) for i in range(nq)]
        C = P.mat(cc, m, n, ldc)
        for j in range(n if side == "L" else m):
            if side == "L":
                s = t * dot((cj(w[r]), C[j][r]) for r in range(m))
                for r in range(m):
                    P.put(cc + (r + j * ldc) * S, C[j][r] - w[r] * s)
            else:
                s = t * dot((C[r][j], w[r]) for r in range(n))
                for r in range(n):
                    P.put(cc + (j + r * ldc) * S, C[r][j] - s * cj(w[r]))
        return 0
    X["LAPACKE_%slarfx_work" % c] = larfx
