"""C09: potrf, potrs, posv, potri, poinv.  A = L L^H with symbolic L: the factor returned must be L (or L^H), the solution of
A X = B with B = A X must be X, the inverse must be L^-H L^-1; with one non-positive pivot the reported order must be its index."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from chk import *
from chol import *
import core

PRECS = "zd" if QUICK else "zcds"
C = Check("C09", PRECS)
C.start()
E = setc()


def inlo(uplo, i, j):
    return D.intri(i, j, uplo == K.LO)


def fill_tri(pr, n, uplo, M):
    """fill function: triangle of M, arbitrary elsewhere"""
    return lambda i, j: M[i, j] if i < n and inlo(uplo, i, j) else None


def facof(uplo, L):
    return L if uplo == K.LO else L.H


def tricells(n, uplo, M):
    return {(i, j): M[i, j] for i in range(n) for j in range(n) if inlo(uplo, i, j)}


def nowtri(A, n, uplo):
    return {(i, j): lift(A.get(i, j)) for i in range(n) for j in range(n) if inlo(uplo, i, j)}


def fac(pr, uplo, n, pad, nb, bad=None, kind="z", fn="potrf", nrhs=0):
    def make(case):
        L = factor(pr, n)
        M = L * L.H
        if bad is not None:
            core.INTWIT[0] = case.nosample = True
            spoil(M, L, bad, kind)
            case.want_ret = bad + 1
            for x in again:
                spoil(M, L, x, "n")
        A = Arr("A", pr, n, n, max(1, n) + pad, fill=fill_tri(pr, n, uplo, M))
        if fn == "posv":
            X = syms(pr, n, nrhs, "X")
            R = M * X if bad is None else X
            B = Arr("B", pr, n, nrhs, max(1, n) + pad, fill=lambda i, j: R[i, j] if i < n else None)

            def exp(ret):
                if bad is not None:
                    return [(A, nowtri(A, n, uplo)), (B, D.now(B, n, nrhs).cells())]
                return [(A, tricells(n, uplo, facof(uplo, L))), (B, X.cells())]
            return ("plasma_%sposv" % pr, [uplo, n, nrhs, A, A.ld, B, B.ld], [A, B], exp)

        def exp(ret):
            if bad is not None:
                return [(A, nowtri(A, n, uplo))]
            if fn == "potrf":
                return [(A, tricells(n, uplo, facof(uplo, L)))]
            Y = fsub(L, D.eye(n))
            return [(A, tricells(n, uplo, Y.H * Y))]
        return ("plasma_%s%s" % (pr, fn), [uplo, n, A, A.ld], [A], exp)
    again = ()
    if isinstance(bad, tuple):
        bad, again = bad[0], bad[1:]
    return CallCase("%s%s %s n%d%s pad%d nb%d%s" % (pr, fn, K.un[uplo], n, " nrhs%d" % nrhs if fn == "posv" else "", pad, nb,
                    "" if bad is None else " minor%s%s%s" % (bad + 1, kind, again or "")), make, nb=nb)


def potrs(pr, uplo, n, nrhs, pad, nb):
    def make(case):
        L = factor(pr, n)
        F = facof(uplo, L)
        A = Arr("A", pr, n, n, max(1, n) + pad, fill=fill_tri(pr, n, uplo, F))
        X = syms(pr, n, nrhs, "X")
        R = L * (L.H * X)
        B = Arr("B", pr, n, nrhs, max(1, n) + pad, fill=lambda i, j: R[i, j] if i < n else None)
        return ("plasma_%spotrs" % pr, [uplo, n, nrhs, A, A.ld, B, B.ld], [A, B], lambda ret: [(B, X.cells())])
    return CallCase("%spotrs %s n%d nrhs%d pad%d nb%d" % (pr, K.un[uplo], n, nrhs, pad, nb), make, nb=nb)


def potri(pr, uplo, n, pad, nb, zero=None):
    def make(case):
        L = factor(pr, n)
        if zero is not None:
            L[zero, zero] = 0
            case.want_ret = zero + 1
        F = facof(uplo, L)
        A = Arr("A", pr, n, n, max(1, n) + pad, fill=fill_tri(pr, n, uplo, F))

        def exp(ret):
            if zero is not None:
                return [(A, nowtri(A, n, uplo))]
            Y = fsub(L, D.eye(n))
            return [(A, tricells(n, uplo, Y.H * Y))]
        return ("plasma_%spotri" % pr, [uplo, n, A, A.ld], [A], exp)
    return CallCase("%spotri %s n%d pad%d nb%d%s" % (pr, K.un[uplo], n, pad, nb, "" if zero is None else " zero%d" % (zero + 1)), make, nb=nb)


cases = []
NMAX = 6 if QUICK else 8
for pr in PRECS:
    for uplo in (K.LO, K.UP):
        for n in range(1, NMAX + 1):
            for pad in (0, 2):
                cases.append(fac(pr, uplo, n, pad, 2))
        for n in range(1, NMAX + 1):
            cases.append(potri(pr, uplo, n, n % 2, 2))
            cases.append(fac(pr, uplo, n, n % 2, 2, fn="poinv"))
        cases += [fac(pr, uplo, 7, 1, 3), fac(pr, uplo, 4, 1, 4), fac(pr, uplo, 3, 0, 8), fac(pr, uplo, 7, 0, 2), fac(pr, uplo, 8, 1, 3)]
        cases += [fac(pr, uplo, 5, 1, 1), potri(pr, uplo, 4, 1, 1), fac(pr, uplo, 4, 1, 1, fn="poinv")]
        cases += [potri(pr, uplo, 5, 1, 3), fac(pr, uplo, 5, 1, 3, fn="poinv"), potri(pr, uplo, 4, 0, 4)]
        for n, nb in ((1, 2), (2, 2), (4, 2), (5, 2), (5, 3), (3, 3)):
            for k in range(n):
                for kind in "zn":
                    cases.append(fac(pr, uplo, n, 1, nb, k, kind))
                cases.append(fac(pr, uplo, n, 0, nb, k, "n", fn="posv", nrhs=2))
                cases.append(fac(pr, uplo, n, 0, nb, k, "z", fn="poinv"))
                cases.append(potri(pr, uplo, n, 1, nb, k))
        for k in ((0, 3), (1, 2), (2, 4), (1, 2, 4), (3, 4)):
            cases.append(fac(pr, uplo, 5, 1, 2, k, "n"))
            cases.append(fac(pr, uplo, 5, 1, 2, k, "n", fn="posv", nrhs=1))
        for n in range(1, NMAX):
            for nrhs in (1, 2, 3, 5):
                cases.append(potrs(pr, uplo, n, nrhs, (n + nrhs) % 2, 2))
                if n + nrhs <= 7:
                    cases.append(fac(pr, uplo, n, (n + nrhs + 1) % 2, 2, fn="posv", nrhs=nrhs))
        cases += [potrs(pr, uplo, 7, 2, 1, 3), potrs(pr, uplo, 2, 7, 1, 3), fac(pr, uplo, 5, 1, 3, fn="posv", nrhs=4)]
C.bounds = dict(n="1..%d with nb 2, up to 8 with nb 3, 4, 8, 1" % NMAX, nrhs=[1, 2, 3, 4, 5, 7], nb=[1, 2, 3, 4, 8],
                data="every A = L L^H with L lower triangular, positive diagonal (all symbolic); one or several failing minors at every position",
                precisions=PRECS)
C.outside = ["rounding error (arithmetic is exact)", "sizes above the listed ones"]
C.run_cases(cases)
C.finish()
