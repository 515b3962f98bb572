"""C10: pbtrf, pbtrs, pbsv on A = L L^H with a symbolic band factor L in LAPACK band storage."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from chk import *
from chol import *
import core

PRECS = "zd" if QUICK else "zcds"
C = Check("C10", PRECS)
C.start()
E = setc()


def pos(uplo, kd, i, j):
    """row of element (i,j) of the referenced triangle in band storage"""
    return i - j if uplo == K.LO else kd + i - j


def ref(uplo, kd, i, j):
    return 0 <= i - j <= kd if uplo == K.LO else 0 <= j - i <= kd


def band(pr, uplo, n, kd, pad, M):
    at = {(pos(uplo, kd, i, j), j): M[i, j] for i in range(n) for j in range(n) if ref(uplo, kd, i, j)}
    return Arr("AB", pr, kd + 1, n, kd + 1 + pad, fill=lambda r, j: at.get((r, j)))


def cells(uplo, n, kd, M):
    return {(pos(uplo, kd, i, j), j): M[i, j] for i in range(n) for j in range(n) if ref(uplo, kd, i, j)}


def now(AB, uplo, n, kd):
    return {k: lift(AB.get(*k)) for k in cells(uplo, n, kd, D.M(n, n))}


def rhs(pr, n, nrhs, pad, R):
    return Arr("B", pr, n, nrhs, max(1, n) + pad, fill=lambda i, j: R[i, j] if i < n else None)


def case(pr, fn, uplo, n, kd, nrhs, pad, nb, bad=None, kind="n"):
    def make(c):
        L = factor(pr, n, kd)
        M = L * L.H
        if bad is not None:
            core.INTWIT[0] = c.nosample = True
            spoil(M, L, bad, kind)
            c.want_ret = bad + 1
        F = L if uplo == K.LO else L.H
        AB = band(pr, uplo, n, kd, pad, F if fn == "pbtrs" else M)
        if fn == "pbtrf":
            return ("plasma_%spbtrf" % pr, [uplo, n, kd, AB, AB.ld], [AB],
                    lambda r: [(AB, now(AB, uplo, n, kd) if bad is not None else cells(uplo, n, kd, F))])
        X = syms(pr, n, nrhs, "X")
        R = L * (L.H * X)
        B = rhs(pr, n, nrhs, pad, R)

        def exp(r):
            if fn == "pbtrs":
                return [(B, X.cells())]
            if bad is not None:
                return [(AB, now(AB, uplo, n, kd)), (B, D.now(B, n, nrhs).cells())]
            return [(AB, cells(uplo, n, kd, F)), (B, X.cells())]
        return ("plasma_%s%s" % (pr, fn), [uplo, n, kd, nrhs, AB, AB.ld, B, B.ld], [AB, B], exp)
    return CallCase("%s%s %s n%d kd%d nrhs%d pad%d nb%d%s" % (pr, fn, K.un[uplo], n, kd, nrhs, pad, nb,
                    "" if bad is None else " minor%d%s" % (bad + 1, kind)), make, nb=nb)


cases = []
NMAX = 6 if QUICK else 8
for pr in PRECS:
    for uplo in (K.LO, K.UP):
        for n in range(1, NMAX + 1):
            for kd in range(0, n):
                if kd > 4 and QUICK and pr == "d":
                    continue
                cases.append(case(pr, "pbtrf", uplo, n, kd, 0, kd % 2, 2))
                for nrhs in (1, 3):
                    if nrhs == 3 and n > 4:
                        continue
                    cases.append(case(pr, "pbtrs", uplo, n, kd, nrhs, (n + 1) % 2, 2))
                    cases.append(case(pr, "pbsv", uplo, n, kd, nrhs, n % 2, 2))
        for n, kd, nb in ((7, 1, 3), (7, 2, 3), (7, 3, 3), (7, 4, 3), (8, 3, 3), (5, 2, 1), (4, 3, 1), (4, 1, 4), (5, 3, 4), (5, 4, 8), (8, 1, 2), (9, 3, 2)):
            cases.append(case(pr, "pbtrf", uplo, n, kd, 0, 1, nb))
            cases.append(case(pr, "pbtrs", uplo, n, kd, 2, 0, nb))
            if n < 8:
                cases.append(case(pr, "pbsv", uplo, n, kd, 2, 1, nb))
        for n, kd in ((4, 1), (5, 2), (5, 3), (6, 4)):
            for k in range(n):
                for kind in "zn":
                    cases.append(case(pr, "pbtrf", uplo, n, kd, 0, 0, 2, k, kind))
                cases.append(case(pr, "pbsv", uplo, n, kd, 1, 1, 2, k))
        cases += [case(pr, "pbtrs", uplo, 2, 1, 5, 1, 2), case(pr, "pbsv", uplo, 3, 1, 7, 0, 2), case(pr, "pbtrs", uplo, 5, 2, 5, 1, 3)]
C.bounds = dict(n="1..%d, every kd < n, with nb 2; other shapes up to n = 9 with nb 1, 3, 4, 8" % NMAX, nrhs=[1, 2, 3, 5, 7],
                data="every A = L L^H with band factor L, positive diagonal (symbolic); one failing minor at every position", precisions=PRECS)
C.outside = ["rounding error (arithmetic is exact)", "sizes above the listed ones", "kd >= n (rejected by the descriptor check)"]
C.run_cases(cases)
C.finish()
