"""C01: gemm, symm, hemm, trmm, gbmm against the BLAS definition."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from harness import *
import dense as D

PRECS = "zd"
C = Check("C01", PRECS)
C.start()
E = enum_consts()
N, T, H = E["PlasmaNoTrans"], E["PlasmaTrans"], E["PlasmaConjTrans"]
L, R, LO, UP = E["PlasmaLeft"], E["PlasmaRight"], E["PlasmaLower"], E["PlasmaUpper"]
NU, UN = E["PlasmaNonUnit"], E["PlasmaUnit"]
tn = {N: "n", T: "t", H: "c"}
DIMS = [1, 2, 3, 5] if TIER == "quick" else [1, 2, 3, 4, 5, 7]


def scal(pr, kind, name):
    if kind == "s":
        return poly.cplx(name) if blas.PRS[pr].cx else poly.real(name)
    return {"0": 0, "1": 1}[kind]


def gemm(pr, ta, tb, m, n, k, ka, kb, pad, nb):
    def make(case):
        ar, ac = (m, k) if ta == N else (k, m)
        br, bc = (k, n) if tb == N else (n, k)
        A = Arr("A", pr, ar, ac, max(1, ar) + pad)
        B = Arr("B", pr, br, bc, max(1, br) + (pad and 2))
        Cc = Arr("C", pr, m, n, max(1, m) + (pad and 1))
        al, be = scal(pr, ka, "alpha"), scal(pr, kb, "beta")

        def exp(ret):
            X = D.of(Cc).scale(be)
            if k and ka != "0":
                X = X + (D.op(D.of(A), ta, E) * D.op(D.of(B), tb, E)).scale(al)
            return [(Cc, X.cells())]
        return ("plasma_%sgemm" % pr, [ta, tb, m, n, k, Sc(pr, al), A, A.ld, B, B.ld, Sc(pr, be), Cc, Cc.ld], [A, B, Cc], exp)
    return CallCase("%sgemm %s%s %dx%dx%d a%s b%s pad%d nb%d" % (pr, tn[ta], tn[tb], m, n, k, ka, kb, pad, nb), make, nb=nb)


def symm(pr, herm, side, uplo, m, n, ka, kb, pad, nb):
    def make(case):
        na = m if side == L else n
        A = Arr("A", pr, na, na, max(1, na) + pad)
        B = Arr("B", pr, m, n, max(1, m) + (pad and 2))
        Cc = Arr("C", pr, m, n, max(1, m) + (pad and 1))
        al, be = scal(pr, ka, "alpha"), scal(pr, kb, "beta")

        def exp(ret):
            S = D.sym(D.of(A), uplo == LO, herm)
            P = S * D.of(B) if side == L else D.of(B) * S
            return [(Cc, (D.of(Cc).scale(be) + P.scale(al)).cells())]
        f = "hemm" if herm else "symm"
        return ("plasma_%s%s" % (pr, f), [side, uplo, m, n, Sc(pr, al), A, A.ld, B, B.ld, Sc(pr, be), Cc, Cc.ld], [A, B, Cc], exp)
    return CallCase("%s%s %s%s %dx%d a%s b%s pad%d nb%d" % (pr, "hemm" if herm else "symm", "LR"[side == R], "LU"[uplo == UP], m, n, ka, kb, pad, nb), make, nb=nb)


def trmm(pr, side, uplo, ta, diag, m, n, ka, pad, nb):
    def make(case):
        na = m if side == L else n
        A = Arr("A", pr, na, na, max(1, na) + pad)
        B = Arr("B", pr, m, n, max(1, m) + (pad and 2))
        al = scal(pr, ka, "alpha")

        def exp(ret):
            S = D.op(D.tri(D.of(A), uplo == LO, diag == UN), ta, E)
            P = S * D.of(B) if side == L else D.of(B) * S
            return [(B, P.scale(al).cells())]
        return ("plasma_%strmm" % pr, [side, uplo, ta, diag, m, n, Sc(pr, al), A, A.ld, B, B.ld], [A, B], exp)
    return CallCase("%strmm %s%s%s%s %dx%d a%s pad%d nb%d" % (pr, "LR"[side == R], "LU"[uplo == UP], tn[ta], "NU"[diag == UN], m, n, ka, pad, nb), make, nb=nb)


def gbmm(pr, ta, tb, m, n, k, kl, ku, ka, kb, pad, nb):
    """A is a full array holding a band matrix (entries outside the band are zero)"""
    def make(case):
        ar, ac = (m, k) if ta == N else (k, m)
        br, bc = (k, n) if tb == N else (n, k)
        A = Arr("A", pr, ar, ac, max(1, ar) + pad, fill=lambda i, j: 0 if i < ar and (j - i > ku or i - j > kl) else None)
        B = Arr("B", pr, br, bc, max(1, br) + (pad and 2))
        Cc = Arr("C", pr, m, n, max(1, m) + (pad and 1))
        al, be = scal(pr, ka, "alpha"), scal(pr, kb, "beta")

        def exp(ret):
            X = D.of(Cc).scale(be) + (D.op(D.of(A), ta, E) * D.op(D.of(B), tb, E)).scale(al)
            return [(Cc, X.cells())]
        return ("plasma_%sgbmm" % pr, [ta, tb, m, n, k, kl, ku, Sc(pr, al), A, A.ld, B, B.ld, Sc(pr, be), Cc, Cc.ld], [A, B, Cc], exp)
    return CallCase("%sgbmm %s%s %dx%dx%d kl%d ku%d a%s b%s pad%d nb%d" % (pr, tn[ta], tn[tb], m, n, k, kl, ku, ka, kb, pad, nb), make, nb=nb)


cases = []
for pr in PRECS:
    trs = (N, T, H)
    for ta, tb in itertools.product(trs, trs):
        for m, n, k in itertools.product(DIMS, repeat=3):
            if TIER == "quick" and pr == "d" and (m + 2 * n + 3 * k) % 3:
                continue
            cases.append(gemm(pr, ta, tb, m, n, k, "s", "s", 1, 2))
        for ka, kb in itertools.product("s01", repeat=2):
            for m, n, k in ((3, 4, 5), (3, 2, 0), (5, 3, 1)):
                cases.append(gemm(pr, ta, tb, m, n, k, ka, kb, 0, 2))
        cases.append(gemm(pr, ta, tb, 7, 5, 4, "s", "s", 1, 3))
        cases.append(gemm(pr, ta, tb, 4, 5, 7, "s", "s", 1, 3))
    for herm in (0, 1) if pr == "z" else (0,):
        for side, uplo in itertools.product((L, R), (LO, UP)):
            for m, n in itertools.product(DIMS + [6], repeat=2):
                cases.append(symm(pr, herm, side, uplo, m, n, "s", "s", 1, 2))
            for ka, kb in itertools.product("s01", repeat=2):
                cases.append(symm(pr, herm, side, uplo, 5, 3, ka, kb, 0, 2))
                cases.append(symm(pr, herm, side, uplo, 3, 5, ka, kb, 0, 2))
            cases.append(symm(pr, herm, side, uplo, 7, 8, "s", "s", 1, 3))
    for side, uplo, ta, dg in itertools.product((L, R), (LO, UP), trs, (NU, UN)):
        for m, n in itertools.product(DIMS + [6], repeat=2):
            if TIER == "quick" and pr == "d" and (m + n) % 2:
                continue
            cases.append(trmm(pr, side, uplo, ta, dg, m, n, "s", 1, 2))
        for ka in "s01":
            cases.append(trmm(pr, side, uplo, ta, dg, 5, 4, ka, 0, 2))
        cases.append(trmm(pr, side, uplo, ta, dg, 8, 7, "s", 0, 3))
    for ta, tb in itertools.product(trs, trs):
        for m, n, k in ((1, 1, 1), (5, 3, 5), (3, 5, 5), (5, 2, 3), (6, 3, 6), (4, 3, 7)):
            for kl, ku in ((0, 0), (1, 0), (0, 1), (1, 2), (2, 1), (3, 1), (9, 9)):
                ar, ac = (m, k) if ta == N else (k, m)
                kl2, ku2 = min(kl, ar - 1, m - 1), min(ku, ac - 1, k - 1)
                cases.append(gbmm(pr, ta, tb, m, n, k, kl2, ku2, "s", "s", 1, 2))
        for ka, kb in itertools.product("s01", repeat=2):
            cases.append(gbmm(pr, ta, tb, 5, 3, 4, 1, 1, ka, kb, 0, 2))
C.bounds = dict(dims=DIMS, nb=[2, 3], scalars="symbolic, 0, 1", data="all real/complex values (symbolic)", precisions=PRECS)
C.outside = ["rounding error (arithmetic is exact)", "dimensions and tile sizes above the listed ones", "precisions s and c share the template of d and z"]
C.run_cases(cases)
C.finish()
