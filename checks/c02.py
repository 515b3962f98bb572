"""C02: syrk, herk, syr2k, her2k against the BLAS definition."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from chk import *

PRECS = "zd"
C = Check("C02", PRECS)
C.start()
E = setc()


def rk(pr, herm, two, uplo, tr, n, k, ka, kb, pad, nb):
    name = ("he" if herm else "sy") + ("r2k" if two else "rk")

    def make(case):
        ar, ac = (n, k) if tr == K.N else (k, n)
        A = Arr("A", pr, ar, ac, max(1, ar) + pad)
        B = Arr("B", pr, ar, ac, max(1, ar) + (pad and 2)) if two else None
        X = Arr("C", pr, n, n, max(1, n) + (pad and 1))
        al = scal(pr, ka, "alpha", real=herm and not two)
        be = scal(pr, kb, "beta", real=herm)

        def exp(ret):
            opn = (lambda M: M.H) if herm else (lambda M: M.T)
            a = D.of(A)
            if tr != K.N:
                a = opn(a)
            if two:
                b = D.of(B)
                if tr != K.N:
                    b = opn(b)
                P = (a * opn(b)).scale(al) + (b * opn(a)).scale(poly.cj(al) if herm else al)
            else:
                P = (a * opn(a)).scale(al)
            c = D.of(X)
            out = {}
            identity = (kb == "1" and (ka == "0" or k == 0))
            for i in range(n):
                for j in range(n):
                    if D.intri(i, j, uplo == K.LO):
                        v = c[i, j]
                        if herm and i == j and not identity:
                            v = poly.re(v)
                        out[i, j] = be * v + P[i, j]
            if identity and herm:
                # quick return: BLAS leaves C (and so the imaginary parts of the diagonal) alone, or clears them
                for i in range(n):
                    g = lift(X.get(i, i))
                    if same(g, poly.re(X.init[i, i])):
                        out[i, i] = g
            return [(X, out)]
        args = [uplo, tr, n, k, Sc(pr, al) if not (herm and not two) else RealArg(pr, al), A, A.ld]
        if two:
            args += [B, B.ld]
        args += [RealArg(pr, be) if herm else Sc(pr, be), X, X.ld]
        return ("plasma_%s%s" % (pr, name), args, [A, X] + ([B] if two else []), exp)
    return CallCase("%s%s %s%s n%d k%d a%s b%s pad%d nb%d" % (pr, name, K.un[uplo], K.tn[tr], n, k, ka, kb, pad, nb), make, nb=nb)


DIMS = [1, 2, 3, 4, 5] if QUICK else [1, 2, 3, 4, 5, 6, 7]
cases = []
for pr in PRECS:
    for herm, two in product((0, 1), (0, 1)):
        if herm and pr == "d":
            continue
        for uplo in (K.LO, K.UP):
            for tr in (K.N, K.H if herm else K.T):
                for n, k in product(DIMS, DIMS):
                    cases.append(rk(pr, herm, two, uplo, tr, n, k, "s", "s", 1, 2))
                for ka, kb in product("s01", "s01"):
                    for n, k in ((3, 5), (5, 2), (4, 3), (3, 0), (1, 4)):
                        cases.append(rk(pr, herm, two, uplo, tr, n, k, ka, kb, 0, 2))
                cases.append(rk(pr, herm, two, uplo, tr, 8, 7, "s", "s", 1, 3))
                cases.append(rk(pr, herm, two, uplo, tr, 7, 4, "s", "s", 1, 3))
C.bounds = dict(dims=DIMS, nb=[2, 3], scalars="symbolic, 0, 1", data="all values (symbolic)", precisions=PRECS)
C.outside = ["rounding error (arithmetic is exact)", "dimensions and tile sizes above the listed ones"]
C.run_cases(cases)
C.finish()
