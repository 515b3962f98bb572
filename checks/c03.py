"""C03: trsm, trtri, lauum are exact inverses/products."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from chk import *

PRECS = "zd"
C = Check("C03", PRECS)
C.start()
E = setc()


def solve_lower(Lm, B):
    """X with L X = B (L lower triangular)"""
    n, r = B.m, B.n
    X = D.M(n, r)
    for j in range(r):
        for i in range(n):
            s = B[i, j]
            for k in range(i):
                s = s - Lm[i, k] * X[k, j]
            X[i, j] = s if same(Lm[i, i], 1) else poly.div(s, Lm[i, i])
    return X


def solve_upper(U, B):
    n, r = B.m, B.n
    X = D.M(n, r)
    for j in range(r):
        for i in reversed(range(n)):
            s = B[i, j]
            for k in range(i + 1, n):
                s = s - U[i, k] * X[k, j]
            X[i, j] = s if same(U[i, i], 1) else poly.div(s, U[i, i])
    return X


def solve(Tm, low, B):
    return solve_lower(Tm, B) if low else solve_upper(Tm, B)


def trsm(pr, side, uplo, tr, dg, m, n, ka, pad, nb):
    def make(case):
        na = m if side == K.L else n
        A = Arr("A", pr, na, na, max(1, na) + pad)
        B = Arr("B", pr, m, n, max(1, m) + (pad and 2))
        al = scal(pr, ka, "alpha")

        def exp(ret):
            t = D.op(D.tri(D.of(A), uplo == K.LO, dg == K.UN), tr, E)
            low = (uplo == K.LO) == (tr == K.N)
            b = D.of(B).scale(al)
            X = solve(t, low, b) if side == K.L else solve(t.T, not low, b.T).T
            return [(B, X.cells())]
        return ("plasma_%strsm" % pr, [side, uplo, tr, dg, m, n, Sc(pr, al), A, A.ld, B, B.ld], [A, B], exp)
    return CallCase("%strsm %s%s%s%s %dx%d a%s pad%d nb%d" % (pr, K.sn[side], K.un[uplo], K.tn[tr], K.dn[dg], m, n, ka, pad, nb), make, nb=nb)


def trtri(pr, uplo, dg, n, pad, nb, zeros=()):
    def make(case):
        A = Arr("A", pr, n, n, max(1, n) + pad, fill=lambda i, j: 0 if i == j and i in zeros else None)
        if zeros:
            case.want_ret = None

        def exp(ret):
            low = uplo == K.LO
            if zeros and dg == K.NU:
                if ret not in [z + 1 for z in zeros]:
                    raise Mismatch("trtri returned %r for zero diagonal entries %r" % (ret, [z + 1 for z in zeros]))
                tri = {(i, j): lift(A.get(i, j)) for i in range(n) for j in range(n) if D.intri(i, j, low)}
                return [(A, tri)]
            if ret != 0:
                raise Mismatch("trtri returned %r" % (ret,))
            t = D.tri(D.of(A), low, dg == K.UN)
            X = solve(t, low, D.eye(n))
            return [(A, {(i, j): X[i, j] for i in range(n) for j in range(n) if D.intri(i, j, low) and not (i == j and dg == K.UN)})]
        return ("plasma_%strtri" % pr, [uplo, dg, n, A, A.ld], [A], exp)
    return CallCase("%strtri %s%s %d pad%d nb%d z%s" % (pr, K.un[uplo], K.dn[dg], n, pad, nb, "".join(map(str, zeros))), make, nb=nb)


def lauum(pr, uplo, n, pad, nb):
    def make(case):
        A = Arr("A", pr, n, n, max(1, n) + pad, fill=lambda i, j: poly.real("A%d_%d" % (i, i)) if i == j and i < n else None)

        def exp(ret):
            low = uplo == K.LO
            t = D.tri(D.of(A), low)
            X = t.H * t if low else t * t.H
            return [(A, {(i, j): X[i, j] for i in range(n) for j in range(n) if D.intri(i, j, low)})]
        return ("plasma_%slauum" % pr, [uplo, n, A, A.ld], [A], exp)
    return CallCase("%slauum %s %d pad%d nb%d" % (pr, K.un[uplo], n, pad, nb), make, nb=nb)


DIMS = [1, 2, 3, 5] if QUICK else [1, 2, 3, 4, 5, 6]
cases = []
for pr in PRECS:
    for side, uplo, tr, dg in product((K.L, K.R), (K.LO, K.UP), K.TR, (K.NU, K.UN)):
        for m, n in product(DIMS, DIMS):
            if QUICK and pr == "d" and (m + n) % 3:
                continue
            cases.append(trsm(pr, side, uplo, tr, dg, m, n, "s", 1, 2))
        for ka in "s01":
            cases.append(trsm(pr, side, uplo, tr, dg, 4, 3, ka, 0, 2))
            cases.append(trsm(pr, side, uplo, tr, dg, 3, 4, ka, 0, 2))
        cases.append(trsm(pr, side, uplo, tr, dg, 4, 5, "s", 0, 3))
        cases.append(trsm(pr, side, uplo, tr, dg, 7, 2, "s", 1, 3) if side == K.L else trsm(pr, side, uplo, tr, dg, 2, 7, "s", 1, 3))
    for uplo, dg in product((K.LO, K.UP), (K.NU, K.UN)):
        for n in range(1, 7):
            for pad in (0, 1):
                cases.append(trtri(pr, uplo, dg, n, pad, 2))
        cases.append(trtri(pr, uplo, dg, 7, 1, 3))
        for n, nb in ((1, 2), (3, 2), (5, 2), (4, 3)):
            for z in range(n):
                cases.append(trtri(pr, uplo, dg, n, 1, nb, (z,)))
        cases.append(trtri(pr, uplo, dg, 5, 0, 2, (1, 4)))
        cases.append(trtri(pr, uplo, dg, 5, 0, 2, (2, 3)))
    for uplo in (K.LO, K.UP):
        for n in range(1, 8):
            for pad in (0, 1):
                cases.append(lauum(pr, uplo, n, pad, 2))
        cases.append(lauum(pr, uplo, 8, 1, 3))
        cases.append(lauum(pr, uplo, 7, 1, 3))
C.bounds = dict(dims=DIMS, nb=[2, 3], scalars="symbolic, 0, 1", data="all values with nonzero diagonal (symbolic)", precisions=PRECS)
C.outside = ["rounding error (arithmetic is exact)", "dimensions and tile sizes above the listed ones"]
C.run_cases(cases)
C.finish()
