"""C15: hetrf, hetrs, hesv (Aasen).
(1) hetrf up to the band factorization: A = P^T L T L^H P with symbolic L (unit lower triangular, first block column that of the identity) and
symbolic Hermitian block-tridiagonal T (upper triangular blocks below the diagonal) for a chosen interchange sequence; L, T and the sequence must
come back; the solver shows that under the comparisons made each pivot is the largest candidate.
(2) hetrs on symbolic L, a band factorization of a symbolic band matrix T computed by gbtrf, and B = A X: B must become X.
(3) hesv on exact rational matrices (singular leading blocks, zero and permuted blocks included) with symbolic X: B must become X."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from chk import *
from lu import *
from chol import syms
from poly import cj
import numpy as np
import lu, core

PRECS = "zd" if QUICK else "zcds"
C = Check("C15", PRECS)
C.start()
E = setc()

GB = {"skip": False}


def nm(pr, b):
    return "plasma_%s%s" % (pr, b if blas.PRS[pr].cx else "sy" + b[2:])


ORIG = {}


def over(name):
    def g(*a):
        if GB["skip"]:
            return None
        o = ORIG.get(name)
        if o is None:
            o = ORIG[name] = core.MACH.translate(*core.MACH.defs[name])
        return o(*a)
    if name in core.MACH.defs:
        core.MACH.override[name] = g


for p in PRECS:
    over("plasma_p%sgbtrf" % p)


def tridiag(pr, n, nb, seed, zero, sy):
    """Hermitian T, block-tridiagonal, upper triangular blocks below the diagonal"""
    def rl(nme):
        p = poly.real(nme)
        core.WIT[len(poly.NAMES) - 1] = witness(False, nme, 1.0, "u", seed, ())
        return p
    T = {}
    for i in range(n):
        for j in range(i + 1):
            bi, bj = i // nb, j // nb
            if bi == bj:
                T[i, j] = rl("T%d_%d" % (i, j)) if i == j else sy("T%d_%d" % (i, j), 1.0, "u")
            elif bi == bj + 1 and i - bi * nb <= j - bj * nb:
                d = i - bi * nb == j - bj * nb
                T[i, j] = 0 if d and j in zero else sy("T%d_%d" % (i, j), 2.0 if d else .6, "u")
    return D.M(n, n, lambda i, j: T.get((i, j), 0) if i >= j else cj(lift(T.get((j, i), 0))))


def lowfac(n, nb, sy, zero):
    return D.M(n, n, lambda i, j: 1 if i == j else 0 if i < j or j < nb or j - nb in zero else sy("L%d_%d" % (i, j), .5, "l"))


def unperm2(M, ipiv, nb):
    """undo the symmetric interchanges"""
    s = [(i + nb, p) for i, p in enumerate(ipiv)]
    M = M.perm_rows(list(reversed(s)))
    return D.M(M.m, M.n, lambda i, j: M[j, i]).perm_rows(list(reversed(s))).T


def hetrf(pr, n, nb, ipiv, pad=0, seed=0, zero=(), mtpf=1, nth=2, ib=1):
    """ipiv: for i = 0 .. n-nb-1 the row exchanged with row nb+i"""
    def make(c):
        cx = blas.PRS[pr].cx
        lu.blas_cx[0] = cx
        sy = lambda nme, mag, tag: entry(pr, nme, mag, tag, seed, ())
        L = lowfac(n, nb, sy, zero)
        T = tridiag(pr, n, nb, seed, zero, sy)
        W = L * T * L.H
        M = unperm2(W, ipiv, nb)
        GB["skip"] = True
        A = Arr("A", pr, n, n, n + pad, fill=lambda i, j: M[i, j] if i >= j and i < n else None)
        ldt = 4 * nb
        TA = Arr("T", pr, ldt, n, ldt, fill=lambda i, j: None)
        P = Ints(n, name="ipiv")
        P2 = Ints(n, name="ipiv2")

        def exp(ret):
            k = max(0, n - nb)
            if k and not zero:
                L2 = D.M(k, k, lambda i, j: L[i + nb, j + nb])
                U2 = D.M(k, k, lambda i, j: T[i + nb, j] if i == j else 0)
                b = pivot_query(L2, U2, k, k, zero)
                if b is not None:
                    raise Mismatch("the pivot of column %s is not the largest candidate: row %s can exceed it" % (b[-1], b[0]))
            cells = {}
            for i in range(n):
                for j in range(i + 1):
                    cells[i, j] = L[i, j + nb] if j + nb < i else lift(A.get(i, j))
            kl = min(nb, n - 1)
            tc = {}
            for j in range(n):
                for i in range(n):
                    if abs(i - j) <= kl:
                        tc[2 * kl + i - j, j] = T[i, j]
            for j in range(n):
                for r in range(ldt):
                    if (r, j) not in tc:
                        tc[r, j] = lift(TA.get(r, j))
            pv = {i: i + 1 for i in range(min(nb, n))}
            pv.update({i + nb: p + 1 for i, p in enumerate(ipiv)})
            return [(A, cells), (TA, tc), (P, pv)]
        if zero:
            c.nosample = True
        return (nm(pr, "hetrf"), [K.LO, n, A, A.ld, P, TA, ldt, P2], [A, TA, P, P2], exp)
    lab = "%shetrf n%d nb%d ipiv%s pad%d t%d s%d%s" % (pr, n, nb, "".join(map(str, ipiv)), pad, mtpf, seed, " zero%r" % (zero,) if zero else "")
    return CallCase(lab, make, nb=nb, ib=ib, mtpf=mtpf, coop=True, nthreads=nth, native=False)


def hetrs(pr, n, nb, nrhs, ipiv, piv2, pad=0, seed=0):
    kl = min(nb, n - 1)
    if bandlu(pr, n, n, kl, kl, piv2, seed, (), False) is None:
        return None

    def make(c):
        GB["skip"] = False
        sy = lambda nme, mag, tag: entry(pr, nme, mag, tag, seed, ())
        LT, UT, T = bandlu(pr, n, n, kl, kl, piv2, seed, ())
        L = D.M(n, n, lambda i, j: 1 if i == j else 0 if i < j or j < nb else sy("K%d_%d" % (i, j), .5, "l"))
        ldt = 4 * nb
        at = {}
        for j in range(n):
            for i in range(n):
                if 0 <= 2 * kl + i - j < ldt:
                    at[2 * kl + i - j, j] = T[i, j]
        TA = Arr("T", pr, ldt, n, ldt, fill=lambda r, j: at.get((r, j), 0))
        X = syms(pr, n, nrhs, "X")
        R = L * (T * (L.H * X))
        R = R.perm_rows([(i + nb, p) for i, p in reversed(list(enumerate(ipiv)))])
        # X is the solution of P^T L T L^H P X = R
        Y = X.perm_rows([(i + nb, p) for i, p in reversed(list(enumerate(ipiv)))])
        A = Arr("A", pr, n, n, n + pad, fill=lambda i, j: L[i, j + nb] if i > j + nb and i < n else None)
        P = Ints(n, vals=[i + 1 for i in range(min(nb, n))] + [p + 1 for p in ipiv], name="ipiv")
        P2 = Ints(n, name="ipiv2")
        B = Arr("B", pr, n, nrhs, n + pad, fill=lambda i, j: R[i, j] if i < n else None)
        calls = [("plasma_%sgbtrf" % pr, [n, n, kl, kl, TA, ldt, P2], 0),
                 (nm(pr, "hetrs"), [K.LO, n, nrhs, A, A.ld, P, TA, ldt, P2, B, B.ld], 0)]
        tc = lambda: {(r, j): lift(TA.get(r, j)) for r in range(ldt) for j in range(n)}
        return (calls, [], [A, TA, P, P2, B], lambda ret: [(B, Y.cells()), (TA, tc()), (P2, {})])
    return CallCase("%shetrs n%d nb%d nrhs%d ipiv%s T%s pad%d s%d" % (pr, n, nb, nrhs, "".join(map(str, ipiv)), "".join(map(str, piv2)), pad, seed), make,
                    nb=nb, coop=True, nthreads=2, native=False)


def const(pr, kind, n, seed):
    """exact Hermitian matrices"""
    cx = blas.PRS[pr].cx

    def e(i, j):
        x = hsh("c15", kind, n, seed, i, j)
        v = lift(int(x[0] * 255) % 9 - 4)
        if cx and i != j:
            v = v + poly.I * (int(x[1] * 255) % 7 - 3)
        return v
    if kind == "eye":
        f = lambda i, j: int(i == j)
    elif kind == "flip":
        f = lambda i, j: int(i + j == n - 1)
    elif kind == "perm":        # symmetric permutation
        q = list(range(n))
        x = sorted(range(n), key=lambda i: hsh("q", seed, n, i))
        for a in range(0, n - 1, 2):
            q[x[a]], q[x[a + 1]] = x[a + 1], x[a]
        f = lambda i, j: int(q[i] == j)
    elif kind == "hollow":      # zero diagonal
        f = lambda i, j: 0 if i == j else e(i, j)
    elif kind == "sparse":
        f = lambda i, j: e(i, j) if hsh("s", seed, i, j, n)[2] < .4 else 0
    else:
        f = e
    return D.M(n, n, lambda i, j: lift(f(i, j)) if i >= j else cj(lift(f(j, i))))


def regular(M, n):
    """is the constant matrix nonsingular (floating-point rank decision far from the boundary: integer entries)"""
    a = np.array([[complex(poly.evaluate(lift(M[i, j]), {})) for j in range(n)] for i in range(n)])
    return abs(np.linalg.det(a)) > 1e-6


def hesv(pr, kind, n, nb, nrhs, pad=0, seed=0, mtpf=1, nth=2, ib=1):
    def make(c):
        GB["skip"] = False
        M = const(pr, kind, n, seed)
        X = syms(pr, n, nrhs, "X")
        R = M * X
        A = Arr("A", pr, n, n, n + pad, fill=lambda i, j: M[i, j] if i >= j and i < n else None)
        ldt = 4 * nb
        TA = Arr("T", pr, ldt, n, ldt, fill=lambda i, j: None)
        P = Ints(n, name="ipiv")
        P2 = Ints(n, name="ipiv2")
        B = Arr("B", pr, n, nrhs, n + pad, fill=lambda i, j: R[i, j] if i < n else None)
        c.nosample = True

        def exp(ret):
            return [(B, X.cells()), (A, {(i, j): lift(A.get(i, j)) for i in range(n) for j in range(i + 1)}),
                    (TA, {(r, j): lift(TA.get(r, j)) for r in range(ldt) for j in range(n)}), (P, {}), (P2, {})]
        return (nm(pr, "hesv"), [K.LO, n, nrhs, A, A.ld, P, TA, ldt, P2, B, B.ld], [A, TA, P, P2, B], exp)
    M = const(pr, kind, n, seed)
    if not regular(M, n):
        return None
    return CallCase("%shesv %s n%d nb%d nrhs%d pad%d t%d s%d" % (pr, kind, n, nb, nrhs, pad, mtpf, seed), make, nb=nb, ib=ib, mtpf=mtpf, coop=True, nthreads=nth)


def aasenpiv(n, nb, seed):
    """an interchange sequence: row nb+i with a row of the same or a later position"""
    k = max(0, n - nb)
    return tuple(nb + i + int(hsh("ap", n, nb, seed, i)[0] * 255) % (k - i) for i in range(k))


cases = []
for pr in PRECS:
    for n, nb in ((1, 2), (2, 2), (3, 2), (4, 2), (5, 2), (2, 1), (3, 1), (4, 1), (4, 3), (5, 3), (6, 3), (3, 4)) + (() if QUICK else ((6, 2), (5, 1), (7, 3), (8, 4), (7, 4))):
        for s in range(1 if n <= nb else 3 if QUICK else 10):
            cases.append(hetrf(pr, n, nb, aasenpiv(n, nb, s), pad=s % 2, seed=s))
    for n, nb, zero in ((4, 2, (0,)), (4, 2, (1,)), (5, 2, (1,)), (3, 1, (0,)), (4, 1, (1,))):
        k = n - nb
        cases.append(hetrf(pr, n, nb, tuple(range(nb, n)), zero=zero))
    cases.append(hetrf(pr, 5, 2, aasenpiv(5, 2, 7), seed=7, mtpf=4, nth=6))
    cases.append(hetrf(pr, 4, 1, aasenpiv(4, 1, 7), seed=7, mtpf=4, nth=6))
    for n, nb, nrhs in ((1, 2, 1), (2, 2, 2), (3, 2, 1), (4, 2, 2), (5, 2, 1), (3, 1, 2), (4, 1, 3), (4, 3, 1), (5, 3, 2)) + (() if QUICK else ((6, 2, 2), (5, 2, 3), (7, 3, 1))):
        for s in range(2 if QUICK else 6):
            kl = min(nb, n - 1)
            p2 = tuple(min(i + int(hsh("b", n, nb, s, i)[0] * 255) % (kl + 1), n - 1) for i in range(n))
            for q in (p2, tuple(range(n))):
                x = hetrs(pr, n, nb, nrhs, aasenpiv(n, nb, s), q, pad=s % 2, seed=s)
                if x is not None:
                    cases.append(x)
                    break
    for kind in ("rand", "eye", "flip", "perm", "hollow", "sparse"):
        for n, nb in ((1, 2), (2, 2), (3, 2), (4, 2), (5, 2), (6, 2), (7, 2), (7, 3), (8, 3), (9, 4), (4, 1), (6, 1), (9, 3), (10, 2)) + (() if QUICK else ((12, 3), (13, 4), (12, 2), (9, 2), (8, 1))):
            for s in range(1 if QUICK or kind in ("eye", "flip") else 6):
                x = hesv(pr, kind, n, nb, 1 + (n + s) % 3, pad=s % 2, seed=s + 1)
                if x is not None:
                    cases.append(x)
    for s in range(2 if QUICK else 8):
        for n, nb in ((7, 2), (9, 2), (10, 3)):
            x = hesv(pr, "rand", n, nb, 2, pad=1, seed=s + 40, mtpf=4, nth=6, ib=1 + s % 2)
            if x is not None:
                cases.append(x)
    # more than 3*mt/(mt-k-1) block columns to the left: the workspace tiles of the accumulation are used several times
    for kind, n, nb in (("rand", 15, 1), ("hollow", 14, 1)) + (() if QUICK else (("rand", 17, 1), ("sparse", 16, 1), ("rand", 30, 2))):
        x = hesv(pr, kind, n, nb, 1, seed=3, nth=12)
        if x is not None:
            cases.append(x)
cases = list({c.label: c for c in cases}.values())
C.bounds = dict(hetrf="n <= %d, nb 1 to 4, symbolic factors, selected interchange sequences" % (5 if QUICK else 8), hetrs="n <= 5 (7 thorough), symbolic L, T, X",
                hesv="n <= 10 (13 thorough), exact rational A of six kinds, every X", precisions=PRECS)
C.outside = ["rounding error (arithmetic is exact)", "uplo = Upper (rejected by the code)", "the upper triangle of the first block column and the units stored with L",
             "every A at once through all three stages: hesv is decided for the listed matrices A and every right-hand side"]
if __name__ == "__main__":
    C.run_cases(cases)
    C.finish(validate=2)
