"""C11: getrf, getrs, gesv, getri, geinv on A = P^T L U with symbolic L, U and a chosen interchange sequence."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from chk import *
from lu import *
from chol import fsub, bsub, syms
import lu, core

PRECS = "zd" if QUICK else "zcds"
C = Check("C11", PRECS)
C.start()
E = setc()


def setup(c, pr, m, n, ipiv, seed, zero=(), scale=1.0):
    lu.blas_cx[0] = blas.PRS[pr].cx
    L, U = factors(pr, m, n, seed, zero, scale)
    if scale != 1.0 or zero:
        c.nosample = True
    return L, U, unpermute(L * U, ipiv)


def mat(pr, name, m, n, pad, M):
    return Arr(name, pr, m, n, max(1, m) + pad, fill=lambda i, j: M[i, j] if i < m else None)


def pivcheck(L, U, m, k, zero):
    b = pivot_query(L, U, m, k, zero)
    if b is not None:
        raise Mismatch("the pivot of column %s is not the largest candidate: row %s can exceed it" % (b[-1], b[0]))


def inverse(L, U, ipiv, n):
    Y = fsub(L, D.eye(n))
    Y = bsub(U, Y)
    # A^-1 = (P^T L U)^-1 = U^-1 L^-1 P : column interchanges in reverse order
    T = Y.T.perm_rows([(i, p) for i, p in reversed(list(enumerate(ipiv)))])
    return T.T


def opm(M, tr):
    return D.op(M, tr, E)


def case(pr, fn, m, n, ipiv, nb, ib=1, mtpf=1, pad=1, seed=0, zero=(), scale=1.0, nrhs=0, tr=None, nth=2):
    def make(c):
        L, U, M = setup(c, pr, m, n, ipiv, seed, zero, scale)
        c.want_ret = zero[0] + 1 if zero else 0
        LU = D.M(m, n, lambda i, j: L[i, j] if i > j else U[i, j])
        k = min(m, n)
        pv = {i: p + 1 for i, p in enumerate(ipiv)}
        if fn == "getrf":
            A = mat(pr, "A", m, n, pad, M)
            P = Ints(max(1, k), name="ipiv")

            def exp(ret):
                if zero:
                    return [(A, D.now(A).cells())]
                pivcheck(L, U, m, k, zero)
                return [(A, LU.cells()), (P, pv)]
            return ("plasma_%sgetrf" % pr, [m, n, A, A.ld, P], [A, P], exp)
        if fn in ("getri", "geinv"):
            A = mat(pr, "A", n, n, pad, LU if fn == "getri" else M)
            P = Ints(n, vals=list(pv.values()) if fn == "getri" else None, name="ipiv")

            def exp(ret):
                if zero:
                    return [(A, D.now(A).cells())]
                if fn == "geinv":
                    pivcheck(L, U, n, n, zero)
                return [(A, inverse(L, U, ipiv, n).cells())]
            return ("plasma_%s%s" % (pr, fn), ([n, n] if fn == "geinv" else [n]) + [A, A.ld, P], [A, P], exp)
        X = syms(pr, n, nrhs, "X")
        if fn == "gesv":
            A = mat(pr, "A", n, n, pad, M)
            B = mat(pr, "B", n, nrhs, pad, M * X)
            P = Ints(n, name="ipiv")

            def exp(ret):
                if zero:
                    return [(A, D.now(A).cells()), (B, D.now(B).cells())]
                pivcheck(L, U, n, n, zero)
                return [(A, LU.cells()), (P, pv), (B, X.cells())]
            return ("plasma_%sgesv" % pr, [n, nrhs, A, A.ld, P, B, B.ld], [A, P, B], exp)
        A = mat(pr, "A", n, n, pad, LU)
        B = mat(pr, "B", n, nrhs, pad, opm(M, tr) * X)
        P = Ints(n, vals=list(pv.values()), name="ipiv")
        return ("plasma_%sgetrs" % pr, [tr, n, nrhs, A, A.ld, P, B, B.ld], [A, P, B], lambda ret: [(B, X.cells())])
    lab = "%s%s%s %dx%d ipiv%s nb%d ib%d t%d pad%d s%d%s%s%s" % (
        pr, fn, " " + K.tn[tr] if tr else "", m, n, "".join(str(p) for p in ipiv), nb, ib, mtpf, pad, seed, " nrhs%d" % nrhs if nrhs else "",
        " zero%r" % (zero,) if zero else "", " tiny" if scale != 1.0 else "")
    return CallCase(lab, make, nb=nb, ib=ib, mtpf=mtpf, coop=mtpf > 1, nthreads=nth)


def allpiv(m, n):
    return list(product(*[range(j, m) for j in range(min(m, n))]))


def rpiv(m, n, seed):
    return tuple(j + int(hsh("piv", m, n, seed, j)[0] * 255) % (m - j) for j in range(min(m, n)))


cases = []
for pr in PRECS:
    full = pr in "zc" or not QUICK
    # every interchange sequence of small matrices
    for m, n, nb, ib in ((1, 1, 2, 1), (2, 2, 2, 1), (3, 3, 2, 1), (3, 2, 2, 1), (2, 3, 2, 1), (4, 4, 2, 1), (4, 3, 2, 2), (4, 2, 2, 1), (5, 2, 2, 1), (3, 4, 3, 1),
                         (4, 4, 3, 2), (5, 3, 2, 1), (3, 3, 1, 1), (4, 4, 4, 2), (4, 4, 4, 3)):
        for ip in allpiv(m, n):
            cases.append(case(pr, "getrf", m, n, ip, nb, ib, pad=(m + n) % 2))
    for m, n, nb, ib in ((5, 5, 2, 1), (5, 5, 2, 2), (6, 6, 2, 1), (5, 7, 2, 1), (7, 5, 2, 2), (7, 7, 3, 2), (7, 7, 3, 1), (8, 4, 3, 3), (4, 8, 3, 2), (6, 6, 4, 2),
                         (7, 6, 6, 4), (8, 3, 2, 1), (9, 2, 2, 2)):
        for s in range(4 if QUICK else 16):
            cases.append(case(pr, "getrf", m, n, rpiv(m, n, s), nb, ib, pad=s % 2, seed=s))
    # several threads in the panel
    for m, n, nb, ib, t in ((4, 4, 2, 1, 2), (5, 5, 2, 1, 2), (5, 5, 2, 2, 3), (7, 4, 2, 1, 2), (7, 7, 2, 1, 3), (8, 4, 2, 2, 4), (6, 6, 3, 2, 2), (9, 6, 2, 1, 2), (4, 6, 2, 1, 2)):
        for s in range(4 if QUICK else 16):
            cases.append(case(pr, "getrf", m, n, rpiv(m, n, s + 50), nb, ib, t, pad=s % 2, seed=s, nth=3))
    for s in range(3):
        cases.append(case(pr, "gesv", 5, 5, rpiv(5, 5, s + 9), 2, 1, 2, seed=s, nrhs=2))
        cases.append(case(pr, "geinv", 4, 4, rpiv(4, 4, s + 9), 2, 1, 2, seed=s))
    # tiny pivots
    for m, n, nb in ((3, 3, 2), (5, 3, 2), (4, 4, 4), (5, 5, 3)):
        cases.append(case(pr, "getrf", m, n, rpiv(m, n, 3), nb, 1, scale=1e-309 if pr in "zd" else 1e-39))
    # zero pivots
    for m, n, nb, ib in ((1, 1, 2, 1), (3, 3, 2, 1), (4, 4, 2, 2), (5, 3, 2, 1), (3, 5, 2, 1), (5, 5, 3, 2)):
        for z in range(min(m, n)):
            ip = rpiv(m, n, z)
            ip = ip[:z] + (z,) + ip[z + 1:]
            cases.append(case(pr, "getrf", m, n, ip, nb, ib, zero=(z,)))
            if m == n:
                cases.append(case(pr, "gesv", n, n, ip, nb, ib, zero=(z,), nrhs=2))
                cases.append(case(pr, "geinv", n, n, ip, nb, ib, zero=(z,)))
                cases.append(case(pr, "getri", n, n, ip, nb, ib, zero=(z,)))
    for z in ((0, 2), (1, 3), (2, 3)):
        cases.append(case(pr, "getrf", 4, 4, tuple(range(4)), 2, 1, zero=z))
        cases.append(case(pr, "getrf", 4, 4, tuple(range(4)), 2, 1, 2, zero=z))
    # solves
    for n in range(1, 6):
        for nrhs in (1, 2, 3):
            for s in range(2):
                ip = rpiv(n, n, 7 * s + nrhs)
                cases.append(case(pr, "gesv", n, n, ip, 2, 1 + s, nrhs=nrhs, seed=s, pad=(n + s) % 2))
                for tr in K.TR:
                    cases.append(case(pr, "getrs", n, n, ip, 2, nrhs=nrhs, tr=tr, seed=s, pad=(n + nrhs) % 2))
    for ip in allpiv(3, 3) + allpiv(4, 4):
        for tr in K.TR:
            cases.append(case(pr, "getrs", len(ip), len(ip), ip, 2, nrhs=1, tr=tr))
        cases.append(case(pr, "getri", len(ip), len(ip), ip, 2))
    for ip in allpiv(3, 3):
        cases.append(case(pr, "geinv", 3, 3, ip, 2))
        cases.append(case(pr, "gesv", 3, 3, ip, 2, nrhs=3))
    for n in (1, 2, 3, 4, 5):
        for nb in (2, 3):
            for s in range(2):
                ip = rpiv(n, n, 31 * s + nb)
                cases.append(case(pr, "getri", n, n, ip, nb, seed=s, pad=s))
                cases.append(case(pr, "geinv", n, n, ip, nb, seed=s, pad=s, ib=nb))
    for n, nrhs, nb in ((6, 2, 2), (7, 1, 3), (3, 5, 2), (2, 7, 3), (5, 4, 4)):
        ip = rpiv(n, n, nb)
        cases.append(case(pr, "gesv", n, n, ip, nb, 2, nrhs=nrhs))
        for tr in K.TR:
            cases.append(case(pr, "getrs", n, n, ip, nb, nrhs=nrhs, tr=tr))
C.bounds = dict(shapes="every interchange sequence up to 4x4 (and 5x3), sampled sequences up to 9 rows", nb=[1, 2, 3, 4, 6], ib=[1, 2, 3, 4],
                panel_threads=[1, 2, 3, 4], nrhs=[1, 2, 3, 4, 5, 7],
                data="A = P^T L U with symbolic L, U; the comparisons of one witness per sequence fix the region, in which z3 shows the pivots are maximal",
                precisions=PRECS)
C.outside = ["rounding error (arithmetic is exact)", "other orders of the losing candidates than the witnesses'", "ties between pivot candidates", "larger shapes",
             "schedules of the panel threads other than round robin at synchronisation points (C17, C24)"]
C.run_cases(cases)
C.finish()
