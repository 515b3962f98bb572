"""C04: geadd, tradd, lacpy, laset, lascl, geswp element by element."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from chk import *

PRECS = "zd"
C = Check("C04", PRECS)
C.start()
E = setc()
ROW, COL = E["PlasmaRowwise"], E["PlasmaColumnwise"]


def sel(uplo, i, j):
    return uplo == K.GE or (i >= j if uplo == K.LO else i <= j)


def geadd(pr, tr, m, n, ka, kb, pad, nb, uplo=None):
    def make(case):
        ar, ac = (m, n) if tr == K.N else (n, m)
        A = Arr("A", pr, ar, ac, max(1, ar) + pad)
        B = Arr("B", pr, m, n, max(1, m) + (pad and 2))
        al, be = scal(pr, ka, "alpha"), scal(pr, kb, "beta")

        def exp(ret):
            X = D.op(D.of(A), tr, E).scale(al) + D.of(B).scale(be)
            low = uplo
            return [(B, {ij: v for ij, v in X.cells().items() if low is None or sel(low, *ij)})]
        a = [tr, m, n, Sc(pr, al), A, A.ld, Sc(pr, be), B, B.ld]
        return ("plasma_%s%sadd" % (pr, "ge" if uplo is None else "tr"), a if uplo is None else [uplo] + a, [A, B], exp)
    return CallCase("%s%sadd %s%s %dx%d a%s b%s pad%d nb%d" % (pr, "ge" if uplo is None else "tr", "" if uplo is None else K.un[uplo],
                    K.tn[tr], m, n, ka, kb, pad, nb), make, nb=nb)


def lacpy(pr, uplo, tr, m, n, pad, nb):
    def make(case):
        A = Arr("A", pr, m, n, max(1, m) + pad)
        br, bc = (m, n) if tr == K.N else (n, m)
        B = Arr("B", pr, br, bc, max(1, br) + (pad and 2))

        def exp(ret):
            out = {}
            for i in range(m):
                for j in range(n):
                    if sel(uplo, i, j):
                        v = A.init[i, j]
                        if tr == K.N:
                            out[i, j] = v
                        else:
                            out[j, i] = poly.cj(v) if tr == K.H else v
            return [(B, out)]
        return ("plasma_%slacpy" % pr, [uplo, tr, m, n, A, A.ld, B, B.ld], [A, B], exp)
    return CallCase("%slacpy %s%s %dx%d pad%d nb%d" % (pr, K.un[uplo], K.tn[tr], m, n, pad, nb), make, nb=nb)


def laset(pr, uplo, m, n, pad, nb):
    def make(case):
        A = Arr("A", pr, m, n, max(1, m) + pad)
        al, be = scal(pr, "s", "alpha"), scal(pr, "s", "beta")

        def exp(ret):
            return [(A, {(i, j): be if i == j else al for i in range(m) for j in range(n) if sel(uplo, i, j)})]
        return ("plasma_%slaset" % pr, [uplo, m, n, Sc(pr, al), Sc(pr, be), A, A.ld], [A], exp)
    return CallCase("%slaset %s %dx%d pad%d nb%d" % (pr, K.un[uplo], m, n, pad, nb), make, nb=nb)


def lascl(pr, uplo, m, n, pad, nb):
    def make(case):
        A = Arr("A", pr, m, n, max(1, m) + pad)
        cf, ct = poly.real("cfrom", pos=True), poly.real("cto")

        def exp(ret):
            f = poly.div(ct, cf)
            return [(A, {(i, j): A.init[i, j] * f for i in range(m) for j in range(n) if sel(uplo, i, j)})]
        return ("plasma_%slascl" % pr, [uplo, RealArg(pr, cf), RealArg(pr, ct), m, n, A, A.ld], [A], exp)
    return CallCase("%slascl %s %dx%d pad%d nb%d" % (pr, K.un[uplo], m, n, pad, nb), make, nb=nb)


def geswp(pr, colrow, m, n, ipiv, inc, pad, nb):
    def make(case):
        A = Arr("A", pr, m, n, max(1, m) + pad)
        k = m if colrow == ROW else n
        iv = Ints(k, [p + 1 for p in ipiv], "ipiv")

        def exp(ret):
            X = D.of(A)
            if colrow == COL:
                X = X.T
            sw = [(i, ipiv[i]) for i in range(k)]
            if inc < 0:
                sw = sw[::-1]
            X = X.perm_rows(sw)
            if colrow == COL:
                X = X.T
            return [(A, X.cells())]
        return ("plasma_%sgeswp" % pr, [colrow, m, n, A, A.ld, iv, inc], [A, iv], exp)
    return CallCase("%sgeswp %s %dx%d %s inc%d pad%d nb%d" % (pr, "RC"[colrow == COL], m, n, "".join(map(str, ipiv)), inc, pad, nb), make, nb=nb)


def gbset(pr, m, n, kl, ku, pad):
    def make(case):
        A = Arr("A", pr, m, n, max(1, m) + pad)
        case.want_ret = None

        def exp(ret):
            return [(A, {(i, j): A.init[i, j] if -ku <= i - j <= kl else 0 for i in range(m) for j in range(n)})]
        return ("plasma_%sgbset" % pr, [m, n, kl, ku, A, A.ld], [A], exp)
    return CallCase("%sgbset %dx%d kl%d ku%d pad%d" % (pr, m, n, kl, ku, pad), make)


DIMS = [1, 2, 3, 4, 5] if QUICK else [1, 2, 3, 4, 5, 6, 7]
rnd = random.Random(7)
cases = []
for pr in PRECS:
    for tr in K.TR:
        for m, n in product(DIMS, DIMS):
            cases.append(geadd(pr, tr, m, n, "s", "s", 1, 2))
            if m == n:      # tradd with a transposed triangle is only meaningful for square operands
                pass
        for ka, kb in product("s01", "s01"):
            cases.append(geadd(pr, tr, 4, 3, ka, kb, 0, 2))
            cases.append(geadd(pr, tr, 3, 5, ka, kb, 0, 2))
            for u in (K.LO, K.UP):
                cases.append(geadd(pr, tr, 5, 5, ka, kb, 0, 2, u))
        cases.append(geadd(pr, tr, 7, 8, "s", "s", 1, 3))
        for u in (K.LO, K.UP):
            for m, n in product(DIMS, DIMS):
                cases.append(geadd(pr, tr, m, n, "s", "s", 1, 2, u))
            cases.append(geadd(pr, tr, 8, 7, "s", "s", 1, 3, u))
            cases.append(geadd(pr, tr, 4, 8, "s", "s", 1, 3, u))
        for u in (K.LO, K.UP, K.GE):
            for m, n in product(DIMS, DIMS):
                if tr != K.N and m != n:
                    continue
                cases.append(lacpy(pr, u, tr, m, n, 1, 2))
                cases.append(lacpy(pr, u, tr, m, n, 0, 2))
            cases.append(lacpy(pr, u, tr, 8, 8, 1, 3))
    for u in (K.LO, K.UP, K.GE):
        for m, n in product(DIMS, DIMS):
            cases.append(laset(pr, u, m, n, 1, 2))
            cases.append(lascl(pr, u, m, n, 1, 2))
        for m, n in ((7, 8), (8, 4), (4, 8), (6, 6)):
            cases.append(laset(pr, u, m, n, 0, 3))
            cases.append(lascl(pr, u, m, n, 0, 3))
    for m, n in product(range(1, 7 if QUICK else 9), repeat=2):
        for kl, ku in product(range(min(m, 5)), range(min(n, 5))):
            cases.append(gbset(pr, m, n, kl, ku, (m + n + kl) % 2))
    for cr in (ROW, COL):
        for inc in (1, -1):
            for k in (1, 2, 3):
                for v in product(range(k), repeat=k):
                    m, n = (k, 3) if cr == ROW else (3, k)
                    cases.append(geswp(pr, cr, m, n, v, inc, 1, 2))
            for k in (5, 6, 7):
                for _ in range(6 if QUICK else 40):
                    v = tuple(rnd.randrange(k) for _ in range(k))
                    for nb in (2, 3):
                        for o in (1, 4):
                            m, n = (k, o) if cr == ROW else (o, k)
                            cases.append(geswp(pr, cr, m, n, v, inc, 1, nb))
C.bounds = dict(dims=DIMS, nb=[2, 3], scalars="symbolic, 0, 1", data="all values (symbolic)", pivots="all vectors of length <= 3, a seeded set of length 5..7",
                incx=[1, -1], precisions=PRECS)
C.outside = ["rounding error (arithmetic is exact)", "dimensions and tile sizes above the listed ones", "|incx| > 1"]
C.run_cases(cases)
C.finish()
