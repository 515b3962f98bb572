"""C07: layout translation is a lossless permutation for every storage kind.  An array is translated to tiles, the tiles are
compared with the tile accessors of the library, and translated back into a second array with other contents."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from chk import *

PRECS = "zd"
C = Check("C07", PRECS)
C.start()
E = setc()
PREC = {"z": E["PlasmaComplexDouble"], "d": E["PlasmaRealDouble"]}


def tilecheck(pr, desc, A, cells, band):
    """element (i,j) is found through plasma_tile_addr / plasma_tile_mmain"""
    P = blas.PRS[pr]
    ta = core.MACH.internal("plasma_tile_addr")
    mm = core.MACH.internal("plasma_tile_mmain_band" if band else "plasma_tile_mmain")

    def f():
        if ta is None or mm is None:
            return None
        pairs, nm = [], []
        with nolog():
            mb, nb = fld(desc, "mb"), fld(desc, "nb")
        for (i, j), v in cells.items():
            m, n = i // mb, j // nb
            c = lambda x: lower([ByVal(x)])[0]
            a = ta(c(desc), m, n)
            ld = mm(c(desc), m, n) if band else mm(c(desc), m)
            with nolog():
                pairs.append((P.get(a + (i % mb + (j % nb) * ld) * P.sz), v))
            nm.append((i, j))
        if not pairs:
            return None
        b = differ_query(pairs)
        if b is not None and b >= 0:
            return "tile element %r = %s, expected %s" % (nm[b], poly.show(lift(pairs[b][0]), 4), poly.show(lift(pairs[b][1]), 4))
        return None
    return f


def fld(desc, name):
    return mem.load(desc.p + E["off_" + name], 4, "i")


def case(label, pr, kind, make_create, arr_ld, m, n, to, back, cells, allowed, i0=0, j0=0, band=False, nthreads=2):
    """cells(A): (i,j)->array position; allowed: positions that may be rewritten with the value they had in the source"""
    def make(c):
        D0 = Desc("desc")
        seq, req = Raw("seq", 64), Raw("req", 64)
        ldA, ldB = arr_ld(1), arr_ld(2)
        rows = arr_ld(0)
        A = Arr("A", pr, rows, n, ldA)
        B = Arr("B", pr, rows, n, ldB)
        cm = cells(m, n)
        tile = {ij: A.init[rc] for ij, rc in cm.items()}
        calls = [make_create(D0), ("plasma_sequence_init", [seq], 0), ("plasma_request_init", [req], 0),
                 ("plasma_omp_%s%s" % (pr, to), [A, A.ld, ByVal(D0), seq, req], None),
                 tilecheck(pr, D0, A, {(i + i0, j + j0): v for (i, j), v in tile.items()} if (i0 or j0) is None else tile, band),
                 ("plasma_omp_%s%s" % (pr, back), [ByVal(D0), B, B.ld, seq, req], None),
                 ("plasma_desc_destroy", [D0], 0)]

        def exp(ret):
            out = {rc: A.init[rc] for rc in cm.values()}
            for rc in allowed(m, n):
                if rc not in out and rc[0] < rows and rc[1] < n:
                    g = B.get(*rc)
                    if same(g, A.init[rc]) or same(g, B.init[rc]):
                        out[rc] = g
                    else:
                        out[rc] = A.init[rc]
            return [(B, out)]
        c.want_ret = 0
        return (calls, [], [A, B, D0, seq, req], exp)
    return CallCase(label, make, nthreads=nthreads)


def general(pr, m, n, mb, nb, pad, i0=0, j0=0, m2=None, n2=None):
    lm, ln = (m + i0 + 1, n + j0 + 2) if (i0 or j0) else (m, n)
    return case("%sge2desc %dx%d mb%d nb%d pad%d sub%d,%d" % (pr, m, n, mb, nb, pad, i0, j0), pr, "ge",
                lambda d: ("plasma_desc_general_create", [PREC[pr], mb, nb, lm, ln, i0, j0, m, n, d], 0),
                lambda w: (max(1, m), max(1, m) + pad, max(1, m) + 2 * pad)[w], m, n, "ge2desc", "desc2ge",
                lambda m, n: {(i, j): (i, j) for i in range(m) for j in range(n)}, lambda m, n: [], i0, j0)


def tri(pr, uplo, n, nb, pad):
    return case("%str2desc %s %d nb%d pad%d" % (pr, K.un[uplo], n, nb, pad), pr, "tr",
                lambda d: ("plasma_desc_triangular_create", [PREC[pr], uplo, nb, nb, n, n, 0, 0, n, n, d], 0),
                lambda w: (n, n + pad, n + 2 * pad)[w], n, n, "tr2desc", "desc2tr",
                lambda m, n: {(i, j): (i, j) for i in range(n) for j in range(n) if D.intri(i, j, uplo == K.LO)},
                # the other triangle inside diagonal tiles travels with the tile
                lambda m, n: [(i, j) for i in range(n) for j in range(n) if i // nb == j // nb])


def band(pr, uplo, m, n, kl, ku, nb, pad):
    up = {K.UP: lambda: ((ku + nb - 1) // nb, 0, ku), K.LO: lambda: (0, (kl + nb - 1) // nb, 0),
          K.GE: lambda: ((ku + kl + nb - 1) // nb, (kl + nb - 1) // nb, ku + kl)}
    tku, tkl, off = up[uplo]()
    lm = (tku + tkl + 1) * nb
    rows = lm if uplo == K.GE else off + (kl if uplo == K.LO else 0) + 1
    akl, aku = (kl if uplo != K.UP else 0), (ku if uplo != K.LO else 0)

    def cells(m, n):
        return {(i, j): (off + i - j, j) for i in range(m) for j in range(n) if -aku <= i - j <= akl}

    def allowed(m, n):
        if uplo != K.GE:
            return []
        return [(off + i - j, j) for i in range(m) for j in range(n) if off + i - j >= 0 and i - j <= kl + nb + nb]
    return case("%spb2desc %s %dx%d kl%d ku%d nb%d pad%d" % (pr, K.un[uplo], m, n, kl, ku, nb, pad), pr, "pb",
                lambda d: ("plasma_desc_general_band_create", [PREC[pr], uplo, nb, nb, lm, n, 0, 0, m, n, kl, ku, d], 0),
                lambda w: (rows, rows + pad, rows + 2 * pad)[w], m, n, "pb2desc", "desc2pb", cells, allowed, band=True)


def gbfull(pr, m, n, kl, ku, nb, pad):
    tku, tkl = (ku + kl + nb - 1) // nb, (kl + nb - 1) // nb
    lm = (tku + tkl + 1) * nb

    def make(c):
        D0 = Desc("desc")
        seq, req = Raw("seq", 64), Raw("req", 64)
        A = Arr("A", pr, m, n, m + pad)
        tile = {(i, j): A.init[i, j] for i in range(m) for j in range(n) if -ku <= i - j <= kl}
        calls = [("plasma_desc_general_band_create", [PREC[pr], K.GE, nb, nb, lm, n, 0, 0, m, n, kl, ku, D0], 0),
                 ("plasma_sequence_init", [seq], 0), ("plasma_request_init", [req], 0),
                 ("plasma_omp_%sgb2desc" % pr, [A, A.ld, ByVal(D0), seq, req], None), tilecheck(pr, D0, A, tile, True),
                 ("plasma_desc_destroy", [D0], 0)]
        c.want_ret = 0
        return (calls, [], [A, D0, seq, req], lambda r: [])
    return CallCase("%sgb2desc %dx%d kl%d ku%d nb%d pad%d" % (pr, m, n, kl, ku, nb, pad), make)


R = range(1, 7) if QUICK else range(1, 9)
cases = []
for pr in PRECS:
    for m, n in product(R, R):
        for mb, nb in ((2, 2), (3, 3), (2, 3)):
            cases.append(general(pr, m, n, mb, nb, (m + n) % 2))
        cases.append(general(pr, m, n, 2, 2, 1, 2, 4))
        cases.append(general(pr, m, n, 3, 2, 0, 3, 0))
        for kl, ku in product(range(4), range(4)):
            if kl < m and ku < n:
                for nb in (2, 3):
                    if QUICK and (m + n + kl + ku) % 2:
                        continue
                    cases.append(band(pr, K.GE, m, n, kl, ku, nb, (m + n) % 2))
                    cases.append(gbfull(pr, m, n, kl, ku, nb, 1))
    for n in R:
        for u in (K.LO, K.UP):
            for nb in (2, 3, 4):
                cases.append(tri(pr, u, n, nb, 1))
                for kd in range(min(n, 5)):
                    cases.append(band(pr, u, n, n, kd, kd, nb, 1))
                    cases.append(band(pr, u, n, n, kd, kd, nb, 0))
C.bounds = dict(m=[1, R[-1]], n=[1, R[-1]], nb=[2, 3, 4], kl=[0, 3], ku=[0, 3], data="all values (symbolic)")
C.outside = ["larger dimensions", "translations interleaved with computation (C17)"]
C.run_cases(cases)
C.finish()
