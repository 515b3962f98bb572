"""C14: gels, geqrs, gelqs: least-squares and minimum-norm solutions for every full-rank matrix within the bounds."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from chk import *
from qr import *
from chol import syms
import core, qrstub

PRECS = "zd" if QUICK else "zcds"
C = Check("C14", PRECS)
C.start()
E = setc()


def case(pr, m, n, nrhs, nb, ib, lq, ctrans, how="gels", tree=False, sym=(), seed=0, pad=0, nth=2):
    """m >= n: QR orientation; lq: the matrix given is the n x m conjugate transpose"""
    am, an = (n, m) if lq else (m, n)
    fac = NAMES_[lq][0]
    ls = ctrans == lq       # least squares problem (else minimum norm)

    def make(c):
        calls = recorded(c, pr, am, an, lq)
        sy = set(range(len(calls))) if sym == "all" else {s % len(calls) for s in sym}
        p = Problem(pr, m, n, calls, sy, seed, lq)
        c.norm = blas.NORM[0] = p.rules.reduce
        A = Arr("A", pr, am, an, am + pad, fill=lambda i, j: p.A[i, j] if i < am else None)
        T = Desc("T")
        qrstub.LARFG[0] = p.hook()
        R1 = D.M(n, n, lambda i, j: p.R[i, j])
        X = syms(pr, n, nrhs, "X")
        if ls:
            W = syms(pr, m, nrhs, "W")
            RX = R1 * X
            B0 = p.q(D.M(m, nrhs, lambda i, j: RX[i, j] if i < n else W[i, j]))
            want = D.M(m, nrhs, lambda i, j: X[i, j] if i < n else W[i, j])
        else:
            RY = R1.H * X
            B0 = D.M(n, nrhs, lambda i, j: RY[i, j])
            want = p.q(D.M(m, nrhs, lambda i, j: X[i, j] if i < n else 0))
        B = Arr("B", pr, m, nrhs, m + pad, fill=lambda i, j: B0[i, j] if i < B0.m else None)
        tr = K.N if not ctrans else (K.H if pr in "zc" else K.T)
        if how == "gels":
            seq = [("plasma_%sgels" % pr, [tr, am, an, nrhs, A, A.ld, T, B, B.ld], 0)]
        else:
            seq = [("plasma_%s%s" % (pr, fac), [am, an, A, A.ld, T], 0),
                   ("plasma_%s%s" % (pr, "gelqs" if lq else "geqrs"), [am, an, nrhs, A, A.ld, ByVal(T), B, B.ld], 0)]
        seq.append(("plasma_desc_destroy", [T], 0))

        def exp(ret):
            RT_ = p.R.H if lq else p.R
            up = lambda i, j: (i >= j) if lq else (i <= j)
            return [(A, {(i, j): RT_[i, j] if up(i, j) else lift(A.get(i, j)) for i in range(am) for j in range(an)}), (B, want.cells())]
        return (seq, [], [A, T, B], exp)
    lab = "%s%s(%s) %dx%d nrhs%d nb%d ib%d %s T%d sym%s s%d pad%d" % (
        pr, how if how == "gels" else "gelqs" if lq else "geqrs", "c" if ctrans else "n", am, an, nrhs, nb, ib, "tree" if tree else "flat", nth,
        sym if sym == "all" else ",".join(map(str, sym)), seed, pad)
    return CallCase(lab, make, nb=nb, ib=ib, tree=tree, nthreads=nth)


cases = []
FULL = ((1, 1, 2, 1), (2, 1, 2, 1), (2, 2, 2, 2), (3, 1, 2, 1), (3, 2, 2, 1), (3, 2, 3, 2), (4, 1, 2, 1), (3, 2, 1, 1), (4, 2, 2, 2), (3, 3, 2, 1))
PART = ((5, 3, 2, 1), (5, 5, 2, 2), (6, 4, 2, 1), (7, 3, 3, 1), (7, 5, 3, 2), (8, 4, 2, 2), (6, 5, 4, 3), (9, 2, 2, 1), (9, 3, 3, 3), (5, 4, 1, 1), (8, 2, 1, 1), (10, 4, 2, 1),
        (7, 7, 3, 2), (4, 3, 4, 2), (5, 2, 4, 4), (6, 1, 4, 1))
SOLVES = ((False, "gels"), (True, "gels"), (False, "rs"))
for pr in PRECS:
    for lq in (False, True):
        for tree in (False, True):
            for q, (m, n, nb, ib) in enumerate(FULL):
                for s, (ct, how) in enumerate(SOLVES):
                    if m == n and lq and how == "gels":      # gels uses QR then
                        continue
                    if m * n > 6 and not (ct == lq) and QUICK:
                        continue
                    cases.append(case(pr, m, n, 1 + (s + q) % 2, nb, ib, lq, ct, how, tree, "all", pad=(q + s) % 2, nth=1 + (q + s) % 3))
            for q, (m, n, nb, ib) in enumerate(PART):
                if QUICK and m * n > 34:
                    continue
                for s in range(2 if QUICK else 8):
                    sy = (int(hsh("s", m, n, s)[0] * 255) % 64, int(hsh("s", m, n, s)[1] * 255) % 64)
                    for t, (ct, how) in enumerate(SOLVES):
                        if m == n and lq and how == "gels":
                            continue
                        cases.append(case(pr, m, n, 1 + (s + q + t) % 4, nb, ib, lq, ct, how, tree, sy if s or t else (), s, pad=(s + q + t) % 2, nth=1 + (s + q + t) % 4))
C.bounds = dict(shapes="up to 10 x 7 and transposed", nb=[1, 2, 3, 4], ib="1..nb", householder=["flat", "tree"], threads=[1, 2, 3, 4], nrhs="1..4",
                reflectors="all symbolic for the shapes up to 4x2 and 3x3 (at most 3 entries of each); up to two symbolic and the rest fixed rational beyond",
                data="R (nonsingular), the solution and the residual component range over all values", precisions=PRECS)
C.outside = ["rounding error (arithmetic is exact)", "rank-deficient matrices (the documentation assumes full rank)",
             "reflector entries other than the fixed ones beyond the fully symbolic shapes", "larger shapes and tiles"]
if __name__ == "__main__":
    C.run_cases(cases)
    C.finish()
