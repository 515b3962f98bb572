"""C13: geqrf/gelqf with ungqr/unglq and unmqr/unmlq, flat and tree: Q R = A, and Q applied equals Q generated."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from chk import *
from qr import *
from chol import syms
import core, qrstub

PRECS = "zd" if QUICK else "zcds"
C = Check("C13", PRECS)
C.start()
E = setc()


def case(pr, m, n, nb, ib, lq=False, tree=False, sym=(), seed=0, ops=(), pad=0, nth=2, part=None):
    """m x n in QR orientation (the LQ matrix is n x m)"""
    am, an = (n, m) if lq else (m, n)
    fac, un, orr = NAMES_[lq]
    nm = un if pr in "zc" else orr

    def make(c):
        calls = recorded(c, pr, am, an, lq)
        sy = set(range(len(calls))) if sym == "all" else {s % len(calls) for s in sym}
        p = Problem(pr, m, n, calls, sy, seed, lq)
        c.norm = blas.NORM[0] = p.rules.reduce
        k = min(m, n)
        A = Arr("A", pr, am, an, max([am] + [o[1] for o in ops if lq and o[0] == "g"]) + pad, fill=lambda i, j: p.A[i, j] if i < am else None)
        T = Desc("T")
        hk = p.hook()
        qrstub.LARFG[0] = hk
        seq = [("plasma_%s%s" % (pr, fac), [am, an, A, A.ld, T], 0)]
        arrays = [A, T]
        want = []
        for o in ops:
            if o[0] == "g":         # generate nq rows/columns of Q from kk reflectors
                nq, kk = o[1], o[2]
                W = p.q(D.M(m, nq, lambda i, j: 1 if i == j else 0), cols=kk)
                qm, qn = (nq, m) if lq else (m, nq)
                if lq:
                    W = W.H
                Qa = Arr("Q%d" % len(want), pr, qm, qn, qm + pad)
                seq.append(("plasma_%s%s" % (pr, nm % "g"), [qm, qn, kk, A, A.ld, ByVal(T), Qa, Qa.ld], 0))
                arrays.append(Qa)
                want.append((Qa, W))
            else:
                side, tr, w, kk = o[1:]
                cm, cn = (m, w) if side == K.L else (w, m)
                S = syms(pr, cm, cn, "C%d_" % len(want))
                Ca = Arr("C%d" % len(want), pr, cm, cn, cm + pad, fill=lambda i, j, S=S, cm=cm: S[i, j] if i < cm else None)
                herm = (tr != K.N) != lq        # operation in terms of H_1 ... H_k
                if side == K.L:
                    W = p.q(S, herm, kk)
                else:
                    W = p.q(S.H, not herm, kk).H
                seq.append(("plasma_%s%s" % (pr, nm % "m"), [side, tr, cm, cn, kk, A, A.ld, ByVal(T), Ca, Ca.ld], 0))
                arrays.append(Ca)
                want.append((Ca, W))
        seq.append(("plasma_desc_destroy", [T], 0))

        def exp(ret):
            if p.count[0] != len(p.h):
                raise Mismatch("%d reflectors, %d in the recorded execution" % (p.count[0], len(p.h)))
            RT_ = p.R.H if lq else p.R
            up = lambda i, j: (i >= j) if lq else (i <= j)
            out = [(A, {(i, j): RT_[i, j] if up(i, j) else lift(A.get(i, j)) for i in range(am) for j in range(an)})]
            return out + [(a, W.cells()) for a, W in want]
        return (seq, [], arrays, exp)
    lab = "%s%s %dx%d nb%d ib%d %s T%d sym%s s%d pad%d %s" % (
        pr, fac, am, an, nb, ib, "tree" if tree else "flat", nth, sym if sym == "all" else ",".join(map(str, sym)), seed, pad,
        " ".join("g%d,%d" % o[1:] if o[0] == "g" else "m%s%s%d,%d" % (K.sn[o[1]], K.tn[o[2]], o[3], o[4]) for o in ops))
    return CallCase(lab, make, nb=nb, ib=ib, tree=tree, nthreads=nth)


def allops(pr, m, n, w=2):
    tr = (K.N, K.H if pr in "zc" else K.T)
    k = min(m, n)
    return [("g", k, k)] + [("m", s, t, w, k) for s in (K.L, K.R) for t in tr]


cases = []


FULL = ((1, 1, 2, 1), (2, 1, 2, 1), (2, 2, 2, 1), (2, 2, 2, 2), (3, 1, 2, 1), (1, 2, 2, 1), (2, 3, 2, 2), (3, 2, 2, 1), (3, 2, 3, 2), (4, 2, 2, 1), (4, 2, 2, 2), (5, 1, 2, 1),
        (3, 3, 2, 1), (4, 4, 2, 2), (3, 2, 1, 1), (4, 3, 1, 1), (2, 4, 1, 1))
PART = ((5, 3, 2, 1), (5, 5, 2, 2), (6, 4, 2, 1), (4, 6, 2, 1), (7, 3, 3, 1), (7, 5, 3, 2), (5, 7, 3, 2), (8, 4, 2, 2), (6, 5, 4, 3), (9, 2, 2, 1), (9, 3, 3, 3), (2, 7, 2, 1),
        (5, 4, 1, 1), (8, 2, 1, 1), (4, 8, 4, 3), (10, 4, 2, 1), (8, 8, 4, 2), (7, 7, 3, 2))
for pr in PRECS:
    for lq in (False, True):
        for tree in (False, True):
            # every reflector symbolic
            for m, n, nb, ib in FULL:
                for q, o in enumerate(allops(pr, m, n, 1)):
                    cases.append(case(pr, m, n, nb, ib, lq, tree, "all", ops=(o,), pad=q % 2, nth=1 + q % 3))
            # two reflectors symbolic, the others fixed
            for q, (m, n, nb, ib) in enumerate(PART):
                for s in range(2 if QUICK else 8):
                    sy = (int(hsh("s", m, n, s)[0] * 255) % 64, int(hsh("s", m, n, s)[1] * 255) % 64)
                    ops = allops(pr, m, n, 1 + (s + q) % 4)
                    cases.append(case(pr, m, n, nb, ib, lq, tree, sy, s, ops, pad=(s + q) % 2, nth=1 + (s + q) % 4))
            # more columns than reflectors, fewer reflectors than factored columns
            tr = (K.N, K.H if pr in "zc" else K.T)
            for m, n, nb, ib in ((4, 2, 2, 1), (5, 3, 2, 2), (6, 3, 2, 1), (7, 4, 3, 2), (8, 5, 2, 1), (6, 6, 4, 3), (5, 5, 1, 1), (4, 7, 2, 2)):
                k = min(m, n)
                for s, (nq, kk) in enumerate(((m, k), (m, max(1, k - 1)), (k, max(1, k - 2)), (max(1, k - 1), 1), (m - 1, max(1, k - 1)))):
                    kk = min(kk, nq)
                    ops = [("g", nq, kk), ("m", (K.L, K.R)[s % 2], tr[s // 2 % 2], 2, kk), ("m", (K.R, K.L)[s % 2], tr[(s + 1) % 2], 3, kk)]
                    cases.append(case(pr, m, n, nb, ib, lq, tree, (s, s + 3), s, ops, pad=s % 2, nth=1 + s % 3))
C.bounds = dict(shapes="1..10 rows, 1..8 columns", nb=[1, 2, 3, 4], ib="1..nb", householder=["flat", "tree"], threads=[1, 2, 3, 4],
                reflectors="all symbolic for the shapes up to 4x4 (at most 3 entries of each); two symbolic and the rest fixed rational beyond",
                data="R, the symbolic reflectors and the matrices Q is applied to range over all values", precisions=PRECS)
C.outside = ["rounding error (arithmetic is exact)", "reflector entries other than the fixed ones beyond the fully symbolic shapes",
             "columns that vanish exactly (tau = 0)", "larger shapes and tiles"]
if __name__ == "__main__":
    C.run_cases(cases)
    C.finish()
