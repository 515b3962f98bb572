"""C12: gbtrf, gbtrs, gbsv on a band matrix A = P^T L U with symbolic band factors and a chosen interchange sequence, in the
band storage of the library (element (i,j) in row kl+ku+i-j, (tku+tkl+1)*nb rows)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from chk import *
from lu import *
from chol import syms
import lu, core

PRECS = "zd" if QUICK else "zcds"
C = Check("C12", PRECS)
C.start()
E = setc()


def feasible(pr, m, n, kl, ku, ipiv, seed, zero):
    """the construction on the witness values: does it yield a matrix whose pivots are this sequence?"""
    return bandlu(pr, m, n, kl, ku, ipiv, seed, zero, False) is not None


class Band:
    def __init__(s, m, n, kl, ku, nb):
        s.m, s.n, s.kl, s.ku = m, n, kl, ku
        s.tku, s.tkl = -(-(ku + kl) // nb), -(-kl // nb)
        s.rows = (s.tku + s.tkl + 1) * nb

    def r(s, i, j):
        return s.kl + s.ku + i - j

    def arr(s, pr, M, pad):
        at = {}
        for j in range(s.n):
            for i in range(s.m):
                if 0 <= s.r(i, j) < s.rows:
                    at[s.r(i, j), j] = M[i, j]
        return Arr("AB", pr, s.rows, s.n, s.rows + pad, fill=lambda r, j: at.get((r, j)))

    def cells(s, AB, U):
        """U exactly; the multipliers as they are stored (their order is private to gbtrf/gbtrs)"""
        o = {}
        for j in range(s.n):
            for i in range(s.m):
                r = s.r(i, j)
                if 0 <= r < s.rows:
                    o[r, j] = U[i, j] if U is not None and i <= j else lift(AB.get(r, j))
        return o


def case(pr, fn, m, n, kl, ku, ipiv, nb, ib=1, mtpf=1, pad=0, seed=0, zero=(), nrhs=2, trs=(), nth=2):
    if not feasible(pr, m, n, kl, ku, ipiv, seed, zero):
        return None

    def make(c):
        L, U, M = bandlu(pr, m, n, kl, ku, ipiv, seed, zero)
        if zero:
            c.nosample = True
        k = min(m, n)
        pv = {i: p + 1 for i, p in enumerate(ipiv)}
        S = Band(m, n, kl, ku, nb)
        AB = S.arr(pr, M, pad)
        P = Ints(max(1, k), name="ipiv")

        def fexp(ret):
            if zero:
                return [(AB, S.cells(AB, None))]
            b = pivot_query(L, U, m, k, zero)
            if b is not None:
                raise Mismatch("the pivot of column %s is not the largest candidate: row %s can exceed it" % (b[-1], b[0]))
            return [(AB, S.cells(AB, U)), (P, pv)]
        c.want_ret = zero[0] + 1 if zero else 0
        trf = ("plasma_%sgbtrf" % pr, [m, n, kl, ku, AB, AB.ld, P])
        if fn == "gbtrf" and not trs:
            return trf + ([AB, P], fexp)
        Xs = [syms(pr, n, nrhs, "X%d" % i) for i in range(max(1, len(trs)))]
        Bs = [mat(pr, "B%d" % i, n, nrhs, pad, D.op(M, tr, E) * X) for i, (tr, X) in enumerate(zip(trs or (K.N,), Xs))]
        if fn == "gbsv":
            def sexp(ret):
                if zero:
                    return fexp(ret) + [(Bs[0], {ij: lift(Bs[0].get(*ij)) for ij in Xs[0].cells()})]
                return fexp(ret) + [(Bs[0], Xs[0].cells())]
            return ("plasma_%sgbsv" % pr, [n, kl, ku, nrhs, AB, AB.ld, P, Bs[0], Bs[0].ld], [AB, P, Bs[0]], sexp)
        calls = [trf + (0,)] + [("plasma_%sgbtrs" % pr, [tr, n, kl, ku, nrhs, AB, AB.ld, P, B, B.ld], 0) for tr, B in zip(trs, Bs)]
        return (calls, [], [AB, P] + Bs, lambda r: fexp(r) + [(B, X.cells()) for B, X in zip(Bs, Xs)])
    lab = "%s%s%s %dx%d kl%d ku%d ipiv%s nb%d ib%d t%d pad%d s%d%s%s" % (
        pr, fn, "".join("+" + K.tn[t] for t in trs), m, n, kl, ku, "".join(str(p) for p in ipiv), nb, ib, mtpf, pad, seed,
        " nrhs%d" % nrhs if trs or fn == "gbsv" else "", " zero%r" % (zero,) if zero else "")
    return CallCase(lab, make, nb=nb, ib=ib, mtpf=mtpf, coop=True, nthreads=nth)


def mat(pr, name, m, n, pad, M):
    return Arr(name, pr, m, n, max(1, m) + pad, fill=lambda i, j: M[i, j] if i < m else None)


def rpiv(m, n, kl, seed, none=False):
    return tuple(j if none else j + int(hsh("bpiv", m, n, kl, seed, j)[0] * 255) % (min(j + kl, m - 1) - j + 1) for j in range(min(m, n)))


def allpiv(m, n, kl):
    return list(product(*[range(j, min(j + kl, m - 1) + 1) for j in range(min(m, n))]))


TR3 = (K.N, K.T, K.H)
cases = []
for pr in PRECS:
    for m, n, kl, ku, nb, ib in ((3, 3, 1, 1, 2, 1), (4, 4, 1, 1, 2, 1), (4, 4, 2, 1, 2, 1), (4, 4, 1, 2, 3, 2), (4, 4, 3, 1, 2, 2), (5, 5, 1, 0, 2, 1),
                                 (5, 5, 1, 1, 2, 1), (5, 5, 1, 2, 1, 1), (3, 4, 1, 2, 2, 1), (4, 3, 1, 1, 2, 1), (5, 5, 0, 1, 2, 1), (5, 5, 0, 0, 2, 1), (5, 5, 2, 2, 2, 1)):
        al = allpiv(m, n, kl)
        if QUICK and len(al) > 40:
            al = al[::1 + len(al) // 30]
        for ip in al:
            if m == n:
                cases.append(case(pr, "gbtrf", m, n, kl, ku, ip, nb, ib, trs=TR3[:1 + (m < 4 or len(al) < 20) * 2], nrhs=1, pad=sum(ip) % 2))
            else:
                cases.append(case(pr, "gbtrf", m, n, kl, ku, ip, nb, ib, pad=sum(ip) % 2))
    for n, kl, ku, nb, ib in ((5, 1, 1, 2, 1), (6, 1, 1, 2, 2), (6, 2, 1, 2, 1), (6, 1, 2, 3, 2), (7, 1, 1, 3, 1), (7, 2, 0, 2, 1), (7, 2, 2, 2, 1), (6, 3, 1, 2, 2), (8, 1, 2, 2, 1),
                              (8, 3, 0, 2, 2), (9, 1, 0, 2, 1), (9, 0, 2, 2, 1), (6, 2, 3, 4, 2), (7, 3, 3, 2, 2), (8, 2, 4, 2, 1), (6, 5, 0, 2, 1), (6, 0, 5, 2, 1), (6, 5, 5, 2, 1)):
        for s in range(2 if QUICK else 6):
            big = kl > 2 and s
            ip = rpiv(n, n, kl, s, none=kl >= 3 and ku >= 3)
            cases.append(case(pr, "gbtrf", n, n, kl, ku, ip, nb, ib, trs=TR3 if kl < 3 else (TR3[s % 3],), nrhs=1 + s, seed=s, pad=s % 2))
            cases.append(case(pr, "gbsv", n, n, kl, ku, ip, nb, ib, nrhs=2 - s % 2, seed=s, pad=s % 2))
            if s == 0:
                cases.append(case(pr, "gbtrf", n, n, kl, ku, ip, nb, ib, 3, nrhs=1, trs=(K.N,), nth=3))
    for m, n, kl, ku, nb in ((7, 5, 1, 1, 2), (5, 7, 1, 1, 2), (6, 4, 2, 1, 2), (4, 6, 2, 3, 2), (3, 8, 1, 1, 2), (8, 3, 1, 0, 2), (8, 3, 3, 1, 2), (3, 8, 1, 4, 3), (6, 5, 2, 2, 4)):
        for s in range(3 if QUICK else 8):
            cases.append(case(pr, "gbtrf", m, n, kl, ku, rpiv(m, n, kl, s, none=s == 0), nb, 1 + s % 2, seed=s, pad=s % 2))
    for n, nrhs in ((1, 1), (2, 3), (3, 5), (4, 1), (5, 4)):
        for kl, ku in ((0, 0), (1, 0), (0, 1), (1, 1)):
            if kl < n and ku < n:
                cases.append(case(pr, "gbsv", n, n, kl, ku, rpiv(n, n, kl, n), 2, nrhs=nrhs))
    for n, kl, ku, nb in ((3, 1, 1, 2), (4, 1, 1, 2), (5, 2, 1, 2), (6, 1, 1, 3)):
        for z in range(n):
            ip = rpiv(n, n, kl, z)
            ip = ip[:z] + (z,) + ip[z + 1:]
            cases.append(case(pr, "gbtrf", n, n, kl, ku, ip, nb, zero=(z,)))
            cases.append(case(pr, "gbsv", n, n, kl, ku, ip, nb, zero=(z,)))
C.bounds = dict(shapes="orders 1..9, kl, ku 0..5; every admissible interchange sequence of the small band matrices, sampled ones above", nb=[1, 2, 3, 4], ib=[1, 2],
                panel_threads=[1, 3], nrhs=[1, 2, 3, 4, 5], data="A = P^T L U with symbolic band factors; witness comparisons fix the region, z3 shows the pivots are maximal there",
                precisions=PRECS)
C.outside = ["rounding error (arithmetic is exact)", "storage order of the multipliers (private to gbtrf/gbtrs, covered through the solves)",
             "fill area not zero on entry", "larger shapes", "kl >= m or ku >= n (rejected by the descriptor check)"]
print(sum(c is None for c in cases), 'infeasible of', len(cases))
C.run_cases([c for c in cases if c is not None])
C.finish()
