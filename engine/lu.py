"""Inputs of LU problems: A = P^T L U for a chosen interchange sequence, with symbolic L, U; the witness makes the sequence the
one partial pivoting takes, and z3 shows that it is the one for every input that makes the same comparisons."""
import hashlib
from chk import *
import core


def hsh(*a):
    h = hashlib.md5(repr(a).encode()).digest()
    return [b / 255.0 for b in h]


def witness(cx, name, mag, tag, seed, zero):
    x = hsh(name, seed)
    if zero:        # exact in binary arithmetic
        mag = mag * 2 if tag == "u" else mag
        v = (mag > .6 and 1 or .25) * (1 if x[1] > .5 else -1) * (1 + (tag == "u" and x[2] > .5))
        return complex(v, 0) if cx else v
    r = mag * (0.35 + 0.6 * x[0])
    s = 1 if x[1] > 0.5 else -1
    return complex(r * s * (0.6 + 0.3 * x[2]), r * 0.4 * (1 if x[3] > .5 else -1)) if cx else r * s


def entry(pr, name, mag, tag, seed, zero):
    cx = blas.PRS[pr].cx
    p = poly.cplx(name) if cx else poly.real(name)
    lane = len(poly.NAMES) - (2 if cx else 1)
    core.WIT[lane] = witness(cx, name, mag, tag, seed, zero)
    if cx:
        core.WIT[lane + 1] = core.WIT[lane].conjugate()
    return p


def factors(pr, m, n, seed=0, zero=(), scale=1.0, band=None):
    """unit lower L (m x k) and upper U (k x n); column j of U may have a zero pivot (then L(:,j) = 0 below).
    band = (kl, ku): entries of L outside kl below (in the unpermuted positions given by lpos) must be zeroed by the caller"""
    cx = blas.PRS[pr].cx
    k = min(m, n)

    def sy(name, mag, tag):
        return entry(pr, name, mag, tag, seed, zero)
    L = D.M(m, k, lambda i, j: 1 if i == j else 0 if i < j or j in zero else sy("L%d_%d" % (i, j), 0.55, "l"))
    U = D.M(k, n, lambda i, j: 0 if i > j or (i == j and i in zero) else sy("U%d_%d" % (i, j), (2.0 if i == j else 1.0) * scale, "u"))
    return L, U


def unpermute(M, ipiv):
    """undo the interchanges i <-> ipiv[i] (0-based), last first"""
    return M.perm_rows([(i, p) for i, p in reversed(list(enumerate(ipiv)))])


def lucells(L, U, m, n):
    k = min(m, n)
    return {(i, j): (L[i, j] if i > j else U[i, j]) for i in range(m) for j in range(n)}


def cabs1(v):
    v = lift(v)
    return poly.fabs_(poly.re(v)) + poly.fabs_(poly.im(v))


def zpos(s, terms):
    """constraints for abs atoms (>= 0)"""
    for l, (kind, args) in poly.ATOMINFO.items():
        if kind == "abs":
            s.add(fp.zvar(l)[0] >= 0)


def pivot_query(L, U, m, k, zero=(), rows=None):
    """z3: under the comparisons made, can any candidate exceed the chosen pivot of its column?  None if impossible"""
    s = z3.Solver()
    s.set("timeout", 20000)
    at = set()
    cons = []
    # comparisons as linear constraints over monomial/abs atoms
    tv = {}

    def lin(p):
        p = lift(p)
        if p.__class__ is not Poly:
            return fp.znum(p)
        ts = []
        for m_, c in p.r.items():
            v = tv.get(m_)
            if v is None:
                v = tv[m_] = z3.RealVal(1) if m_ == 0 else z3.Real("t%d" % len(tv))
                d = poly.decode(m_)
                if len(d) == 1 and d[0][1] == 1 and poly.ATOMINFO.get(d[0][0], ("",))[0] == "abs":
                    s.add(v >= 0)
            ts.append(fp.znum(c) * v)
        if p.i:
            raise EngineError("complex comparison")
        return z3.Sum(ts) if len(ts) > 1 else ts[0]
    for o, d, r in core.PC:
        d = lift(d)
        if d.__class__ is not Poly or d.i:
            continue
        t = lin(d)
        e = {"eq": t == 0, "ne": t != 0, "lt": t < 0, "le": t <= 0, "gt": t > 0, "ge": t >= 0}[o]
        s.add(e if r else z3.Not(e))
    viol = []
    for j in range(k):
        if j in zero:
            continue
        pv = cabs1(U[j, j]) if blas.PRS["z"] and blas_cx[0] else poly.fabs_(U[j, j])
        for i in range(j + 1, m):
            if rows is not None and not rows(i, j):
                continue
            c = L[i, j] * U[j, j]
            c = cabs1(c) if blas_cx[0] else poly.fabs_(c)
            viol.append(((i, j), lin(c - pv) > 0))
    if not viol:
        return None
    s.add(z3.Or([v for _, v in viol]))
    r = sym.check(s)
    if r == z3.unsat:
        return None
    if r == z3.unknown:
        return ("unknown",)
    md = s.model()
    for ij, v in viol:
        if z3.is_true(md.eval(v, True)):
            return ij
    return viol[0][0]


blas_cx = [True]


def bandlu(pr, m, n, kl, ku, ipiv, seed=0, zero=(), symbolic=True):
    """band A (m x n) with the interchanges ipiv; L in final row order (all interchanges applied), U, A.
    Row r of A is sum_k l_rk u_k (+ u_t when r is pivot of step t): l_rk is zero left of the band; right of the band row r vanishes
    through the choice of l_rc for c < t (u_cc = 1 for those c) and of u_tc for c >= t."""
    cx = blas.PRS[pr].cx
    if symbolic:
        blas_cx[0] = cx
    O = lift(0) if symbolic else 0
    eq0 = (lambda a: same(a, 0)) if symbolic else (lambda a: abs(a) < 1e-12)
    k = min(m, n)
    pos = list(range(m))
    for i, p in enumerate(ipiv):
        pos[i], pos[p] = pos[p], pos[i]
    S = lambda nm, mag, tag: (entry(pr, nm, mag, tag, seed, zero) if symbolic else witness(cx, nm, mag, tag, seed, zero))
    unit = {c for f in range(m) for c in range(max(0, pos[f] + ku + 1), min(f, k))}
    if unit & set(zero):
        return None
    L = {}
    U = {}
    for f in range(m):          # final row f is row r of A
        r = pos[f]
        acc = lambda c, top: sum((L[f, j] * U[j, c] for j in range(top) if (j, c) in U), O)
        for j in range(min(f, k)):
            if j < r - kl or j in zero:
                L[f, j] = 0
            elif j > r + ku:
                L[f, j] = -acc(j, j)
            else:
                L[f, j] = S("L%d_%d" % (f, j), .55 if not unit else .4, "l")
            if not symbolic and abs(complex(L[f, j]).real) + abs(complex(L[f, j]).imag) > .95:
                return None
        for c in range(f, n):
            if f >= k:
                if c > r + ku and not eq0(acc(c, k)):
                    return None
            elif c == f and f in zero:
                U[f, c] = 0
                if c > r + ku:
                    return None
            elif c == f and c in unit:
                if c > r + ku:
                    return None
                U[f, c] = O + 1
            elif c <= r + ku:
                U[f, c] = S("U%d_%d" % (f, c), 2.0 if c == f else 1.0 if not unit else .5, "u")
            else:
                U[f, c] = -acc(c, f)
                if c == f and eq0(U[f, c]):
                    return None
    if not symbolic:
        return True
    LM = D.M(m, k, lambda i, j: 1 if i == j else L.get((i, j), 0))
    UM = D.M(k, n, lambda i, j: U.get((i, j), 0))
    M = unpermute(LM * UM, ipiv)
    for i in range(m):
        for j in range(n):
            if not -ku <= i - j <= kl:
                if not same(M[i, j], 0):
                    raise EngineError("band parametrisation %d,%d: %s" % (i, j, poly.show(lift(M[i, j]), 6)))
                M[i, j] = lift(0)
    return LM, UM, M
