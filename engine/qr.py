"""Inputs of QR/LQ problems.  Which matrix elements every Householder reflector of a factorization acts on is recorded from a first
execution of the real code; then A = H_1 ... H_N R is built for reflectors H_i = I - tau_i w_i w_i^H and R of which chosen ones are
fully symbolic (unitarity tau+tau~ = |tau|^2 w^H w is a rewriting rule) and the others have fixed rational values.  In the checked
execution LAPACK's larfg must receive exactly the column the construction predicts and answers with the reflector."""
from fractions import Fraction as Q
from chk import *
import core, qrstub, mem
from lu import hsh

VALS = [Q(1, 2), Q(-1, 2), Q(1, 3), Q(-1, 3), Q(1, 4), Q(-1, 4), Q(2, 5), Q(-2, 5)]


class Rules:
    def __init__(self):
        self.rules = []     # (mask lanes {lane: min exponent}, monomial removed, [(coef, monomial added)])

    def add(self, need, rem, repl):
        self.rules.append((need, rem, repl))

    def reduce(self, p):
        p = lift(p)
        if p.__class__ is not Poly or not self.rules:
            return p
        return poly.mk(self.rd(p.r), self.rd(p.i) if p.i else None)

    def rd(self, d):
        out = {}
        work = list(d.items())
        acc = {}
        while work:
            nxt = {}
            for m, c in work:
                ex = dict(poly.decode(m))
                for need, rem, repl in self.rules:
                    for l, e in need:
                        if ex.get(l, 0) < e:
                            break
                    else:
                        b = m - rem
                        for k, a in repl:
                            q = b + a
                            nxt[q] = nxt.get(q, 0) + c * k
                        break
                else:
                    out[m] = out.get(m, 0) + c
            work = [(m, c) for m, c in nxt.items() if c]
        return {m: c for m, c in out.items() if c}


def mono(p):
    """the monomial of a bare variable"""
    return next(iter(p.r))


class Refl:
    def __init__(self, idx, col):
        self.idx, self.col = idx, col


def record(run, arrs):
    """run the factorization on plain variables and record the elements of every larfg call: [(cells)] as (array, i, j)"""
    calls = []
    mp = {}

    def hook(P, n, al, x, incx, a, xs):
        if not mp:
            names = {}
            for A in arrs:
                for (i, j), v in A.init.items():
                    if v.__class__ is Poly and len(v.r) == 1:
                        names[mono(v)] = names[poly.conj_m(mono(v))] = (A.name, i, j)
            for o in RT.mallocs:
                if o.freed:
                    continue
                base = o.addr
                for off, v in list(o.c.items()):
                    v = v.p if v.__class__ is poly.RePart else v
                    if v.__class__ is Poly and len(v.r) == 1 and not v.i and mono(v) in names:
                        mp.setdefault(base + off, names[mono(v)])
        cells = [mp.get(al)] + [mp.get(x + k * incx * P.sz) for k in range(n - 1)]
        if None in cells:
            raise EngineError("reflector on unknown elements")
        calls.append(cells)
        return TOP, [TOP] * len(xs), TOP
    old = qrstub.LARFG[0]
    qrstub.LARFG[0] = hook
    try:
        run()
    finally:
        qrstub.LARFG[0] = old
    return calls



REC = {}
NAMES_ = {False: ("geqrf", "un%sqr", "or%sqr"), True: ("gelqf", "un%slq", "or%slq")}


def recorded(c, pr, m, n, lq):
    """the reflectors of the factorization of an m x n matrix"""
    key = (pr, m, n, lq, c.nb, c.ib, c.tree, c.mtpf, c.nthreads)
    if key not in REC:
        A = Arr("A", pr, m, n, m)
        T = Desc("T")

        def run():
            r = call("plasma_%s%s" % (pr, NAMES_[lq][0]), *lower([m, n, A, A.ld, T]))
            if r != 0:
                raise Violation("ret", "factorization returned %r" % (r,))
        calls = record(run, [A])
        out = []
        for cells in calls:
            ix = [(j, i) if lq else (i, j) for _, i, j in cells]
            if len(set(x[1] for x in ix)) > 1:
                raise Violation("value", "a reflector was generated from elements of several %s: %r" % ("rows" if lq else "columns", cells))
            out.append(([x[0] for x in ix], ix[0][1]))
        REC[key] = out
        c.start()
    return REC[key]


class Problem:
    """A = H_1 ... H_N R (lq: A^H), m x n matrix of the QR orientation; calls: recorded index lists [(rows, col)]"""

    def __init__(self, pr, m, n, calls, sym=(), seed=0, lq=False, rdiag=True, ones=()):
        self.pr, self.m, self.n, self.lq, self.ones = pr, m, n, lq, ones
        self.cx = cx = blas.PRS[pr].cx
        self.rules = Rules()
        self.h = []
        chain = set()
        for i, (rows, col) in enumerate(calls):
            first = (rows[0], col) not in chain
            chain.add((rows[0], col))
            # entries produced by an earlier reflector of the column are real, hence are those of this reflector
            self.h.append(self.refl(i, rows, col, i in sym, first, seed, [(r, col) in chain for r in rows[1:]]))
        self.R = D.M(m, n, lambda i, j: 0 if i > j else (self.rd("R%d_%d" % (i, j)) if i == j else self.rs("R%d_%d" % (i, j))))
        self.states()

    def rd(self, nm):
        p = poly.real(nm)
        core.WIT[len(poly.NAMES) - 1] = (1 + hsh(nm)[0]) * (1 if hsh(nm)[1] > .5 else -1)
        return p

    def rs(self, nm):
        return poly.cplx(nm) if self.cx else poly.real(nm)

    def refl(self, i, rows, col, symb, first, seed, real):
        cx = self.cx
        r = Refl(rows, col)
        k = len(rows) - 1
        hs = hsh("refl", i, seed, k)
        vals = [VALS[int(hsh("v", i, seed, q)[0] * 255) % len(VALS)] for q in range(k)]
        if cx:
            vals = [x + 0 if q % 2 or real[q] else (lift(x) * IM if hs[2] > .5 else x) for q, x in enumerate(vals)]
        scale = 1
        while sum(abs2(v) for v in vals) * scale * scale > (Q(1, 2) if cx else Q(9, 10)):
            scale = scale * Q(1, 2)
        vals = [v * scale for v in vals]
        if k == 0 and not (cx and first):
            r.v, r.tau = [], 0
            return r
        ct = cx and first       # complex tau
        if symb:
            pick = [int(hs[3] * 255) % k] if k else []
            pick = [(pick[0] + q) % k for q in range(min(k, 3))] if k else []
            vs = []
            for q in pick:
                nm = "v%d_%d" % (i, q)
                rl = real[q] or not cx
                p = poly.real(nm) if rl else poly.cplx(nm)
                w = numc(vals[q]) * .8
                setwit(w, not rl)
                vals[q] = p
                vs.append((p, w))
            s = 1 + sum(abs(numc(v)) ** 2 for v in vals if v.__class__ is not Poly or not v.vars()) + sum(abs(w) ** 2 for _, w in vs)
            t = poly.cplx("t%d" % i) if ct else poly.real("t%d" % i)
            tl = len(poly.NAMES) - (2 if ct else 1)
            if ct and k == 0:
                wt = 1.6 - .8j
            else:
                wt = (1.6 + .8j) / s if ct else 2 / s
            setwit(wt, ct)
            L8 = poly.LANE
            tm = mono(t)
            tc = poly.conj_m(tm)
            rest = 1 + sum((abs2(v) for q, v in enumerate(vals) if q not in pick[:1]), lift(0))
            rt = list(rest.r.items()) if rest.__class__ is Poly else [(0, rest)]
            if not pick:
                # t t~ = t + t~
                self.rules.add(((tl, 1), (tl + 1, 1)), tm + tc, [(1, tm), (1, tc)])
            else:
                p = vs[0][0]
                vm, vc = mono(p), poly.conj_m(mono(p))
                vl = [l for l, _ in poly.decode(vm)][0]
                nv = ((vl, 2),) if real[pick[0]] or not cx else ((vl, 1), (vl + 1, 1))
                if ct:
                    self.rules.add(((tl, 1), (tl + 1, 1)) + nv, tm + tc + vm + vc,
                                   [(1, tm), (1, tc)] + [(-c, tm + tc + q) for q, c in rt])
                else:
                    self.rules.add(((tl, 1),) + nv, tm + vm + vc, [(2, 0)] + [(-c, tm + q) for q, c in rt])
            r.v, r.tau = vals, t
            return r
        s = 1 + sum(abs2(v) for v in vals)
        if ct:
            r.tau = (lift(Q(8, 5)) + IM * Q(4 if k else -4, 5)) * (1 / Q(s))
        else:
            r.tau = 2 / Q(s)
        r.v = vals
        return r

    def apply(self, h, col, herm=False):
        """H * column (dict row -> value)"""
        t = cj(lift(h.tau)) if herm else lift(h.tau)
        if blas.iszero(t):
            return
        w = [lift(1)] + [lift(x) for x in h.v]
        s = lift(0)
        for r, x in zip(h.idx, w):
            c = col[r]
            if not blas.iszero(c):
                s = s + cj(x) * c
        if blas.iszero(s):
            return
        s = self.rules.reduce(s * t)
        for r, x in zip(h.idx, w):
            col[r] = self.rules.reduce(col[r] - x * s)

    def states(self):
        """column states just before and after every reflector, and A"""
        self.before = [None] * len(self.h)
        self.after = [None] * len(self.h)
        A = D.M(self.m, self.n)
        for c in range(self.n):
            col = {r: self.R[r, c] for r in range(self.m)}
            for i in reversed(range(len(self.h))):
                h = self.h[i]
                if h.col == c:
                    self.after[i] = [col[r] for r in h.idx]
                self.apply(h, col)
                if h.col == c:
                    self.before[i] = [col[r] for r in h.idx]
            for r in range(self.m):
                A[r, c] = lift(col[r])
        self.B = A
        self.A = A.H if self.lq else A

    def q(self, X, herm=False, cols=None):
        """Q X or Q^H X, Q the product of the reflectors (of the first cols columns)"""
        hs = [h for h in self.h if cols is None or h.col < cols]
        out = D.M(X.m, X.n)
        for c in range(X.n):
            col = {r: lift(X[r, c]) for r in range(X.m)}
            for h in (hs if herm else reversed(hs)):
                self.apply(h, col, herm)
            for r in range(X.m):
                out[r, c] = col[r]
        return out

    def hook(self):
        k = [0]

        def f(P, n, al, x, incx, a, xs):
            i = k[0]
            k[0] += 1
            if i >= len(self.h):
                raise Violation("value", "more reflectors than in the recorded execution")
            h = self.h[i]
            if len(h.idx) != n:
                raise Violation("value", "reflector %d has length %d, %d in the recorded execution" % (i, n, len(h.idx)))
            for q, (g, w) in enumerate(zip([a] + xs, self.before[i])):
                if not same(self.rules.reduce(lift(g) - w), 0):
                    raise Violation("value", "reflector %d (column %d): element %d given to the reflector generator is %s, the transformed matrix has %s" % (
                        i, h.col, h.idx[q], poly.show(self.rules.reduce(lift(g)), 4), poly.show(w, 4)))
            return self.after[i][0], list(h.v), h.tau
        self.count = k
        return f


def abs2(v):
    v = lift(v)
    return v * cj(v)


def numc(v):
    v = lift(v)
    if v.__class__ is Poly:
        return complex(v.r.get(0, 0), (v.i or {}).get(0, 0))
    return float(v)


def setwit(w, cx):
    l = len(poly.NAMES) - (2 if cx else 1)
    if cx:
        core.WIT[l] = complex(w)
        core.WIT[l + 1] = complex(w).conjugate()
    else:
        core.WIT[l] = float(w.real)


IM = poly.join(0, 1)
cj = poly.cj
