"""C05: norms.  For every explored witness the value is one of the candidate sums, and z3 shows that no candidate can
exceed it anywhere in the region of inputs that follow the same comparisons; Frobenius norms are compared squared."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from chk import *

PRECS = "zd"
C = Check("C05", PRECS)
C.start()
E = setc()
MAX, ONE, INF, FRO = (E["Plasma%sNorm" % x] for x in ("Max", "One", "Inf", "Frobenius"))
NN = {MAX: "M", ONE: "1", INF: "I", FRO: "F"}


def square_out(v):
    """v*v with even powers of abs/sqrt atoms replaced by their definition"""
    p = lift(v) * lift(v)
    for it in range(6):
        if p.__class__ is not Poly:
            return p
        tot = 0
        hassqrt = any(poly.ATOMINFO.get(l, ("",))[0] == "sqrt" for l in p.vars())
        ch = False
        for d, f in ((p.r, 1), (p.i or {}, poly.I)):
            for m, c in d.items():
                t = f * c
                for l, e in poly.decode(m):
                    info = poly.ATOMINFO.get(l)
                    x = Poly({(abs(e) << (8 * l)): 1}, None) if e > 0 else None
                    if info is not None and e > 0 and e % 2 == 0:
                        a = lift(info[1][0])
                        b = a * poly.cj(a) if info[0] == "abs" and not hassqrt else a if info[0] == "sqrt" else None
                        if b is not None:
                            ch = True
                            x = 1
                            for _k in range(e // 2):
                                x = b * x
                    if x is None:
                        x = Poly({-((-e) << (8 * l)): 1}, None)
                    t = x * t
                tot = t + tot
        p = lift(tot)
        if not ch:
            return p
    return p


class NormCase:
    def __init__(self, label, make, nb, nwit):
        self.label, self.make, self.nb, self.nwit = label, make, nb, nwit

    def run(self):
        k = 0
        sample = None
        while True:
            r, n, d = self.one(k)
            if r is not None:
                return Outcome(self.label, "bad", r[0], r[1], d)
            sample = sample or d
            k += 1
            if k >= n + 2:
                break
        return Outcome(self.label, "ok", sample=sample)

    def one(self, k):
        begin(nthreads=2)
        setup_plasma(self.nb)
        fname, args, arrays, groups, out = self.make()
        # groups: list of candidate-lists (one per output value); each candidate is a list of abs values to be summed
        allc = [c for g in groups for c in g]
        inside = set()
        for c in allc:
            for x in c:
                inside |= lift(x).vars() if lift(x).__class__ is Poly else set()
        els = set()
        for a in inside:
            info = poly.ATOMINFO.get(a)
            if info:
                els |= {l for l in lift(info[1][0]).vars()}
        lanes = [l for l in range(len(poly.NAMES)) if l not in poly.ATOMINFO]
        n = min(self.nwit, len(allc))
        if k == 1:      # everything outside the norm is huge
            for l in lanes:
                if l not in els and poly.CONJ[l] >= l:
                    WIT[l] = 1e3 + l if poly.CONJ[l] == l else complex(1e3 + l, 1e3 - l)
            if blas.PRS[fname[7] if fname[7] in "zd" else "d"].cx:
                pass
        elif k >= 2:
            step = max(1, len(allc) // max(1, n))
            c = allc[((k - 2) * step + SEEDV * 3) % len(allc)]
            for x in c:
                for a in (lift(x).vars() if lift(x).__class__ is Poly else ()):
                    info = poly.ATOMINFO.get(a)
                    if info:
                        for l in lift(info[1][0]).vars():
                            if poly.CONJ[l] >= l:
                                WIT[l] = 50.0 + l if poly.CONJ[l] == l else complex(50.0 + l, -40.0 - l)
        data = None
        try:
            ret = call(fname, *lower(args))
            vals = [ret] if out is None else [out.get(0, j) for j in range(out.n)] if isinstance(out, Arr) else None
            if out is not None and ret != 0:
                return ("ret", "%s returned %r" % (fname, ret)), n, self.data(fname, args, arrays, [], 0)
            bad = self.verdict(groups, vals)
        except Violation as v:
            return (v.kind, v.msg), n, self.data(fname, args, arrays, None, 0)
        wantv = [self.num(g) for g in groups]
        data = self.data(fname, args, arrays, wantv, 0, out)
        if bad is None:
            for a in arrays:
                if a is not out and a.changed():
                    return ("frame", "%s%r was changed" % (a.name, a.changed()[0])), n, data
            if [o for o in RT.mallocs if not o.freed]:
                return ("leak", "allocations are not released"), n, data
            return None, n, data
        return ("value", bad), n, data

    def num(self, g):
        if self.fro:
            return sum(float(abs(evalp(x)) ** 2) for c in g for x in c) ** 0.5
        return max((sum(float(abs(evalp(x))) for x in c) for c in g), default=0.0)

    fro = False

    def verdict(self, groups, vals):
        for g, v in zip(groups, vals):
            if v is TOP or v.__class__ is Undef:
                return "result is undefined"
            if self.fro:
                want = 0
                for c in g:
                    for x in c:
                        want = square_out(x) + want
                got = square_out(v)
                if differ_query([(got, want)]) is not None:
                    return "squared norm = %s, expected %s" % (poly.show(got, 6), poly.show(lift(want), 6))
                continue
            cand = []
            for c in g:
                t = 0
                for x in c:
                    t = x + t
                cand.append(lift(t))
            v = lift(v)
            if not cand:
                if not same(v, 0):
                    return "value %s, expected 0" % poly.show(v, 6)
                continue
            vm = {}
            s = z3.Solver()
            s.set("timeout", 20000)
            zv = fp.zformal(v, vm)[0]
            zc = [fp.zformal(c, vm)[0] for c in cand]
            for o, d, r in PC:
                t = fp.zformal(d, vm)[0]
                t = t if t is not None else z3.RealVal(0)
                cmp_ = {"eq": t == 0, "ne": t != 0, "lt": t < 0, "le": t <= 0, "gt": t > 0, "ge": t >= 0}[o]
                s.add(cmp_ if r else z3.Not(cmp_))
            for x in list(vm.values()):
                s.add(x >= 0)
            zv = zv if zv is not None else z3.RealVal(0)
            s.add(z3.Or([c > zv for c in zc] + [z3.And([c != zv for c in zc])]))
            r = sym.check(s)
            if r != z3.unsat:
                which = ""
                if r == z3.sat:
                    m = s.model()
                    for c, q in zip(zc, cand):
                        if z3.is_true(m.eval(c > zv, True)):
                            which = "a value of %s above the result is possible" % poly.show(q, 4)
                return "value %s is not the maximum of the candidates; %s" % (poly.show(v, 6), which)
        return None

    def data(self, fname, args, arrays, wantv, ret, out=None):
        self.spec = (fname, args, arrays, lambda r: [])
        self.ret = 0
        self.nb, self.ib, self.mtpf, self.tree, self.want_ret, self.tol = self.nb, 1, 1, False, 0 if out is not None else None, 1e-9
        d = CallCase.replay_data(self)
        if out is None:
            d["rettype"] = "d" if fname[7] in "zd" else "f"
            d["value"] = wantv[0] if wantv else None
        elif wantv:
            k = [q for q, b in enumerate(arrays) if b is out][0]
            d["expect"] = {k: [[0, j, x] for j, x in enumerate(wantv)]}
        return d


class FroCase(NormCase):
    fro = True


def mod(x):
    return poly.modulus(x)


def entries(kind, m, n, f):
    """candidates for entries f(i,j) (None: not part of the matrix)"""
    if kind == MAX:
        return [[mod(f(i, j))] for i in range(m) for j in range(n) if f(i, j) is not None]
    if kind == ONE:
        return [[mod(f(i, j)) for i in range(m) if f(i, j) is not None] for j in range(n)]
    if kind == INF:
        return [[mod(f(i, j)) for j in range(n) if f(i, j) is not None] for i in range(m)]
    return [[mod(f(i, j)) for i in range(m) for j in range(n) if f(i, j) is not None]]


def mk(label, make, nb, kind, nwit):
    return (FroCase if kind == FRO else NormCase)(label, make, nb, 0 if kind == FRO else nwit)


def lange(pr, kind, m, n, pad, nb, zero=False):
    def make():
        A = Arr("A", pr, m, n, max(1, m) + pad, fill=(lambda i, j: 0) if zero else None)
        return "plasma_%slange" % pr, [kind, m, n, A, A.ld], [A], [entries(kind, m, n, lambda i, j: A.init[i, j])], None
    return mk("%slange %s %dx%d pad%d nb%d%s" % (pr, NN[kind], m, n, pad, nb, " zero" if zero else ""), make, nb, kind, NW)


def lansy(pr, kind, herm, uplo, n, pad, nb, zero=False):
    def make():
        A = Arr("A", pr, n, n, max(1, n) + pad, fill=(lambda i, j: 0) if zero else None)
        S = D.sym(D.of(A), uplo == K.LO, herm)
        f = lambda i, j: S[i, j] if D.intri(i, j, uplo == K.LO) or kind != MAX else None
        if kind == FRO:
            f = lambda i, j: S[i, j]
        return "plasma_%slan%s" % (pr, "he" if herm else "sy"), [kind, uplo, n, A, A.ld], [A], [entries(kind, n, n, f)], None
    return mk("%slan%s %s%s %d pad%d nb%d%s" % (pr, "he" if herm else "sy", NN[kind], K.un[uplo], n, pad, nb, " zero" if zero else ""), make, nb, kind, NW)


def lantr(pr, kind, uplo, dg, m, n, pad, nb):
    def make():
        A = Arr("A", pr, m, n, max(1, m) + pad)
        def f(i, j):
            if i == j and dg == K.UN:
                return 1
            return A.init[i, j] if D.intri(i, j, uplo == K.LO) else None
        return "plasma_%slantr" % pr, [kind, uplo, dg, m, n, A, A.ld], [A], [entries(kind, m, n, f)], None
    return mk("%slantr %s%s%s %dx%d pad%d nb%d" % (pr, NN[kind], K.un[uplo], K.dn[dg], m, n, pad, nb), make, nb, kind, NW)


def langb(pr, kind, m, n, kl, ku, pad, nb, junk):
    def make():
        ld = ((ku + kl + nb - 1) // nb + (kl + nb - 1) // nb + 1) * nb + pad
        A = Arr("AB", pr, ld, n, ld, fill=None if junk else lambda r, j: None if -ku <= r - kl - ku <= kl and 0 <= r - kl - ku + j < m else 0)
        f = lambda i, j: A.init[kl + ku + i - j, j] if -ku <= i - j <= kl else None
        return "plasma_%slangb" % pr, [kind, m, n, kl, ku, A, A.ld], [A], [entries(kind, m, n, f)], None
    return mk("%slangb %s %dx%d kl%d ku%d pad%d nb%d junk%d" % (pr, NN[kind], m, n, kl, ku, pad, nb, junk), make, nb, kind, NW)


def amax(pr, cr, m, n, pad, nb):
    def make():
        A = Arr("A", pr, m, n, max(1, m) + pad)
        k = n if cr == E["PlasmaColumnwise"] else m
        V = Arr("values", "d", 1, k, 1)
        ab = lambda x: [poly.fabs_(poly.re(x)), poly.fabs_(poly.im(x))] if pr == "z" else [poly.fabs_(x)]
        if cr == E["PlasmaColumnwise"]:
            g = [[ab(A.init[i, j]) for i in range(m)] for j in range(n)]
        else:
            g = [[ab(A.init[i, j]) for j in range(n)] for i in range(m)]
        return "plasma_%s" % ("dzamax" if pr == "z" else "damax"), [cr, m, n, A, A.ld, V], [A, V], g, V
    return NormCase("%samax %s %dx%d pad%d nb%d" % (pr, "CR"[cr != E["PlasmaColumnwise"]], m, n, pad, nb), make, nb, NW)


NW = 3 if QUICK else 12
DIMS = [1, 2, 3, 5] if QUICK else [1, 2, 3, 4, 5, 7]
KINDS = (MAX, ONE, INF, FRO)
cases = []
for pr in PRECS:
    for kd in KINDS:
        for m, n in product(DIMS, DIMS):
            cases.append(lange(pr, kd, m, n, 1, 2))
            if kd == FRO and m * n > 20:
                continue
            for u in (K.LO, K.UP):
                for dg in (K.NU, K.UN):
                    cases.append(lantr(pr, kd, u, dg, m, n, 1, 2))
        cases.append(lange(pr, kd, 4, 5, 0, 3))
        cases.append(lange(pr, kd, 3, 4, 0, 2, True))
        for u in (K.LO, K.UP):
            for h in (0, 1) if pr == "z" else (0,):
                for n in DIMS:
                    cases.append(lansy(pr, kd, h, u, n, 1, 2))
                cases.append(lansy(pr, kd, h, u, 4, 0, 3))
                cases.append(lansy(pr, kd, h, u, 3, 0, 2, True))
            for dg in (K.NU, K.UN):
                cases.append(lantr(pr, kd, u, dg, 4, 5, 0, 3))
                cases.append(lantr(pr, kd, u, dg, 5, 4, 0, 3))
        for m, n in ((1, 1), (3, 3), (5, 5), (3, 5), (5, 3), (6, 4), (4, 6), (9, 4), (4, 9)) if QUICK else product(range(1, 10), range(1, 8)):
            for kl, ku in ((0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (1, 2), (3, 2)) if QUICK else product(range(0, 5), range(0, 4)):
                if kl < m and ku < n:
                    for junk in (0,):
                        cases.append(langb(pr, kd, m, n, kl, ku, 1, 2, junk))
    for cr in (E["PlasmaColumnwise"], E["PlasmaRowwise"]):
        for m, n in product(DIMS, DIMS):
            cases.append(amax(pr, cr, m, n, 1, 2))
        cases.append(amax(pr, cr, 7, 4, 0, 3))
C.bounds = dict(dims=DIMS, nb=[2, 3], data="all values following the comparisons of the explored witnesses", witnesses_per_case=NW + 2, precisions=PRECS)
C.outside = ["rounding error, overflow and underflow (arithmetic is exact)", "NaN/Inf entries", "dimensions and tile sizes above the listed ones"]
if __name__ == "__main__":
    C.run_cases(cases)
    C.finish()
