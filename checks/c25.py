"""C25: tridiagonal bisection.
(1) The Sturm count.  The real plasma_{d,s}laneg2 runs on tridiagonal matrices given by the pivots of A - u*I: every symmetric tridiagonal
matrix has such a form (a pivot q, a zero pivot followed by a nonzero off-diagonal, i.e. a 2 x 2 block with one negative eigenvalue, or a
zero pivot with a zero off-diagonal), and Sylvester's law of inertia gives the number of eigenvalues below u from the signs of the pivots.
Magnitudes are symbolic, so every branch of the scaling is a solver decision.
(2) The search.  The real plasma_{d,s}stevx2 and laebz2 run in the floating-point arithmetic of the machine on an interval of a few units
in the last place, with the Sturm count replaced by a symbolic monotone step function; the range, the indices and the counts are solver
variables."""
import sys, os, math, ctypes, struct, tempfile, subprocess, shutil, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from chk import *
import fp, mem, core, rt, machine
from rt import extern
import numpy as np

C = Check("C25", "zcds")
C.start()
E = setc()
NAN = float("nan")


# ---- machine numbers -----------------------------------------------------------------------
class Dbl:
    """a concrete number of the machine: every operation rounds"""
    __slots__ = ("v",)
    R = staticmethod(float)

    def __init__(self, v):
        self.v = v

    def _b(self, o, f):
        k = self.__class__
        if isinstance(o, Dbl):
            if o.__class__ is not k:
                k = Dbl
            o = o.v
        elif o.__class__ in (int, Q, float):
            x = float(o)
            if k is Flt and float(np.float32(x)) != x:
                k = Dbl
            o = x
        else:
            raise EngineError("operand %r" % (o,))
        return k(k.R(f(self.v, o)))
    def __add__(s, o): return s._b(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(s, o): return s._b(o, lambda a, b: a - b)
    def __rsub__(s, o): return s._b(o, lambda a, b: b - a)
    def __mul__(s, o): return s._b(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __neg__(s): return s.__class__(-s.v)
    def __abs__(s): return s.__class__(abs(s.v))
    def _c(s, o): return o.v if isinstance(o, Dbl) else float(o)
    def __lt__(s, o): return s.v < s._c(o)
    def __le__(s, o): return s.v <= s._c(o)
    def __gt__(s, o): return s.v > s._c(o)
    def __ge__(s, o): return s.v >= s._c(o)
    def __eq__(s, o): return s.v == s._c(o)
    def __ne__(s, o): return s.v != s._c(o)
    __hash__ = None
    def to32(s): return Flt(float(np.float32(s.v)))
    def to64(s): return Dbl(s.v)
    def __repr__(s): return repr(s.v)


class Flt(Dbl):
    R = staticmethod(lambda x: float(np.float32(x)))


def fval(x):
    return x.v if isinstance(x, Dbl) else float(x)


@extern("nexttoward", "nextafter")
def _nt(a, b):
    return Dbl(math.nextafter(fval(a), fval(b)))


@extern("nexttowardf", "nextafterf")
def _ntf(a, b):
    x = np.float32(fval(a))
    d = fval(b)
    return Flt(float(x if float(x) == d else np.nextafter(x, np.float32(np.inf if d > float(x) else -np.inf))))


VARS = {}


def var(name, pos=False):
    v = VARS.get(name)
    if v is None:
        v = VARS[name] = poly.real(name, pos)
        if pos:
            sym.EXP[0].add(fp.zvar(len(poly.NAMES) - 1)[0] > 0)
    return v


class Mode:
    pass


S = Mode()
S.on = False
ORIG = {}


def over(name, f):
    if name not in core.MACH.defs:
        return

    def g(*a):
        if S.on:
            return f(*a)
        o = ORIG.get(name)
        if o is None:
            o = ORIG[name] = core.MACH.translate(*core.MACH.defs[name])
        return o(*a)
    core.MACH.override[name] = g


# ---- (1) the Sturm count ---------------------------------------------------------------------
class SturmCase:
    """pattern: per row '+', '-', '0'; link: per off-diagonal True (nonzero), False (zero)"""

    def __init__(self, pr, pat, link, sg):
        self.pr, self.pat, self.link, self.sg = pr, pat, link, sg
        self.label = "plasma_%slaneg2 n%d pivots %s off-diagonals %s%s" % (pr, len(pat), pat, "".join("x" if l else "0" for l in link) or "none", " negative" if sg < 0 else "")

    def data(self):
        n = len(self.pat)
        u = var("u")
        d, e, cnt = [], [], 0
        carry, i = 0, 0
        q = []
        for i in range(n):
            q.append(var("q%d" % i, True) if self.pat[i] != "0" else 0)
        b = [var("b%d" % i, True) * self.sg if l else 0 for i, l in enumerate(self.link)]
        i = 0
        inblock = False
        for i in range(n):
            s = self.pat[i]
            if inblock:
                # second row of a 2 x 2 block [0 b; b a]: one negative eigenvalue whatever a is
                a = 0 if s == "0" else var("a%d" % i)
                d.append(u + a)
                cnt += 1
                carry = 0
                inblock = False
                continue
            p = 0 if s == "0" else q[i] if s == "+" else -q[i]
            d.append(u + p + carry)
            cnt += s == "-"
            carry = 0
            if i < n - 1:
                if s == "0":
                    inblock = self.link[i]
                elif self.link[i]:
                    carry = poly.div(b[i] * b[i], p)
        return u, d, b, cnt

    def one(self):
        S.on = False
        VARS.clear()
        begin(nthreads=1)
        fp.FCMPHOOK[0] = None
        n = len(self.pat)
        u, d, b, cnt = self.data()
        sz = 8 if self.pr == "d" else 4
        D = mem.alloc(sz * max(1, n), "user", "diag")
        O = mem.alloc(sz * max(1, n - 1), "user", "offd")
        for i, v in enumerate(d):
            mem.store(D.addr + sz * i, sz, v)
        for i, v in enumerate(b):
            mem.store(O.addr + sz * i, sz, v)
        try:
            r = call("plasma_%slaneg2" % self.pr, D.addr, O.addr, n, u)
        except Violation as v:
            return (v.kind, v.msg)
        if isinstance(r, SymInt):
            r = sym.EXP[0].concretize(r)
        if r != cnt:
            return ("count", "returns %r, %d eigenvalues are below the shift" % (r, cnt))
        return None

    def run(self):
        ex = sym.Explorer(max_paths=60000, deadline=time.time() + 240)
        for r in ex.explore(self.one):
            if r is not None:
                w = {}
                if sym.check(ex.solver) == z3.sat:
                    m = ex.solver.model()
                    for dd in m.decls():
                        x = m[dd]
                        try:
                            w[dd.name()] = float(x.as_fraction()) if z3.is_rational_value(x) else float(x.approx(12).as_fraction())
                        except Exception:
                            pass
                return Outcome(self.label, "bad", r[0], r[1] + (" (%s)" % ", ".join("%s=%.6g" % x for x in sorted(w.items())) if w else ""),
                               dict(label=self.label, kind=r[0], what="sturm", pr=self.pr, pat=self.pat, link=list(self.link), sg=self.sg, model=w))
        if not ex.complete:
            return Outcome(self.label, "error", "bound", "exploration not complete")
        return Outcome(self.label, "ok")


# ---- (2) the search ----------------------------------------------------------------------------
def grid(pr, x0, G):
    """positions -> numbers, position 0 .. G the Gerschgorin interval, G+1 the next number, one more on each side"""
    k = Flt if pr == "s" else Dbl
    up = (lambda x: float(np.nextafter(np.float32(x), np.float32(np.inf)))) if pr == "s" else (lambda x: math.nextafter(x, math.inf))
    dn = (lambda x: float(np.nextafter(np.float32(x), np.float32(-np.inf)))) if pr == "s" else (lambda x: math.nextafter(x, -math.inf))
    v = [x0]
    for _ in range(G + 2):
        v.append(up(v[-1]))
    lo = dn(x0)
    return k, [lo] + v     # index = position + 1


GEOM = {}       # (n, x0 position arrangement): diagonals and off-diagonals in units of the grid


def geom(n, G):
    """(diag, offd) in grid units with Gerschgorin interval exactly [0, G]"""
    if n == 1:
        return None if G else ([0], [])
    if G % 4 == 0 and n > 2:
        h = G // 2
        return [h] * n, [h // 2] * (n - 1)
    if G % 2 == 0 and n == 2:
        return [G // 2] * 2, [G // 2]
    return None


class Search:
    """one symbolic run of stevx2"""
    cur = None


def laneg2(pr):
    def f(d, o, n, u):
        c = Search.cur
        x = fval(u)
        v = c.v
        if d != c.D.addr or o != c.O.addr or n != c.n:
            raise Violation("count", "the count is taken for another matrix")
        if x <= v[1]:
            return 0
        if x >= v[c.G + 2]:
            return c.n
        try:
            p = v.index(x) - 1
        except ValueError:
            raise EngineError("the count is taken between two neighbouring numbers")
        return SymInt(32, c.N[p])
    return f


class BisectCase:
    def __init__(self, pr, n, G, job, rng, x0):
        self.pr, self.n, self.G, self.job, self.rng, self.x0 = pr, n, G, job, rng, x0
        self.label = "plasma_%sstevx2 %s %s n%d, interval of %d ulp from %r" % (pr, job, rng, n, G, x0)

    def one(self):
        VARS.clear()
        begin(nthreads=2)
        fp.FCMPHOOK[0] = None
        setup_plasma(2)
        ex = sym.EXP[0]
        S.on = True
        Search.cur = self
        pr, n, G = self.pr, self.n, self.G
        sz = 8 if pr == "d" else 4
        k, self.v = grid(pr, self.x0, G)
        ulp = self.v[2] - self.v[1]
        dg, of = geom(n, G)
        self.D = mem.alloc(sz * n, "user", "diag")
        self.O = mem.alloc(sz * max(1, n - 1), "user", "offd")
        for i, t in enumerate(dg):
            mem.store(self.D.addr + sz * i, sz, k(self.v[1 + t]))
        for i, t in enumerate(of):
            mem.store(self.O.addr + sz * i, sz, k(ulp * t * (-1) ** i))
        # the number of eigenvalues below each number of the interval
        self.N = {p: z3.BitVec("below%d" % p, 32) for p in range(1, G + 1)}
        self.N[0] = z3.BitVecVal(0, 32)
        self.N[G + 1] = z3.BitVecVal(n, 32)
        for p in range(G + 1):
            ex.add(z3.And(self.N[p] <= self.N[p + 1], self.N[p] >= 0, self.N[p] <= n))
        # all diagonal elements are in the middle of the interval: the largest eigenvalue is not below it, the smallest not above
        ex.add(z3.And(self.N[G // 2] < n, self.N[G // 2 + 1] >= 1))
        J = dict(NoVec=E["PlasmaNoVec"], Vec=E["PlasmaVec"], Count=E["PlasmaCount"])[self.job]
        il = iu = 1
        a, b = 0, G + 1
        vl = vu = k(0.0)
        if self.rng == "index":
            il, iu = sym.ivar("il"), sym.ivar("iu")
            ex.add(z3.And(il.e >= 1, il.e <= iu.e, iu.e <= n))
            R = E["PlasmaRangeI"]
            self.il, self.iu = il.e, iu.e
        else:
            R = E["PlasmaRangeV"]
            a = ex.choose(G + 2) - 1
            b = a + 1 + ex.choose(G + 2 - a)
            vl, vu = k(self.v[1 + a]), k(self.v[1 + b])
            self.a, self.b = max(0, a), min(b, G + 1)
        K = n
        self.F = Ints(1, name="pFound")
        self.M = Ints(K, name="pMul")
        self.V = mem.alloc(sz * K, "user", "pVal")
        self.W = mem.alloc(sz * K * n, "user", "pVec")
        self.state = None
        self.tmat = None
        vec = self.W.addr if self.job == "Vec" else 0
        try:
            r = call("plasma_%sstevx2" % pr, J, R, n, K, self.D.addr, self.O.addr, vl, vu, il, iu, self.F.p, self.V.addr, self.M.p, vec)
        except Violation as v:
            return (v.kind, v.msg)
        con = lambda v: ex.concretize(v) if isinstance(v, SymInt) else v
        r = con(r)
        if r != 0:
            return ("status", "returns %d" % r)
        f = self.F.get(0)
        if self.job == "Count":
            want = self.iu - self.il + 1 if self.rng == "index" else self.at(self.b) - self.at(self.a)
            if f.__class__ is not int and not isinstance(f, SymInt):
                return ("found", "the number of eigenvalues is not set")
            fz = f.e if isinstance(f, SymInt) else z3.BitVecVal(f, 32)
            bad = fz != want
            if ex.branch(sym.SymBool(bad)):
                return ("found", "reports %s eigenvalues" % f)
            return None
        f = con(f)
        if f.__class__ is not int or not 0 <= f <= n:
            return ("found", "number of eigenvalues found: %r" % (f,))
        cells = []
        for i in range(f):
            x = mem.load(self.V.addr + sz * i, sz, "f")
            m = self.M.get(i)
            if not isinstance(x, (Dbl, int, Q)) or not isinstance(m, (int, SymInt)):
                return ("value", "eigenvalue %d is not set" % i)
            try:
                g = self.v.index(fval(x)) - 1
            except ValueError:
                return ("value", "eigenvalue %d is %r" % (i, x))
            if cells and g <= cells[-1][0]:
                return ("order", "eigenvalue %d is not greater than the one before" % i)
            cells.append((g, m.e if isinstance(m, SymInt) else z3.BitVecVal(m, 32)))
        # every number x of the interval: [x, next x) holds cnt eigenvalues, to be reported iff they are in the range
        good = []
        got = dict(cells)
        for g, m in cells:
            if not 0 <= g <= G:
                return ("value", "eigenvalue %r is outside of the spectrum" % self.v[1 + g])
        for g in range(G + 1):
            lo, hi = self.at(g), self.at(g + 1)
            if self.rng == "index":
                want = z3.And(lo < hi, hi >= self.il, lo + 1 <= self.iu)
                mx = lambda x, y: z3.If(x > y, x, y)
                mn = lambda x, y: z3.If(x < y, x, y)
                part = mn(hi, self.iu) - mx(lo, self.il - 1)
            else:
                want = z3.And(lo < hi) if self.a <= g < self.b else z3.BoolVal(False)
                part = hi - lo
            if g in got:
                good.append(z3.And(want, z3.Or(got[g] == hi - lo, got[g] == part)))
            else:
                good.append(z3.Not(want))
        bad = z3.simplify(z3.Not(z3.And(good)))
        if ex.branch(sym.SymBool(bad)) if not z3.is_false(bad) and not z3.is_true(bad) else z3.is_true(bad):
            return ("lost", "found %s" % ", ".join("%r (multiplicity %s)" % (self.v[1 + g], z3.simplify(m)) for g, m in cells) or "nothing")
        if self.job == "Vec" and f:
            w = self.vectors(f, [self.v[1 + g] for g, _ in cells], sz)
            if w:
                return w
        live = [o for o in RT.mallocs if not o.freed]
        if live:
            return ("leak", "%d allocations are not released" % len(live))
        return None

    def at(self, p):
        return self.N[max(0, min(p, self.G + 1))]

    def vectors(self, f, vals, sz):
        n = self.n
        st = self.state
        if st is None or "q" not in st:
            return ("vectors", "the eigenvectors are not orthogonalized")
        if st["vals"] != vals:
            return ("vectors", "the orthogonalized vectors belong to %s, the eigenvalues are %s" % (st["vals"], vals))
        left = list(range(f))
        for j in range(f):
            col = [mem.load(self.W.addr + sz * (j * n + i), sz, "f") for i in range(n)]
            hit = [c for c in left if all(isinstance(x, Poly) and same(x, y) for x, y in zip(col, st["q"][c]))]
            if not hit:
                return ("vectors", "column %d of pVec is not one of the orthogonalized eigenvectors" % j)
            left.remove(hit[0])
        return None

    def run(self):
        ex = sym.Explorer(max_paths=200000, deadline=time.time() + 300)
        try:
            for r in ex.explore(self.one):
                if r is not None:
                    w = {}
                    if sym.check(ex.solver) == z3.sat:
                        m = ex.solver.model()
                        for dd in m.decls():
                            try:
                                w[dd.name()] = m[dd].as_signed_long()
                            except Exception:
                                pass
                    s = "below: %s" % [0] + str([w.get("below%d" % p) for p in range(1, self.G + 1)])
                    if self.rng == "index":
                        s += ", il=%s iu=%s" % (w.get("il"), w.get("iu"))
                    else:
                        s += ", range [%d,%d)" % (self.a, self.b)
                    return Outcome(self.label, "bad", r[0], r[1] + " (numbers of the interval counted from 0; eigenvalues %s)" % s, dict(label=self.label, kind=r[0], what="search"))
        finally:
            S.on = False
        if not ex.complete:
            return Outcome(self.label, "error", "bound", "exploration not complete")
        return Outcome(self.label, "ok")


def stein(*a):
    """LAPACKE_?stein_work: the eigenvector of the eigenvalue given, one symbol per element"""
    lay, n, d, e, m, w, ib, isp, z, ldz = a[:10]
    c = Search.cur
    sz = 8 if c.pr == "d" else 4
    if m != 1 or n != c.n or mem.load(ib, 4, "i") != 1 or mem.load(isp, 4, "i") != n:
        raise Violation("stein", "unexpected arguments of stein")
    x = fval(mem.load(w, sz, "f"))
    for i in range(n):
        mem.store(z + sz * i, sz, var("vec(%r,%d)" % (x, i)))
    return 0


def geqrf(pr):
    def f(m, n, pA, lda, T):
        c = Search.cur
        sz = 8 if pr == "d" else 4
        cols = [[mem.load(pA + sz * (j * lda + i), sz, "f") for i in range(m)] for j in range(n)]
        vals = []
        for j, col in enumerate(cols):
            hit = None
            for x in c.v:
                if all(isinstance(y, Poly) and same(y, var("vec(%r,%d)" % (x, i))) for i, y in enumerate(col)):
                    hit = x
            vals.append(hit)
        c.state = dict(vals=vals, A=pA)
        for j in range(n):
            for i in range(m):
                mem.store(pA + sz * (j * lda + i), sz, var("qr(%d,%d)" % (i, j)))
        o = machine.EXTERN["malloc"](64)
        mem.memset(T, 0, E["sizeof_desc"])
        mem.store(T + E["off_matrix"], 8, o)
        c.tmat = o
        return 0
    return f


def ungqr(pr):
    def f(m, n, k, pA, lda, T, pQ, ldq):
        c = Search.cur
        sz = 8 if pr == "d" else 4
        st = c.state
        if st is None or pA != st["A"] or n != len(st["vals"]) or k != n or mem.load(T + E["off_matrix"], 8, "p") != c.tmat:
            raise Violation("ungqr", "Q is generated from something else than the factorization")
        st["q"] = [[var("q(%d,%d)" % (i, j)) for i in range(m)] for j in range(n)]
        for j in range(n):
            for i in range(m):
                mem.store(pQ + sz * (j * ldq + i), sz, st["q"][j][i])
        return 0
    return f


_ec = itertools.count()


def stepe(d, o, n, u, v):
    return var("err%d" % next(_ec))


for _p in "ds":
    over("plasma_%slaneg2" % _p, laneg2(_p))
    over("plasma_%sgeqrf" % _p, geqrf(_p))
    over("plasma_%sorgqr" % _p, ungqr(_p))
    over("plasma_%sungqr" % _p, ungqr(_p))
    over("plasma_%sstepe" % _p, stepe)
extern("LAPACKE_dstein_work", "LAPACKE_sstein_work")(stein)


# ---- native replay -----------------------------------------------------------------------------
DRV = r"""
#include <stdio.h>
int FN(REAL *d, REAL *e, int n, REAL u);
int main(void) { REAL d[] = {DD}, e[] = {EE, 0}; printf("%d\n", FN(d, e, NN, (REAL)(UU))); return 0; }
"""


def confirm(o):
    """the Sturm count of the unmodified sources, compiled, on the matrix of the counterexample"""
    d = o.data
    if not d or d.get("what") != "sturm" or d["kind"] != "count":
        return None
    m = d["model"]
    g = lambda nm, dflt: next((v for k, v in m.items() if k.split("#")[0].replace("re_", "") == nm), dflt)
    n = len(d["pat"])
    u = g("u", 0.0)
    dd, ee, inb, carry = [], [], False, 0.0
    for i in range(n):
        s = d["pat"][i]
        if inb:
            dd.append(u + (0 if s == "0" else g("a%d" % i, 1.0)))
            inb, carry = False, 0.0
        else:
            p = 0.0 if s == "0" else g("q%d" % i, 1.0) * (1 if s == "+" else -1)
            dd.append(u + p + carry)
            carry = 0.0
            if i < n - 1:
                b = g("b%d" % i, 1.0) if d["link"][i] else 0.0
                if s == "0":
                    inb = d["link"][i]
                elif b:
                    carry = b * b / p
        if i < n - 1:
            ee.append((g("b%d" % i, 1.0) if d["link"][i] else 0.0) * d["sg"])
    t = tempfile.mkdtemp(prefix="c25")
    try:
        ty = "double" if d["pr"] == "d" else "float"
        src = DRV.replace("FN", "plasma_%slaneg2" % d["pr"]).replace("REAL", ty).replace("DD", ", ".join("%.17g" % x for x in dd)).replace(
            "EE", ", ".join("%.17g" % x for x in ee) or "0").replace("NN", str(n)).replace("UU", "%.17g" % u)
        open(t + "/d.c", "w").write(src)
        b = os.path.join(core.BDIR, "src")
        r = subprocess.run(["gcc", "-w", "-O1", "-fopenmp", "-I" + os.path.join(b, "include"), "-I" + os.path.join(VERIF, "engine", "include"), "-I/usr/include/x86_64-linux-gnu/openblas-pthread",
                            "-DPLASMA_WITH_OPENBLAS", t + "/d.c", os.path.join(b, "compute", "%slaneg2.c" % d["pr"]), "-lm", "-o", t + "/r"], capture_output=True, text=True)
        if r.returncode:
            o.msg += " | no native replay: " + r.stderr[:160]
            return None
        q = subprocess.run([t + "/r"], capture_output=True, text=True, timeout=20)
        o.msg += " | native replay with diagonal %s, off-diagonal %s, shift %.17g: %s" % (dd, ee, u, q.stdout.strip() or q.returncode)
        return None
    finally:
        shutil.rmtree(t)


C.confirm = confirm
cases = []
NS = 4 if QUICK else 5
for pr in "ds":
    for n in range(0, NS + 1):
        for pat in itertools.product("+-0", repeat=n):
            if n == 5 and pr == "s":
                continue
            for link in itertools.product((True, False), repeat=max(0, n - 1)):
                for sg in (1, -1):
                    if sg < 0 and not any(link):
                        continue
                    if sg < 0 and n > (3 if QUICK else 4):
                        continue
                    cases.append(SturmCase(pr, "".join(pat), link, sg))
GN = [(1, 0), (2, 2), (2, 4), (3, 4)] if QUICK else [(1, 0), (2, 2), (2, 4), (2, 6), (2, 8), (3, 4), (3, 8), (4, 4), (4, 8), (5, 4)]
for pr in "ds":
    for n, G in GN:
        for rng in ("index", "value"):
            for job in ("NoVec", "Count", "Vec"):
                if job == "Vec" and (n > 3 or G > 4):
                    continue
                for x0 in (1.0, -2.0) if QUICK else (1.0, -2.0, 1.5, -1.25):
                    cases.append(BisectCase(pr, n, G, job, rng, x0))
C.bounds = dict(sturm="n up to %d, every combination of signs and zeros of the pivots and off-diagonals, magnitudes and shift any real number" % NS,
                search="n and length of the interval in units in the last place: %s; every distribution of the eigenvalues over the interval, every index or value range" % GN)
C.outside = ["rounding and overflow inside the Sturm recurrence (exact real arithmetic there, machine arithmetic in the search)", "intervals that cross a power of two",
             "the numerical accuracy of stein (inverse iteration) and of the orthogonalization (C13)", "larger n"]
if __name__ == "__main__":
    C.run_cases(cases, shuffle=True)
    C.finish(validate=0)
