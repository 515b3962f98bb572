"""Concrete-shape instances of the public synchronous routines (from the specification table in api.py): used by the checks that
quantify over schedules, allocation failures and memory accesses rather than over values."""
import itertools
import api
from chk import *
from lu import hsh


class Env:
    pass


class Inst:
    def __init__(self, sp, pr, vals, nb=2, ib=1, pad=0, mtpf=1, tree=False, scal=None, seed=0):
        self.sp, self.pr, self.vals, self.nb, self.ib, self.pad, self.mtpf, self.tree = sp, pr, dict(vals), nb, ib, pad, mtpf, tree
        self.scal = scal or {}
        self.seed = seed
        self.fn = api.fname(sp, pr)
        self.e = self.env()
        self.lds()
        E = enum_consts()
        rev = {}
        for k, v in E.items():
            if k.startswith("Plasma") and 100 < v < 1000:
                rev.setdefault(v, k[6:])
        self.label = "%s(%s) nb%d ib%d%s%s" % (self.fn, " ".join("%s=%s" % (n, rev.get(self.vals[n], self.vals[n]) if k == "o" else self.vals[n])
                                               for k, n in sp.args if k in "oi"), nb, ib, " mtpf%d" % mtpf if mtpf > 1 else "", " tree" if tree else "")

    def env(self):
        e = Env()
        for k, v in self.vals.items():
            setattr(e, k, v)
        e.nb, e.cx = self.nb, blas.PRS[self.pr[0]].cx
        e.alpha0 = self.scal.get("alpha") == "0"
        e.beta1 = self.scal.get("beta") == "1"
        e.cfrom0 = False
        return e

    def lds(self):
        sp, e = self.sp, self.e
        for k, n in sp.args:
            if k == "i" and n.startswith("ld") and n not in self.vals:
                x = 1
                arr = n[2:]
                rows = 0
                for nm, f in sp.shapes.items():
                    if nm.lower() == arr.lower():
                        rows = f(e)[0]
                while True:
                    setattr(e, n, x)
                    if x >= rows and (sp.legal[n](e) if n in sp.legal else True):
                        break
                    x += 1
                self.vals[n] = x + self.pad
                setattr(e, n, x + self.pad)

    def start(self, nthreads=2, log=False, coop=False, top=True, maxthreads=None):
        begin(nthreads=nthreads, log=log, coop=coop, top=top)
        if maxthreads:
            RT.maxthreads = maxthreads
        setup_plasma(self.nb, self.ib, self.mtpf, self.tree)

    def pivots(self, n, rows):
        return [i + 1 + int(hsh("p", self.seed, i)[0] * 1000) % max(1, rows - i) for i in range(n)]

    def build(self, fill=None):
        """arrays and the calls to make: [(function, args)]; the last one is the routine itself"""
        sp, e, p0 = self.sp, self.e, self.pr[0]
        self.arrays, args, pre = [], [], []
        D_ = None
        for k, n in sp.args:
            if k in "oi":
                args.append(self.vals[n])
            elif k in "sr":
                v = self.scal.get(n, "s")
                x = {"0": 0, "1": 1}.get(v)
                if x is None:
                    x = (poly.cplx(n) if k == "s" and blas.PRS[p0].cx else poly.real(n)) if fill is None else Q(1, 2)
                args.append(Sc(p0, x) if k == "s" else RealArg(p0, x))
            else:
                a = None
                if k in "ab":
                    r, c = sp.shapes[n](e)
                    ldn = [b for a_, b in sp.args if a_ == "i" and b.lower() == "ld" + n.lower()][0]
                    a = Arr(n, p0 if k == "a" else self.pr[1], max(0, r), max(1, c), max(1, self.vals[ldn]), top=fill is None,
                            fill=None if fill is None else (lambda i, j, n=n: fill(n, i, j)))
                elif k in "pqI":
                    cnt = max(1, sp.shapes[n](e))
                    if k == "q":
                        rows = e.m if sp.base == "geswp" and e.colrow == E_("PlasmaRowwise") else e.n
                        vals = self.pivots(cnt, rows)
                        if sp.base == "hetrs" or sp.base == "hesv":
                            pass
                        a = Ints(cnt, vals=vals, name=n)
                    else:
                        a = Ints(cnt, name=n)
                elif k == "v":
                    cnt = max(1, sp.shapes[n](e))
                    a = Raw(n, cnt * blas.PRS[p0].real.sz)
                elif k in "TD":
                    a = Desc(n)
                    if k == "D":
                        D_ = a
                self.arrays.append(a)
                args.append(ByVal(a) if k == "D" else a)
        if D_ is not None:
            A = [a for a in self.arrays if isinstance(a, Arr) and a.name == "A"][0]
            lq = "lq" in sp.base
            pre.append(("plasma_%s%s" % (p0, "gelqf" if lq else "geqrf"), [A.m, A.n, A, A.ld, D_]))
        self.args = args
        return pre, (self.fn, args)

    def descs(self):
        return [a for a in self.arrays if isinstance(a, Desc)]


def E_(n):
    return enum_consts()[n]


def options(sp, pr, vals):
    """legal option combinations"""
    E = enum_consts()
    cand = sorted(set(v for k, v in E.items() if k.startswith("Plasma") and 100 < v < 1000))
    onames = [n for k, n in sp.args if k == "o"]
    combos = [{}]
    for o in onames:
        nxt = []
        for c in combos:
            for val in cand:
                e = Env()
                for kk, vv in {**{x: 0 for x in onames}, **vals, **c, o: val}.items():
                    setattr(e, kk, vv)
                e.cx = blas.PRS[pr[0]].cx
                try:
                    ok = sp.legal[o](e)
                except AttributeError:
                    ok = True
                if ok:
                    nxt.append({**c, o: val})
        combos = nxt
    # options may depend on one another
    out = []
    for c in combos:
        e = Env()
        for kk, vv in {**vals, **c}.items():
            setattr(e, kk, vv)
        e.cx = blas.PRS[pr[0]].cx
        if all(sp.legal[o](e) for o in onames if o in sp.legal):
            out.append(c)
    return out


def dims(sp):
    return [n for k, n in sp.args if k == "i" and not n.startswith("ld") and n != "incx"]


def legal(sp, pr, vals, nb):
    e = Env()
    for kk, vv in vals.items():
        setattr(e, kk, vv)
    e.cx, e.nb, e.alpha0, e.beta1, e.cfrom0 = blas.PRS[pr[0]].cx, nb, False, False, False
    for k, n in sp.args:
        if k == "i" and n.startswith("ld"):
            setattr(e, n, 1 << 20)
    if sp.trivial(e) or (sp.assume is not None and not sp.assume(e)):
        return False
    return all(sp.legal[d](e) for k, d in sp.args if d in sp.legal and k in "oi" and not d.startswith("ld"))


def instances(sp, pr, sizes, nb=2, ib=1, **kw):
    """legal, non-trivial instances: every option combination with every given tuple of sizes.
    sizes: callable(list of dimension names) -> iterable of dicts"""
    for v in sizes(dims(sp)):
        v = dict(v)
        if any(n == "incx" for k, n in sp.args):
            v.setdefault("incx", 1)
        for c in options(sp, pr, v):
            vals = {**v, **c}
            if legal(sp, pr, vals, nb):
                yield Inst(sp, pr, vals, nb, ib, **kw)
