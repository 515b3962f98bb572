"""C18: every public routine reports an illegal argument by its position, for all values of all integer and option arguments.
The routine runs on 32-bit symbolic integers until it returns, allocates memory, starts a parallel region or touches a caller
array (all three mean: accepted); z3 decides whether the outcome contradicts the documented legality on that path."""
import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from chk import *
import api
from api import AND, OR, NOT

C = Check("C18", "zcds")
C.start()
E = setc()
NB = 2


class Env:
    pass


def sx(v, n=40):
    return z3.SignExt(n - 32, v.e) if isinstance(v, SymInt) else v


class ArgCase:
    def __init__(self, sp, pr, sc, initialised=True):
        self.sp, self.pr, self.sc = sp, pr, sc
        self.fn = api.fname(sp, pr)
        self.label = "%s %s%s" % (self.fn, ",".join("%s=%s" % x for x in sorted(sc.items())), "" if initialised else " (not initialised)")
        self.initd = initialised

    def build(self):
        begin(nthreads=2)
        if self.initd:
            setup_plasma(NB)
        p0 = self.pr[0]
        self.objs, self.ints, args = [], {}, []
        for k, n in self.sp.args:
            if k in "oi":
                v = sym.ivar(n)
                self.ints[n] = v
                args.append(v)
            elif k in "sr":
                v = self.sc.get(n, "s")
                x = {"0": 0, "1": 1}.get(v)
                if x is None:
                    x = poly.cplx(n) if k == "s" and blas.PRS[p0].cx else poly.real(n)
                args.append(Sc(p0, x) if k == "s" else RealArg(p0, x))
            elif k == "D":
                o = mem.alloc(256, "user", n)
                mem.memset(o.addr, 0, 256)
                args.append(o.addr)
            else:
                o = mem.alloc(64, "user", n)
                self.objs.append(o)
                args.append(o.addr)
        for o in self.objs:
            o.freed = True

        def stop(*a):
            raise Stop("accepted")
        RT.env["on_malloc"] = stop
        RT.on_fork = stop
        return args

    def env(self):
        e = Env()
        for n, v in self.ints.items():
            setattr(e, n, sx(v))
        e.nb = NB
        e.cx = blas.PRS[self.pr[0]].cx
        e.alpha0 = self.sc.get("alpha") == "0"
        e.beta1 = self.sc.get("beta") == "1"
        e.cfrom0 = self.sc.get("cfrom") == "0"
        return e

    def one(self):
        args = self.build()
        try:
            r = call(self.fn, *lower(args))
            if self.sp.rettype == "f":
                r = lift(r)
                r = int(r) if r.__class__ is not Poly and r is not TOP else int(r.const()) if hasattr(r, "const") else r
            return ("ret", r)
        except Stop as s:
            return ("accepted", None)
        except Violation as v:
            if v.kind in ("uaf", "use-after-free") or "free" in v.kind:
                return ("accepted", None)
            return ("bad", v)

    def run(self):
        ex = sym.Explorer(max_paths=20000, deadline=time.time() + 200)
        if not self.initd:
            return self.notinit(ex)
        # sizes whose products stay in range (stated bound)
        s0 = self.sp
        self.build()
        e = self.env()
        lim = []
        for n, v in self.ints.items():
            if n in ("kl", "ku", "kd"):
                lim.append(z3.And(v.e <= 1 << 29))
        ex.base = lim
        if s0.assume is not None:
            a = s0.assume(e)
            ex.base = lim + ([a] if not isinstance(a, bool) else [])
        legal = []
        for i, (k, n) in enumerate(s0.args):
            if n in s0.legal:
                p = s0.legal[n](e)
                legal.append((i + 1, n, p if not isinstance(p, bool) else z3.BoolVal(p)))
        alllegal = z3.And(*[p for _, _, p in legal])
        triv = s0.trivial(e)
        triv = triv if not isinstance(triv, bool) else z3.BoolVal(triv)
        npaths = 0
        for kind, val in ex.explore(self.one):
            npaths += 1
            if kind == "bad":
                return self.report(ex, z3.BoolVal(True), "execution before the arguments are validated: %s" % val, legal, alllegal, None)
            if kind == "accepted":
                q = z3.Not(alllegal)
                what = "an illegal argument is accepted"
            elif val == 0:
                q = z3.Not(z3.And(alllegal, triv))
                what = "returned success without doing anything"
            elif val.__class__ is int and val < 0:
                pos = -val
                hit = [x for x in legal if x[0] == pos]
                if not hit:
                    q = z3.BoolVal(True)
                else:
                    q = z3.Not(z3.Not(hit[0][2]))
                what = "returned %d" % val
            else:
                q, what = z3.BoolVal(True), "returned %r" % (val,)
            ex.solver.push()
            ex.solver.add(q)
            r = sym.check(ex.solver)
            if r == z3.sat:
                out = self.report(ex, q, what, legal, alllegal, kind)
                return out
            ex.solver.pop()
            if r == z3.unknown:
                return Outcome(self.label, "error", "solver", "unknown")
        if not ex.complete:
            return Outcome(self.label, "error", "bound", "exploration not complete")
        return Outcome(self.label, "ok", sample=None)

    def report(self, ex, q, what, legal, alllegal, kind):
        s = ex.solver
        s.push()
        for b in (3, 8, 64):
            s.push()
            for v in self.ints.values():
                s.add(z3.Or(z3.And(v.e >= -b, v.e <= b), z3.And(v.e >= 100, v.e <= 1000)))
            if sym.check(s) == z3.sat:
                break
            s.pop()
        sym.check(s)
        m = s.model()
        vals = {n: m.eval(v.e, True).as_signed_long() for n, v in self.ints.items()}
        sub = [(v.e, z3.BitVecVal(vals[n], 32)) for n, v in self.ints.items()]
        want = 0
        for i, n, p in legal:
            if not z3.is_true(z3.simplify(z3.substitute(p, *sub))):
                want = -i
                break
        msg = "%s for %s; documented: %s" % (what, vals, "success or computation" if want == 0 else "-%d" % -want)
        args, arrays = [], {}
        for k, n in self.sp.args:
            if k in "oi":
                args.append(["int", vals[n]])
            elif k in "sr":
                x = {"0": 0.0, "1": 1.0}.get(self.sc.get(n, "s"), 0.5)
                p0 = self.pr[0]
                c = p0 if k == "s" else {"z": "d", "d": "d", "c": "s", "s": "s"}[p0]
                args.append(["sc", c, [x, 0.0] if c in "zc" else x])
            elif k == "D":
                arrays[len(arrays)] = dict(t="raw", size=256, name=n)
                args.append(["val", len(arrays) - 1])
            else:
                arrays[len(arrays)] = dict(t="raw", size=1 << 16, name=n)
                args.append(["ref", len(arrays) - 1])
        d = dict(label=self.label, fn=self.fn, calls=[[self.fn, args, None if self.sp.rettype == "f" else want]], arrays=arrays, expect=None, nb=NB,
                 ib=1, mtpf=1, tree=False, want_ret=want, got_ret=None, tol=1e-6)
        if self.sp.rettype == "f":
            d["rettype"] = "d" if self.pr in "zd" else "f"
            d["value"] = float(want)
        if what.startswith("an illegal") and want < 0:
            pass
        return Outcome(self.label, "bad", "ret", msg, d)

    def notinit(self, ex):
        want = E["PlasmaErrorNotInitialized"]
        for kind, val in ex.explore(self.one):
            if kind == "bad" and val.kind == "exit":
                continue
            if kind != "ret" or val != want:
                return Outcome(self.label, "bad", "notinit", "before plasma_init the call ends with %s %r, expected the fatal error or PlasmaErrorNotInitialized (%d)" % (
                    kind, val, want))
        return Outcome(self.label, "ok")


# ---- trivial sizes: run to completion --------------------------------------------------------
def trivial_case(sp, pr, vals, sc):
    fn = api.fname(sp, pr)
    nb = NB

    def make(c):
        e = Env()
        for k, v in vals.items():
            setattr(e, k, v)
        e.nb, e.cx = nb, blas.PRS[pr[0]].cx
        arrays, args = [], []
        for k, n in sp.args:
            if k in "oi":
                args.append(vals[n])
            elif k in "sr":
                x = {"0": 0, "1": 1}.get(sc.get(n, "s"))
                if x is None:
                    x = poly.cplx(n) if k == "s" and blas.PRS[pr[0]].cx else poly.real(n)
                args.append(Sc(pr[0], x) if k == "s" else RealArg(pr[0], x))
            elif k in "ab":
                r, q = sp.shapes[n](e)
                ldn = [b for a, b in sp.args if a == "i" and b.lower() == "ld" + n.lower()]
                ld = vals[ldn[0]]
                a = Arr(n, pr[0] if k == "a" else pr[1], max(0, r), max(1, q), max(1, ld))
                arrays.append(a)
                args.append(a)
            elif k in "pq":
                a = Ints(max(1, sp.shapes[n](e)), vals=[1] * max(1, sp.shapes[n](e)), name=n)
                arrays.append(a)
                args.append(a)
            elif k == "I":
                a = Ints(1, name=n)
                arrays.append(a)
                args.append(a)
            elif k == "v":
                a = Raw(n, 64)
                args.append(a)
                arrays.append(a)
            elif k in "TD":
                a = Desc(n)
                if k == "D":
                    mem.memset(a.p, 0, 256)
                    args.append(ByVal(a))
                else:
                    args.append(a)
                arrays.append(a)
        c.want_ret = 0 if sp.rettype == "i" else None
        zero = sp.trivzero

        def exp(ret):
            if sp.rettype == "f" and not same(ret, 0):
                raise Mismatch("%s returned %r for an empty matrix" % (fn, ret))
            if zero:
                return []
            B = [a for a in arrays if isinstance(a, Arr) and a.name == "B"][0]
            r, q = sp.shapes["B"](e)
            return [(B, {(i, j): 0 for i in range(r) for j in range(q)})]
        c.label = label
        return (fn, args, arrays, exp)
    label = "%s trivial %s %s" % (fn, vals, sc)
    return CallCase(label, make, native=False)


def legalopts(sp, pr):
    """option values allowed by the specification"""
    opts = {}
    cand = sorted(set(v for k, v in E.items() if k.startswith("Plasma") and 100 < v < 1000))
    return [n for k, n in sp.args if k == "o"], cand


def trivials(sp, pr):
    out = []
    onames, cand = legalopts(sp, pr)
    dims = [n for k, n in sp.args if k == "i" and not n.startswith("ld") and n != "incx"]
    lds = [n for k, n in sp.args if k == "i" and n.startswith("ld")]
    alph = [x for x in ({},)]
    for dv in product(*[((0, 2) if QUICK else (0, 1, 3)) if d not in ("kl", "ku", "kd") else (0,) for d in dims]):
        v0 = dict(zip(dims, dv))
        if "incx" in [n for k, n in sp.args]:
            v0["incx"] = 1
        # legal option combinations
        combos = [{}]
        for o in onames:
            nxt = []
            for c in combos:
                for val in cand:
                    e = Env()
                    for kk, vv in {**{x: 0 for x in onames}, **v0, **c, o: val}.items():
                        setattr(e, kk, vv)
                    e.cx = blas.PRS[pr[0]].cx
                    try:
                        if sp.legal[o](e):
                            nxt.append({**c, o: val})
                    except AttributeError:
                        nxt.append({**c, o: val})
            combos = nxt
        for c in combos:
            e = Env()
            for kk, vv in {**v0, **c}.items():
                setattr(e, kk, vv)
            e.cx, e.nb, e.alpha0, e.beta1, e.cfrom0 = blas.PRS[pr[0]].cx, NB, False, False, False
            for l in lds:
                setattr(e, l, 1 << 20)
            if not sp.trivial(e) or (sp.assume is not None and not sp.assume(e)):
                continue
            if any(not sp.legal[d](e) for d in dims if d in sp.legal):
                continue
            vals = {**v0, **c}
            for l in lds:
                x = 1
                while True:
                    setattr(e, l, x)
                    if sp.legal[l](e) if l in sp.legal else x >= 10 * NB:
                        break
                    x += 1
                vals[l] = x
            out.append(trivial_case(sp, pr, vals, {}))
    return out


cases = []
for sp in api.specs():
    for pr in sp.precs:
        if QUICK and pr in ("c", "s"):
            continue
        sn = [n for k, n in sp.args if k in "sr"]
        if not api.fname(sp, pr):
            continue
        combos = [{}]
        if "alpha" in sn and "beta" in sn and sp.base != "laset":
            combos += [{"alpha": "0"}, {"beta": "1"}, {"alpha": "0", "beta": "1"}]
        if "cfrom" in sn:
            combos.append({"cfrom": "0"})
        for c in combos:
            cases.append(ArgCase(sp, pr, c))
        cases.append(ArgCase(sp, pr, {}, initialised=False))
        cases += trivials(sp, pr)
C.bounds = dict(integers="every option, dimension and leading dimension argument is a symbolic 32-bit value; bandwidths <= 2^29",
                trivial="dimensions 0 and 2 run to completion with symbolic data")
C.outside = ["NULL pointers", "band matrices with kl >= m or ku >= n (rejected later by the band descriptor)", "transposed lacpy of non-square matrices",
             "gesdd with min(m,n) < nb (documented as unsupported by its return code)", "tuning callbacks (Lua)", "stevx2",
             "gels with nrhs = 0 and m or n above 6 (it loops over the rows)"]
C.run_cases(cases)
C.finish()
