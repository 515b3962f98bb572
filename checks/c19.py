"""C19: whichever allocations fail, a public call returns the out-of-memory error, touches nothing it must not, and keeps nothing."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from chk import *
from race import *
import race
import api

C = Check("C19", "zcds")
C.start()
E = setc()
OOM = E["PlasmaErrorOutOfMemory"]
MAXFAULT = 40


class Fault:
    """Which allocations fail, decided by the solver: number `f` fails (f is any allocation of the call), and, when `rest` is set, all that follow.
    fnative: lines for the native replay"""

    def __init__(self, ex):
        self.ex = ex
        self.f = z3.Int("first_failing_allocation")
        self.rest = z3.Bool("all_following_fail_too")
        ex.add(self.f >= 0)
        self.hit = None
        self.n = 0
        self.more = []

    def __call__(self, k):
        self.n = k + 1
        if self.hit is None:
            if self.ex.branch(sym.SymBool(self.f == k)):
                self.hit = k
                return True
            return False
        r = self.ex.branch(sym.SymBool(self.rest))
        if r:
            self.more.append(k)
        return r

    def show(self):
        return "allocation %d%s" % (self.hit, " and all later ones" if self.more else "")


class FaultCase:
    def __init__(self, inst, seed=0, team=2):
        self.inst, self.seed, self.team = inst, seed, team
        self.label = inst.label

    def settings(self):
        out = []
        o = mem.alloc(8, "user", "value")
        for p in ("PlasmaTuning", "PlasmaNb", "PlasmaIb", "PlasmaNumPanelThreads", "PlasmaHouseholderMode"):
            call("plasma_get", E[p], o.addr)
            out.append(mem.load(o.addr, 4, "i"))
        return out

    def one(self):
        i = self.inst
        ex = sym.EXP[0]
        mt = i.mtpf > 1
        i.start(nthreads=self.team, log=False, top=True, coop=mt)
        if mt:
            BAR.clear()
        fp.TOPPOLICY[0] = policy(self.seed)
        pre, (fn, args) = i.build()
        for f, a in pre:
            r = call(f, *lower(a))
            if r != 0:
                raise EngineError("%s returned %r" % (f, r))
        conf = self.settings()
        base = [o for o in RT.mallocs if not o.freed]
        low = lower(args)
        RT.malloc_count = 0
        F = RT.malloc_fail = Fault(ex)
        self.F = F
        r = call(fn, *low)
        RT.malloc_fail = None
        if i.sp.rettype == "f":
            r = lift(r)
            v = r.const() if r.__class__ is Poly and r.isconst() else r
            r = int(v) if v is not TOP and v.__class__ is not Poly else v
        if F.hit is None:
            if i.sp.rettype == "i" and not (r.__class__ is int and r >= 0):
                raise EngineError("%s returned %r" % (fn, r))
            return None
        if not (r.__class__ is int and r == OOM):
            return ("ret", "%s fails and the call returns %r instead of PlasmaErrorOutOfMemory (%d)" % (F.show(), r, OOM))
        # what the routine hands over through its descriptor T is the caller's to release
        mine = [mem.load(d.p + E["off_matrix"], 8, "p") for d in i.descs()]
        live = [o for o in RT.mallocs if not o.freed and o not in base and o.addr not in mine]
        if live:
            return ("leak", "%s fails and %d other allocations made by the call are never released (first: %s, %s bytes)" % (
                F.show(), len(live), live[0].name, live[0].size))
        lost = [o for o in base if o.freed]
        if lost:
            return ("free", "%s fails and the call releases memory of the caller" % F.show())
        c2 = self.settings()
        if c2 != conf:
            return ("config", "%s fails and the configuration has changed: %s instead of %s" % (F.show(), c2, conf))
        return None

    def guarded(self):
        try:
            return self.one()
        except Violation as v:
            if self.F is None or self.F.hit is None:
                return ("path", v.msg)
            return (v.kind, "%s fails: %s" % (self.F.show(), v.msg))

    def run(self):
        ex = sym.Explorer(max_paths=400, deadline=time.time() + 120)
        core.MACH.override["plasma_barrier_wait"] = race.barrier_wait
        np = 0
        self.F = None
        for r in ex.explore(self.guarded):
            np += 1
            if r is not None:
                return Outcome(self.label, "bad", r[0], r[1], dict(label=self.label, routine=self.inst.fn, vals=self.inst.vals, fault=self.F.hit, rest=bool(self.F.more)))
        if not ex.complete:
            return Outcome(self.label, "error", "bound", "exploration not complete after %d paths" % np)
        return Outcome(self.label, "ok", sample=dict(label=self.label, fn=self.inst.fn, paths=np))


def sizes(sets):
    def f(names):
        out = []
        for s in sets:
            v = {}
            for q, n in enumerate(names):
                if n in ("kl", "ku", "kd"):
                    v[n] = 1
                elif n == "nrhs":
                    v[n] = 2
                else:
                    v[n] = s[("m", "n", "k").index(n)]
            out.append(v)
        return out
    return f


LU = ("gesv", "getrf", "geinv", "gbtrf", "gbsv", "hetrf", "hesv", "zcgesv", "zcgbsv", "cgesv", "cgbsv", "%gesv", "%gbsv")
cases = []
only = os.environ.get("C19_ONLY")
for sp in api.specs():
    for pr in sp.precs:
        if not api.fname(sp, pr) or sp.base == "gesdd":
            continue
        if only and sp.base not in only.split(","):
            continue
        if QUICK and pr[0] in "sc" and pr not in ("cz", "sd"):
            continue
        S = sizes([(4, 3, 3)] if QUICK else [(4, 3, 3), (3, 4, 2), (1, 1, 1), (2, 5, 3)])
        for tree in ((False, True) if any(x in sp.base for x in ("qr", "lq", "gels")) else (False,)):
            seen = set()
            for nb in (2,) if QUICK else (2, 3):
                for i in instances(sp, pr, S, nb=nb, tree=tree):
                    if i.label not in seen:
                        seen.add(i.label)
                        cases.append(FaultCase(i))
                if sp.base in LU:
                    for i in instances(sp, pr, S, nb=nb, mtpf=2):
                        cases.append(FaultCase(i, team=4))
C.bounds = dict(faults="any one allocation of the call (symbolic index), alone or together with all later ones", sizes="2 x 2 tiles, ragged",
                threads="teams of 2 (4 with 2 panel threads)", options="every legal combination")
C.outside = ["gesdd and stevx2", "other sets of failing allocations", "allocations made inside BLAS, LAPACK, Lua and the OpenMP runtime"]
if __name__ == "__main__":
    C.run_cases(cases)
    C.finish(validate=0)
