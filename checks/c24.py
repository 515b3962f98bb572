"""C24: the panel barrier separates phases under every interleaving."""
import sys, os, subprocess, tempfile, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from chk import *
import conc, z3, mem
import build

C = Check("C24", "z")
C.start()


def initial(cells):
    """the words plasma_barrier_init leaves in the object"""
    begin()
    o = mem.alloc(256, "arg", "barrier")
    call("plasma_barrier_init", o.addr)
    out = {}
    for off, w in cells.items():
        v = mem.load(o.addr + off, w // 8, "i")
        if v.__class__ is not int:
            raise Violation("value", "plasma_barrier_init leaves offset %d of the barrier undefined" % off)
        out[off] = v
    return out


class Case:
    def __init__(self, n, g, tso):
        self.n, self.g, self.tso = n, g, tso
        self.label = "barrier %d threads %d uses %s" % (n, g, "TSO" if tso else "SC")

    def run(self):
        n, g = self.n, self.g
        p = conc.Prog(core.MACH, "plasma_barrier_wait", [("p", 0), n])
        core.MACH.encoded.update(p.funcs)
        M = conc.Model(p, n, g, self.tso, initial(p.cells))
        s = z3.SolverFor("QF_BV")
        s.set("timeout", 700000)
        st = M.first()
        sched = []
        k = 0
        while True:
            mvs = M.moves(st)
            un, stk = M.unsafe(st), M.stuck(st, mvs)
            s.push()
            s.add(z3.Or(un, stk))
            r = sym.check(s)
            if r == z3.sat:
                m = s.model()
                tr = [m.eval(x, True).as_long() for x in sched]
                what = "a thread left before all had entered" if z3.is_true(m.eval(un, True)) else "some threads wait forever"
                return Outcome(self.label, "bad", "interleaving", "%s; schedule %s" % (what, " ".join(map(str, tr))),
                               dict(replay="barrier", n=n, g=g, sched=tr, tso=self.tso))
            s.pop()
            nx = M.var(k + 1)
            sc = z3.BitVec("sc%d" % k, 4)
            sched.append(sc)
            s.add(z3.ULT(sc, len(mvs)))
            for key in nx:
                v = st[key]
                for i, mv in enumerate(mvs):
                    if key in mv:
                        v = z3.If(sc == i, mv[key], v)
                s.add(nx[key] == v)
            s.add(z3.Or([z3.And(sc == i, M.effective(st, mv)) for i, mv in enumerate(mvs)]))
            r2 = sym.check(s)
            k += 1
            if r == z3.unknown or r2 == z3.unknown:
                raise EngineError("no answer from the solver at depth %d" % k)
            if r2 == z3.unsat:
                break
            if k > 80 * n:
                return Outcome(self.label, "bad", "interleaving", "the threads can run on forever without all leaving", None)
            st = nx
        return Outcome(self.label, "ok", sample=dict(label=self.label, fn="plasma_barrier_wait", steps=k))


def replay(d):
    t = tempfile.mkdtemp(prefix="c24")
    try:
        with open(os.path.join(t, "s.h"), "w") as f:
            f.write("#define N %d\n#define G %d\n#define LEN %d\nstatic int sched[] = {%s};\n" % (
                d["n"], d["g"], len(d["sched"]), ",".join(map(str, d["sched"])) or "0"))
        src = os.path.join(core.BDIR, "src")
        inc = ["-I" + os.path.join(src, "include"), "-I" + t]
        r = subprocess.run(["clang", "-O1", "-fsanitize=thread", "-mllvm", "-tsan-instrument-read-before-write", "-mllvm", "-tsan-distinguish-volatile", "-c",
                            os.path.join(src, "control", "barrier.c"), "-o", t + "/b.o"] + inc, capture_output=True, text=True)
        r2 = subprocess.run(["clang", "-O1", "-w", '-DSCHEDULE="s.h"', os.path.join(VERIF, "engine", "include", "replay_barrier.c"), t + "/b.o", "-lpthread", "-o", t + "/r"] + inc,
                            capture_output=True, text=True)
        if r.returncode or r2.returncode:
            return None, (r.stderr + r2.stderr)[:300]
        try:
            x = subprocess.run([t + "/r"], capture_output=True, text=True, timeout=20)
        except subprocess.TimeoutExpired:
            return True, "the run does not end"
        return x.returncode != 0, x.stdout.strip()[:300]
    finally:
        shutil.rmtree(t)


def confirm(o):
    d = o.data
    if not d or d.get("tso"):
        return None
    ok, msg = replay(d)
    o.msg += " | native replay: " + msg
    return ok


C.confirm = confirm
cases = [Case(n, g, t) for n, g in (((1, 2), (2, 1), (2, 2), (2, 3), (2, 4), (3, 1), (3, 2), (4, 1)) if QUICK else
                                    ((1, 3), (2, 1), (2, 4), (2, 6), (3, 1), (3, 2), (3, 3), (4, 1), (4, 2))) for t in (False, True)]
cases.sort(key=lambda c: -c.n * c.g)
C.bounds = dict(threads="1 to 4", uses="2 threads: %s, 3 threads: %s, 4 threads: %s consecutive uses" % (("4", "2", "1") if QUICK else ("6", "3", "2")),
                interleaving="every order of the single shared accesses (symbolic scheduler), with sequentially consistent memory and with one-entry store buffers (x86-TSO)",
                depth="all runs: the bound is raised until no longer run of state-changing steps exists")
C.outside = ["more threads or uses than listed", "unfair schedulers", "weaker memory models than x86-TSO", "wrap-around of the use counter after 2^32 uses"]
if __name__ == "__main__":
    C.run_cases(cases, shuffle=False)
    C.finish(validate=0)
