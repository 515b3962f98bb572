"""C23: the operation list produced for the tree reduction is legal and complete for every tile count and every number of threads.
The tree generators run with the number of threads as a symbolic integer (every 32-bit value from 1 to 2^20); the explorer forks
wherever the list depends on it and z3 decides which ranges are possible.  On each path the list is replayed against the rules of
tile QR."""
import sys, os, subprocess, tempfile, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from chk import *

C = Check("C23", "zcds")
C.start()
E = setc()
GE, TS, TT = E["PlasmaGeKernel"], E["PlasmaTsKernel"], E["PlasmaTtKernel"]
NAME = {GE: "GE", TS: "TS", TT: "TT"}


def illegal(mt, nt, ops):
    """None, or why the list of operations is not a tile QR factorization of mt x nt tiles"""
    mn = min(mt, nt)
    tri = [[False] * mt for _ in range(mn)]     # row is triangular (or zero) in this column
    dead = [[False] * mt for _ in range(mn)]    # row was annihilated in this column
    for k, (kern, j, r, p) in enumerate(ops):
        t = "operation %d %s(col %d, row %d, pivot row %d)" % (k, NAME.get(kern, kern), j, r, p)
        if kern not in NAME:
            return t + ": unknown kernel"
        if not (0 <= j < mn and j <= r < mt):
            return t + ": outside the lower part of the %d x %d tiles" % (mt, nt)
        if j > 0 and not dead[j - 1][r]:
            return t + ": row %d is not yet zero in column %d" % (r, j - 1)
        if tri[j][r] and kern != TT or dead[j][r]:
            return t + ": the tile is already triangular or zero"
        if kern == GE:
            tri[j][r] = True
            continue
        if not (j <= p < r):
            return t + ": bad pivot row"
        if not tri[j][p] or dead[j][p]:
            return t + ": the pivot row is not a live triangle"
        if kern == TT and not tri[j][r]:
            return t + ": the tile is not triangular"
        tri[j][r] = True
        dead[j][r] = True
    for j in range(mn):
        if not tri[j][j] or dead[j][j]:
            return "the diagonal tile (%d,%d) is not left triangular" % (j, j)
        for r in range(j + 1, mt):
            if not dead[j][r]:
                return "tile (%d,%d) is never annihilated" % (r, j)
    return None


class TreeCase:
    def __init__(self, fn, mt, nt):
        self.fn, self.mt, self.nt = fn, mt, nt
        self.label = "%s %dx%d tiles" % (fn, mt, nt)

    def one(self):
        begin(nthreads=1)
        setup_plasma(2)
        nt = sym.ivar("threads")
        self.nthr = nt
        op = mem.alloc(8, "user", "ops")
        num = mem.alloc(4, "user", "num")
        seq = mem.alloc(64, "user", "sequence")
        req = mem.alloc(64, "user", "request")
        for o, n in ((op, 8), (num, 4), (seq, 64), (req, 64)):
            mem.memset(o.addr, 0, n)
        args = [self.mt, self.nt, op.addr, num.addr]
        if self.fn in ("plasma_tree_auto", "plasma_tree_block_greedy"):
            args.append(nt)
        core.MACH.override["omp_get_num_threads"] = lambda *a: nt
        try:
            call(self.fn, *args, seq.addr, req.addr)
        except Violation as v:
            return (v.kind, v.msg)
        finally:
            core.MACH.override.pop("omp_get_num_threads", None)

        def con(v):
            return sym.EXP[0].concretize(v) if isinstance(v, SymInt) else v
        st = con(mem.load(seq.addr, 4, "i"))
        if st != E["PlasmaSuccess"]:
            return ("status", "the sequence is failed (%d)" % st)
        n = con(mem.load(num.addr, 4, "i"))
        p = mem.load(op.addr, 8, "p")
        ops = []
        try:
            for k in range(n):
                ops.append(tuple(con(mem.load(p + 16 * k + 4 * q, 4, "i")) for q in range(4)))
        except Violation as v:
            return (v.kind, "the list is shorter than the number of operations: " + v.msg)
        if any(x.__class__ is not int for o in ops for x in o):
            return ("uninit", "the list contains uninitialised entries")
        m = illegal(self.mt, self.nt, ops)
        if m:
            return ("illegal", m)
        live = [o for o in RT.mallocs if not o.freed and o.addr != p]
        if live:
            return ("leak", "%d allocations are not released" % len(live))
        return None

    def run(self):
        ex = sym.Explorer(max_paths=20000, deadline=time.time() + 300)
        ex.divconc = True
        t = z3.BitVec("threads", 32)
        ex.base = [t >= 1, t <= 1 << 20]
        n = 0
        for r in ex.explore(self.one):
            n += 1
            if r is not None:
                ex.solver.push()
                for b in (4, 64, 1024):
                    ex.solver.push()
                    ex.solver.add(t <= b)
                    if sym.check(ex.solver) == z3.sat:
                        break
                    ex.solver.pop()
                sym.check(ex.solver)
                w = ex.solver.model().eval(t, True).as_long()
                return Outcome(self.label, "bad", r[0], "with %d threads: %s" % (w, r[1]), dict(label=self.label, fn=self.fn, mt=self.mt, nt=self.nt, threads=w, kind=r[0]))
        if not ex.complete:
            return Outcome(self.label, "error", "bound", "exploration not complete after %d paths" % n)
        return Outcome(self.label, "ok")


DRV = r"""
#include <stdio.h>
#include <stdlib.h>
#include "plasma_types.h"
#include "plasma_async.h"
int vp_threads(void) { return THREADS; }
int plasma_request_fail(plasma_sequence_t *s, plasma_request_t *r, plasma_enum_t st) { printf("FAILED\n"); exit(3); }
#define BG 0
void FN(int, int, int **, int *, ...);
int main(void)
{
    int *ops = 0, n = 0;
    static char s[256], r[256];
#if CONC
    ((void (*)(int, int, int **, int *, int, void *, void *))FN)(MT, NT, &ops, &n, THREADS, s, r);
#else
    ((void (*)(int, int, int **, int *, void *, void *))FN)(MT, NT, &ops, &n, s, r);
#endif
    for (int i = 0; i < 4*n; i++) printf("%d ", ops[i]);
    printf("\n");
    return 0;
}
"""


def confirm(o):
    d = o.data
    if not d or d["kind"] == "leak":
        return None
    t = tempfile.mkdtemp(prefix="c23")
    try:
        with open(t + "/d.c", "w") as f:
            f.write(DRV)
        src = os.path.join(core.BDIR, "src")
        fl = ["-w", "-O1", "-fopenmp", "-fsanitize=address", "-I" + os.path.join(src, "include"), "-I" + os.path.join(VERIF, "engine", "include")]
        x = d["fn"] in ("plasma_tree_auto", "plasma_tree_block_greedy")
        r = subprocess.run(["gcc", "-c", "-Domp_get_num_threads=vp_threads"] + fl + [os.path.join(src, "control", "tree.c"), "-o", t + "/t.o"], capture_output=True, text=True)
        r2 = subprocess.run(["gcc", "-DMT=%d" % d["mt"], "-DNT=%d" % d["nt"], "-DTHREADS=%d" % d["threads"], "-DFN=" + d["fn"], "-DCONC=%d" % x] + fl + [
            t + "/d.c", t + "/t.o", "-o", t + "/r"], capture_output=True, text=True)
        if r.returncode or r2.returncode:
            o.msg += " | no native replay: " + (r.stderr + r2.stderr)[:200]
            return None
        try:
            q = subprocess.run([t + "/r"], capture_output=True, text=True, timeout=20, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
        except subprocess.TimeoutExpired:
            o.msg += " | native replay: does not end"
            return True
        if q.returncode:
            o.msg += " | native replay: exit %d %s" % (q.returncode, q.stderr[:80])
            return True
        v = [int(a) for a in q.stdout.split("\n")[-2].split()] if q.stdout.strip() else []
        m = illegal(d["mt"], d["nt"], [tuple(v[i:i + 4]) for i in range(0, len(v), 4)])
        o.msg += " | native replay: %s" % m
        return bool(m)
    finally:
        shutil.rmtree(t)


C.confirm = confirm
N = 13 if QUICK else 21
cases = []
for fn in ("plasma_tree_operations", "plasma_tree_block_greedy", "plasma_tree_auto", "plasma_tree_greedy", "plasma_tree_binary", "plasma_tree_flat_tt", "plasma_tree_flat_ts"):
    if fn not in core.MACH.defs:
        continue
    top = N if fn == "plasma_tree_operations" else N - 2
    for mt in range(1, top + 1):
        for nt in range(1, top + 1):
            cases.append(TreeCase(fn, mt, nt))
cases.sort(key=lambda c: -c.mt * c.nt)
C.bounds = dict(tiles="1 to %d tile rows and columns (each generator separately: %d)" % (N, N - 2), threads="symbolic, every value from 1 to 2^20")
C.outside = ["more tiles", "running out of memory while the list is built (C19)", "the order in which the listed kernels execute (C17) and their numerical effect (C13)"]
if __name__ == "__main__":
    C.run_cases(cases, shuffle=False)
    C.finish(validate=0)
