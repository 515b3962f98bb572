"""C08: descriptor geometry.  The descriptor functions run on symbolic 32-bit arguments; z3 decides that exactly the documented
descriptors are accepted, that the allocation has the right size, and that the tiles (symbolic tile coordinates) lie inside it, do
not overlap and have the sizes that make them cover the matrix; views and the descriptor of T address the right tiles."""
import sys, os, subprocess, tempfile, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from chk import *

C = Check("C08", "z")
C.start(extra=("desc_harness.c",))
E = setc()
CD = E["PlasmaComplexDouble"]
PRECS = [E["PlasmaRealFloat"], E["PlasmaRealDouble"], E["PlasmaComplexFloat"], E["PlasmaComplexDouble"]]
ESZ = dict(zip(PRECS, (4, 8, 8, 16)))
GEN, UP, LO = E["PlasmaGeneral"], E["PlasmaUpper"], E["PlasmaLower"]
BASE = 1 << 44


def w(v, n=None):
    """value as a wide signed bit vector"""
    n = n or WIDE[0]
    if isinstance(v, SymInt):
        return z3.SignExt(n - v.w, v.e) if n >= v.w else z3.Extract(n - 1, 0, v.e)
    return z3.BitVecVal(v, n)


WIDE = [72]


def e32(v):
    return v.e if isinstance(v, SymInt) else z3.BitVecVal(v, 32)


class Bad(Exception):
    def __init__(self, msg):
        self.msg = msg


class Geo:
    """one descriptor type; params are symbolic unless given"""

    def __init__(self, label, kind, fixed, base, what, timeout=60000):
        self.label, self.kind, self.fixed, self.base, self.what, self.timeout = label, kind, fixed, base, what, timeout

    NAMES = {"general": ("precision", "mb", "nb", "lm", "ln", "i", "j", "m", "n"),
             "triangular": ("precision", "uplo", "mb", "nb", "lm", "ln", "i", "j", "m", "n"),
             "general_band": ("precision", "uplo", "mb", "nb", "lm", "ln", "i", "j", "m", "n", "kl", "ku")}

    def legal(self, P):
        """documented legality of the creation arguments, as a z3 formula"""
        x = {k: w(v) for k, v in P.items()}
        f = [z3.Or([x["precision"] == p for p in PRECS]), x["mb"] > 0, x["nb"] > 0, x["m"] >= 0, x["n"] >= 0, x["i"] >= 0, x["j"] >= 0]
        f += [x["n"] <= x["ln"], x["j"] + x["n"] <= x["ln"], z3.Or(x["j"] == 0, x["j"] < x["ln"]), z3.Or(x["i"] == 0, x["i"] < x["lm"])]
        f += [z3.SRem(e32(P["i"]), e32(P["mb"])) == 0, z3.SRem(e32(P["j"]), e32(P["nb"])) == 0]
        if self.kind != "general_band":
            f += [x["m"] <= x["lm"], x["i"] + x["m"] <= x["lm"]]
        if self.kind == "triangular":
            f += [x["lm"] == x["ln"], z3.Or(x["uplo"] == UP, x["uplo"] == LO), x["mb"] == x["nb"]]
        if self.kind == "general_band":
            mb = x["mb"]
            up = lambda v: z3.If(z3.SRem(v, mb) == 0, v, v - z3.SRem(v, mb) + mb)
            rows = mb + z3.If(x["uplo"] == GEN, up(x["kl"]) + up(x["kl"] + x["ku"]), z3.If(x["uplo"] == UP, up(x["ku"]), up(x["kl"])))
            f += [x["kl"] >= 0, x["ku"] >= 0, x["kl"] < x["m"], x["ku"] < x["n"], x["lm"] >= rows]
        return z3.And(f)

    def create(self, P):
        begin(nthreads=1)
        setup_plasma(2)
        self.size = None
        A = mem.alloc(E["sizeof_desc"], "user", "A")
        mem.memset(A.addr, 0, E["sizeof_desc"])

        def on(n):
            self.size = n
            return BASE
        RT.env["on_malloc"] = on
        r = call("plasma_desc_%s_create" % self.kind, *[P[k] for k in self.NAMES[self.kind]], A.addr)
        RT.env["on_malloc"] = None
        if r.__class__ is not int:
            r = int(r)
        return r, A.addr

    def never(self, q, msg):
        """z3: the bad condition q is impossible on this path"""
        ex = sym.EXP[0]
        q = q.z() if isinstance(q, sym.SymBool) else z3.BoolVal(q) if q.__class__ is bool else q
        ex.solver.push()
        ex.solver.add(q)
        ex.solver.set("timeout", self.timeout)
        r = sym.check(ex.solver)
        if r == z3.sat:
            raise Bad(msg)
        ex.solver.pop()
        if r == z3.unknown:
            raise EngineError("no answer from the solver: " + msg)

    # -- the claims
    def one(self):
        P = {k: self.fixed[k] if k in self.fixed else sym.ivar(k) for k in self.NAMES[self.kind]}
        self.P = P
        self.tiles = []
        return getattr(self, self.what)(P)

    def accept(self, P):
        r, A = self.create(P)
        if r == 0:
            self.never(z3.Not(self.legal(P)), "an illegal descriptor is accepted")
            if self.kind != "triangular":
                if isinstance(P["lm"], SymInt) or isinstance(P["ln"], SymInt):
                    got = self.size.e if isinstance(self.size, SymInt) else z3.BitVecVal(self.size, 64)
                    for p in PRECS:
                        want = z3.SignExt(32, e32(P["lm"])) * z3.SignExt(32, e32(P["ln"])) * ESZ[p]
                        self.never(z3.And(e32(P["precision"]) == p, got != want), "the allocation does not have the size of the matrix")
        else:
            if r != E["PlasmaErrorIllegalValue"]:
                raise Bad("returned %d" % r)
            self.never(self.legal(P), "a legal descriptor is rejected")

    def assume(self, c):
        sym.EXP[0].assume(c)

    def tile(self, A, P, tag, col=None):
        """a symbolic tile of the whole matrix: coordinates, offset in bytes and size"""
        k, l = sym.ivar("k" + tag), sym.ivar("l" + tag)
        if col is not None:
            self.assume(l == col)
            l = col
        band = self.kind == "general_band"
        mt, nt = call("vp_mt", A), call("vp_nt", A)
        self.assume(k >= 0)
        self.assume(l >= 0)
        self.assume(k < mt)
        self.assume(l < nt)
        if band:
            self.assume(l - k < call("vp_kut", A))
            self.assume(k - l < call("vp_klt", A))
        if self.kind == "triangular":
            self.assume(k <= l if P["uplo"] == UP else k >= l)
        mm = call("vp_mmain_band", A, k, l) if band else call("vp_mmain", A, k)
        nn = call("vp_nmain", A, l)
        off = call("vp_addr", A, k, l)
        self.tiles.append((k, l))
        return k, l, off, mm, nn

    def geometry(self, P):
        r, A = self.create(P)
        if r != 0:
            return
        esz = 16
        k, l, o1, m1, n1 = self.tile(A, P, "1")
        sz = w(self.size)
        x = {q: w(v) for q, v in P.items()}
        if self.kind != "general_band":
            rest = x["lm"] - w(k) * x["mb"]
            self.never(w(m1) != z3.If(rest < x["mb"], rest, x["mb"]), "the height of a tile is wrong")
        else:
            self.never(w(m1) != x["mb"], "the height of a tile is wrong")
        rest = x["ln"] - w(l) * x["nb"]
        self.never(w(n1) != z3.If(rest < x["nb"], rest, x["nb"]), "the width of a tile is wrong")
        e1 = w(m1) * w(n1) * esz
        self.never(z3.Or(w(o1) < 0, w(o1) + e1 > sz), "a tile lies outside the allocation")
        if "lm" in self.fixed:          # fixed large shape: every pair of tiles of some columns
            nt = (P["ln"] + P["nb"] - 1) // P["nb"]
            cols = sorted({0, 1, nt // 2, nt - 2, nt - 1})
            c1, c2 = [cols[sym.EXP[0].choose(len(cols))] for _ in (1, 2)]
            if c1 > c2:
                return
            k, l, o1, m1, n1 = self.tile(A, P, "1", c1)
            e1 = w(m1) * w(n1) * esz
            k2, l2, o2, m2, n2 = self.tile(A, P, "2", c2)
        else:
            k2, l2, o2, m2, n2 = self.tile(A, P, "2")
        e2 = w(m2) * w(n2) * esz
        if self.kind == "triangular":       # all tiles of the triangle together fill the allocation exactly
            n, b = x["lm"], x["mb"]
            q = (n - z3.SRem(n, b)) / b
            tot = (q * (q + 1) / 2 * b * b + n * z3.SRem(n, b)) * esz
            self.never(tot != sz, "the allocation does not have the size of the tiles")
        self.never(z3.And(z3.Or(w(k) != w(k2), w(l) != w(l2)), w(o1) < w(o2) + e2, w(o2) < w(o1) + e1), "two tiles overlap")

    def view(self, P):
        r, A = self.create(P)
        if r != 0:
            return
        vi, vj, vm, vn = [sym.ivar(x) for x in ("vi", "vj", "vm", "vn")]
        for v in (vi, vj, vm, vn):
            self.assume(v >= 0)
            self.assume(v <= 1 << 20)
        mb, nb = P["mb"], P["nb"]
        self.assume(sym.srem(vi, mb, 32) == 0)
        self.assume(sym.srem(vj, nb, 32) == 0)
        inside = z3.And(w(P["i"]) + w(vi) + w(vm) <= w(P["lm"]), w(P["j"]) + w(vj) + w(vn) <= w(P["ln"]))
        B = mem.alloc(E["sizeof_desc"], "user", "B")
        mem.memset(B.addr, 0, E["sizeof_desc"])
        try:
            call("vp_view", A, vi, vj, vm, vn, B.addr)
        except Violation as v:
            if v.kind not in ("exit", "fatal"):
                raise
            self.never(inside, "a view inside the matrix stops the program")
            return
        self.never(z3.Not(inside), "a view that leaves the matrix is accepted")
        mt, nt = call("vp_mt", B.addr), call("vp_nt", B.addr)
        ceil = lambda v, b: (v + b - 1) / b
        self.never(z3.Or(w(mt) != ceil(w(vm), w(mb)), w(nt) != ceil(w(vn), w(nb))), "the view has the wrong number of tiles")
        k, l = sym.ivar("k"), sym.ivar("l")
        self.assume(k >= 0)
        self.assume(l >= 0)
        self.assume(k < mt)
        self.assume(l < nt)
        hv, wv = call("vp_mview", B.addr, k), call("vp_nview", B.addr, l)
        rest, restn = w(vm) - w(k) * w(mb), w(vn) - w(l) * w(nb)
        self.never(z3.Or(w(hv) != z3.If(rest < w(mb), rest, w(mb)), w(wv) != z3.If(restn < w(nb), restn, w(nb))), "a tile of the view has the wrong size")
        kk, ll = k + sym.sdiv(P["i"] + vi, mb, 32), l + sym.sdiv(P["j"] + vj, nb, 32)
        # the same tile seen from the whole matrix
        F = mem.alloc(E["sizeof_desc"], "user", "F")
        mem.memset(F.addr, 0, E["sizeof_desc"])
        RT.env["on_malloc"] = lambda n: BASE
        rf = call("plasma_desc_general_create", P["precision"], mb, nb, P["lm"], P["ln"], 0, 0, P["lm"], P["ln"], F.addr)
        RT.env["on_malloc"] = None
        if int(rf) != 0:
            raise Bad("the descriptor of the whole matrix is rejected")
        self.never(w(call("vp_addr", B.addr, k, l)) != w(call("vp_addr", F.addr, kk, ll)), "a tile of the view is not the tile of the matrix at that place")
        self.never(z3.Or(w(call("vp_mmain", B.addr, k)) != w(call("vp_mmain", F.addr, kk)), w(call("vp_nmain", B.addr, l)) != w(call("vp_nmain", F.addr, ll))),
                   "a tile of the view has another leading dimension than the tile of the matrix")

    def descT(self, P):
        r, A = self.create(P)
        if r != 0:
            return
        ib = (1, max(1, P["nb"] // 2), P["nb"])[sym.EXP[0].choose(3)]
        T = mem.alloc(E["sizeof_desc"], "user", "T")
        mem.memset(T.addr, 0, E["sizeof_desc"])
        for mode, f in (("PlasmaFlatHouseholder", 1), ("PlasmaTreeHouseholder", 2)):
            RT.env["on_malloc"] = lambda n: BASE
            r = call("vp_descT", A, ib, E[mode], T.addr)
            RT.env["on_malloc"] = None
            if int(r) != 0:
                raise Bad("the descriptor T of a legal descriptor is rejected")
            self.never(z3.Or(w(call("vp_mt", T.addr)) != w(call("vp_mt", A)), w(call("vp_nt", T.addr)) != f * w(call("vp_nt", A))),
                       "T does not have %s tile for each tile of A" % ("one" if f == 1 else "two"))
            k, l = sym.ivar("k%d" % f), sym.ivar("l%d" % f)
            self.assume(k >= 0)
            self.assume(l >= 0)
            self.assume(k < call("vp_mt", T.addr))
            self.assume(l < call("vp_nt", T.addr))
            self.never(z3.Or(w(call("vp_mmain", T.addr, k)) != w(ib), w(call("vp_nmain", T.addr, l)) != w(P["nb"])), "a tile of T is not ib x nb")

    def sizes(self, P):
        begin(nthreads=1)
        setup_plasma(2)
        p = sym.ivar("precision")
        self.P = {"precision": p}
        self.assume(z3.Or([p.e == x for x in PRECS]))
        r = call("vp_eltsize", p)
        want = z3.BitVecVal(0, WIDE[0])
        for x in PRECS:
            want = z3.If(p.e == x, z3.BitVecVal(ESZ[x], WIDE[0]), want)
        self.never(w(r) != want, "wrong element size")

    def guarded(self):
        try:
            self.one()
        except Bad as b:
            return ("geometry", b.msg)
        except Violation as v:
            return (v.kind, v.msg)
        return None

    def run(self):
        ex = sym.Explorer(max_paths=5000, deadline=time.time() + 400, timeout_ms=self.timeout)
        ex.base = self.base
        for r in ex.explore(self.guarded):
            if r is not None:
                s = ex.solver
                vs = {}
                for b in (4, 16, 256, 1 << 16):
                    s.push()
                    for v in self.P.values():
                        if isinstance(v, SymInt) and "prec" not in str(v.e) and "uplo" not in str(v.e):
                            s.add(v.e <= b, v.e >= -b)
                    if sym.check(s) == z3.sat:
                        break
                    s.pop()
                if sym.check(s) != z3.sat:
                    return Outcome(self.label, "error", "solver", "no model for: " + r[1])
                m = s.model()
                vals = {d.name(): m[d].as_signed_long() for d in m.decls() if hasattr(m[d], "as_signed_long")}
                for k, v in self.P.items():
                    vals[k] = v if v.__class__ is int else vals.get(k, 0)
                return Outcome(self.label, "bad", r[0], "%s for %s" % (r[1], vals), dict(label=self.label, fn="plasma_desc_%s_create" % self.kind, kind=self.kind,
                               what=self.what, msg=r[1], vals=vals, names=self.NAMES[self.kind]))
        if not ex.complete:
            return Outcome(self.label, "error", "bound", "exploration not complete")
        return Outcome(self.label, "ok")


def bv(n):
    return z3.BitVec(n, 32)


def rng(**k):
    out = []
    for n, (a, b) in k.items():
        out += [bv(n) >= a, bv(n) <= b]
    return out


DRV = r"""
#include "plasma.h"
#include "plasma_internal.h"
#include "plasma_context.h"
#include "plasma_descriptor.h"
#include <stdio.h>
static size_t got;
void *vp_malloc(size_t n) { got = n; return (void *)0x100000000000; }
plasma_context_t *plasma_context_self(void) { static plasma_context_t c; return &c; }
int main(int argc, char **argv)
{
    plasma_desc_t A;
    memset(&A, 0, sizeof A);
    int r = CREATE;
    printf("ret %d\nsize %zu\n", r, got);
    if (r == 0) {
        int t[4] = {VP_K1, VP_L1, VP_K2, VP_L2};
        for (int q = 0; q < 4; q += 2)
            printf("tile %ld %d %d\n", (long)((char *)plasma_tile_addr(A, t[q], t[q+1]) - (char *)A.matrix),
                   VP_BAND ? plasma_tile_mmain_band(A, t[q], t[q+1]) : plasma_tile_mmain(A, t[q]), plasma_tile_nmain(A, t[q+1]));
    }
    return 0;
}
"""


def confirm(o):
    d = o.data
    if not d or d["what"] not in ("accept", "geometry"):
        return None
    v = d["vals"]
    t = tempfile.mkdtemp(prefix="c08")
    try:
        src = os.path.join(core.BDIR, "src")
        with open(t + "/d.c", "w") as f:
            f.write("#include <string.h>\n#define CREATE plasma_desc_%s_create(%s, &A)\n" % (d["kind"], ", ".join(str(v[k]) for k in d["names"])))
            f.write("".join("#define VP_%s %d\n" % (k.upper(), v.get(k, 0)) for k in ("k1", "l1", "k2", "l2")) + "#define VP_BAND %d\n" % (d["kind"] == "general_band") + DRV)
        fl = ["-w", "-O1"] + [f for f in build.NATFLAGS if f[:2] in ("-D", "-I")] + ["-I" + os.path.join(src, "include")]
        r = subprocess.run(["gcc", "-c", "-Dmalloc=vp_malloc"] + fl + [os.path.join(src, "control", "descriptor.c"), "-o", t + "/t.o"], capture_output=True, text=True)
        r2 = subprocess.run(["gcc"] + fl + [t + "/d.c", t + "/t.o", "-o", t + "/r"], capture_output=True, text=True)
        if r.returncode or r2.returncode:
            o.msg += " | no native replay: " + (r.stderr + r2.stderr)[:200]
            return None
        q = subprocess.run([t + "/r"], capture_output=True, text=True, timeout=20)
        o.msg += " | native replay: exit %d %s" % (q.returncode, q.stdout.replace("\n", "; ")[:200])
        return True
    finally:
        shutil.rmtree(t)


C.confirm = confirm
TB = ((1, 1), (2, 2), (3, 2), (2, 5), (4, 4)) if QUICK else ((1, 1), (1, 3), (2, 2), (3, 2), (2, 5), (4, 4), (5, 3), (8, 8), (7, 16), (256, 256))
cases = [Geo("element sizes", "general", {}, [], "sizes"),
         Geo("general: accepted arguments and size", "general", {}, [], "accept"),
         Geo("general: accepted arguments, T tile descriptor", "general", {"i": 0, "j": 0}, [], "accept")]
for up in (UP, LO, GEN, E["PlasmaGeneralBand"], 7):
    cases.append(Geo("triangular %d: accepted arguments" % up, "triangular", {"uplo": up}, [], "accept"))
for up in (UP, LO, GEN):
    for mb in (1, 2, 3, 8, 256):
        if mb == 3 and up == GEN:
            continue
        lim = 1 << 10 if mb == 3 else 1 << 28
        cases.append(Geo("band %d: accepted arguments nb%d" % (up, mb), "general_band", {"uplo": up, "mb": mb, "nb": mb, "i": 0, "j": 0},
                         rng(kl=(-lim, lim), ku=(-lim, lim), **({k: (-lim, 4 * lim) for k in ("lm", "ln", "m", "n")} if mb == 3 else {})), "accept"))
    cases.append(Geo("band %d: precision and tile sizes" % up, "general_band", {"uplo": up, "i": 0, "j": 0, "m": 8, "n": 8, "lm": 64, "ln": 8, "kl": 0, "ku": 0},
                     [z3.BitVec("mb", 32) == z3.BitVec("nb", 32), bv("mb") <= 4], "accept"))
for mb, nb in TB:
    t = 5 if QUICK else 7
    whole = lambda mb, nb, t: [bv("lm") == bv("m"), bv("ln") == bv("n")] + rng(lm=(0, t * mb), ln=(0, t * nb))
    f = {"precision": CD, "mb": mb, "nb": nb, "i": 0, "j": 0}
    cases.append(Geo("general: tiles %dx%d, up to %d tiles" % (mb, nb, t), "general", f, whole(mb, nb, t), "geometry"))
    if mb == nb:
        for up in (UP, LO):
            cases.append(Geo("triangular %d: tiles of %d, up to %d" % (up, mb, t), "triangular", dict(f, uplo=up), whole(mb, nb, t) + [bv("lm") == bv("ln")], "geometry"))
        for up in (GEN, UP, LO):
            for kl, ku in ((0, 0), (1, 0), (0, 1), (mb, 1), (1, mb), (2 * mb, mb + 1), (mb + 1, 2 * mb)):
                if up == UP and kl or up == LO and ku:
                    continue
                cases.append(Geo("band %d: tiles of %d, kl=%d ku=%d" % (up, mb, kl, ku), "general_band", dict(f, uplo=up, kl=kl, ku=ku),
                                 rng(lm=(0, (t + 3) * mb), ln=(0, t * nb), m=(0, t * mb)) + [bv("n") == bv("ln")], "geometry"))
    for what in ("view", "descT"):
        cases.append(Geo("%s: tiles %dx%d" % (what, mb, nb), "general", {"precision": CD, "mb": mb, "nb": nb}, rng(lm=(0, 40 * mb), ln=(0, 40 * nb)) if what == "descT" else
                         rng(lm=(0, t * mb), ln=(0, t * nb)), what))
# large matrices of fixed shape: nothing is lost to integer overflow
for nb, n in ((256, 131072), (200, 100001), (320, 300000), (65536, 65536 * 3)) if QUICK else ((256, 131072), (200, 100001), (320, 300000), (65536, 65536 * 3), (1000, 2000001), (1, 100000), (1 << 20, 1 << 22)):
    f = {"precision": CD, "mb": nb, "nb": nb, "i": 0, "j": 0, "lm": n, "ln": n, "m": n, "n": n}
    cases.append(Geo("general: %d x %d in tiles of %d" % (n, n, nb), "general", f, [], "geometry"))
    for up in (UP, LO):
        cases.append(Geo("triangular %d: %d x %d in tiles of %d" % (up, n, n, nb), "triangular", dict(f, uplo=up), [], "geometry"))
    kl = n // 4
    rows = lambda v: (v + nb - 1) // nb * nb
    cases.append(Geo("band: %d x %d in tiles of %d, kl=ku=%d" % (n, n, nb, kl), "general_band", dict(f, uplo=GEN, kl=kl, ku=kl, lm=nb + rows(kl) + rows(2 * kl)), [], "geometry"))
C.bounds = dict(acceptance="all values of all arguments (32 bits); bandwidths within 2^28 (sizes within 2^12 for tiles of 3), band descriptors with tile sizes 1, 2, 3, 8, 256",
                geometry="tile sizes %s; symbolic matrix sizes up to 5 (thorough: 7) tiles a side; symbolic tile coordinates" % (TB,),
                large="square matrices up to 300000 (thorough: 4194304) and tile sizes up to 65536, symbolic tile coordinates")
C.outside = ["band descriptors that do not start at (0,0) and views of them", "views with negative or unaligned offsets (callers inside the library only)",
             "geometry of symbolic sizes above the bound"]
if __name__ == "__main__":
    C.run_cases(cases, shuffle=False)
    C.finish(validate=0)
