"""C22: configuration calls set exactly what they name.  plasma_set/plasma_get run on symbolic parameter and value integers, in
symbolic call histories with init and finalize; the letter translations run on a symbolic character; the tuning callbacks run on
symbolic sizes against every outcome of the Lua interpreter; every computational routine must leave the configuration alone."""
import sys, os, subprocess, tempfile, shutil, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from chk import *
import api
import machine, rt
from inst import Inst, instances

C = Check("C22", "zcds")
C.start(extra=("const_harness.c",))
E = setc()
PARAMS = ("PlasmaTuning", "PlasmaNb", "PlasmaIb", "PlasmaNumPanelThreads", "PlasmaHouseholderMode")
DEFAULT = {"PlasmaTuning": E["PlasmaEnabled"], "PlasmaNb": 256, "PlasmaIb": 64, "PlasmaNumPanelThreads": 1, "PlasmaHouseholderMode": E["PlasmaFlatHouseholder"]}
OK, NOTINIT, ILL, ENVI = E["PlasmaSuccess"], E["PlasmaErrorNotInitialized"], E["PlasmaErrorIllegalValue"], E["PlasmaErrorEnvironment"]


def legalv(name, v):
    if name == "PlasmaTuning":
        return z3.Or(v == E["PlasmaEnabled"], v == E["PlasmaDisabled"])
    if name == "PlasmaHouseholderMode":
        return z3.Or(v == E["PlasmaFlatHouseholder"], v == E["PlasmaTreeHouseholder"])
    return v > 0


def ze(v, w=32):
    return v.e if isinstance(v, SymInt) else z3.BitVecVal(int(v), w)


class Bad(Exception):
    pass


class SymCase:
    """base: one() runs one path and raises Bad/Violation; require(cond) asks the solver whether cond holds for every value on the path"""
    maxp = 200000
    ret = None
    wit = {}
    hist = ()

    def begin(self):
        begin(nthreads=2)
        self.vars = []
        self.hist = []
        self.inpar = False
        RT.env["in_parallel"] = 0

    def var(self, n, w=32):
        v = sym.ivar(n, w)
        self.vars.append(v)
        return v

    def require(self, cond, msg):
        if cond is True or z3.is_true(cond):
            return
        s = self.ex.solver
        s.push()
        s.add(z3.Not(cond) if cond is not False else z3.BoolVal(True))
        r = sym.check(s)
        if r == z3.unknown:
            raise EngineError("no answer from the solver")
        if r == z3.sat:
            for b in (1000,):
                s.push()
                for v in [v for v in self.vars if v.w == 32]:
                    s.add(v.e <= b, v.e >= -b)
                if sym.check(s) != z3.sat:
                    s.pop()
            sym.check(s)
            m = s.model()
            self.wit = {str(v.e): m.eval(v.e, True).as_signed_long() for v in self.vars}
            raise Bad(msg)
        s.pop()

    def path(self):
        try:
            self.one()
        except Bad as b:
            return ("value", str(b))
        except Violation as v:
            self.wit = {}
            return (v.kind, v.msg)
        return None

    def run(self):
        self.ex = ex = sym.Explorer(max_paths=self.maxp, deadline=time.time() + (200 if QUICK else 600))
        for r in ex.explore(self.path):
            if r is not None:
                return Outcome(self.label, "bad", r[0], "%s [%s] with %s" % (r[1], "; ".join(self.show()), self.wit),
                               dict(label=self.label, hist=[self.conc(h) for h in self.hist], kind=r[0]))
        if not ex.complete:
            return Outcome(self.label, "error", "bound", "exploration not complete after %d paths" % ex.npaths)
        return Outcome(self.label, "ok")

    def conc(self, h):
        return [self.wit.get(str(x.e), 1) if isinstance(x, SymInt) else x for x in h]

    def show(self):
        return ["%s(%s)" % (h[0], ",".join(str(x.e) if isinstance(x, SymInt) else str(x) for x in h[1:])) for h in self.hist]


class ConfCase(SymCase):
    """call history against the documented model.  ops: list of operation names, or None at the places where any operation may occur"""

    def __init__(self, label, ops):
        self.label, self.ops = label, ops

    def parallel(self, k):
        RT.env["in_parallel"] = k

    def look(self, what):
        """every parameter has the modelled value"""
        self.parallel(0)
        o = mem.alloc(4, "user", "v")
        for p in PARAMS:
            mem.store(o.addr, 4, -77)
            r = call("plasma_get", E[p], o.addr)
            if not self.init:
                self.require(r == NOTINIT, "%s: plasma_get before plasma_init returns %r" % (what, r))
                continue
            self.require(r == OK, "%s: plasma_get(%s) returns %r" % (what, p, r))
            v = mem.load(o.addr, 4, "i")
            if v.__class__ is Undef:
                raise Bad("%s: %s is undefined" % (what, p))
            self.hist_get = p
            self.require(ze(v) == self.st[p], "%s: plasma_get(%s) does not give what is set" % (what, p))
        c = call("plasma_context_self")
        self.require((c != 0) == self.init, "%s: plasma_context_self %s" % (what, "NULL" if c == 0 else "not NULL"))

    def one(self):
        self.begin()
        self.init, self.st = False, {}
        for k, op in enumerate(self.ops):
            if op is None:
                op = ("init", "final", "set", "get", "initp", "finalp", "setp")[self.ex.choose(7)]
            par = op.endswith("p")
            self.parallel(1 if par else 0)
            name = op[:-1] if par else op
            if name == "init":
                self.hist.append(("init", int(par)))
                r = call("plasma_init")
                if self.init or par:
                    self.require(r != OK, "plasma_init %s succeeds" % ("in a parallel region" if par else "without plasma_finalize"))
                else:
                    self.require(r == OK, "plasma_init returns %r" % (r,))
                    self.init = True
                    self.st = {p: z3.BitVecVal(v, 32) for p, v in DEFAULT.items()}
            elif name == "final":
                self.hist.append(("final", int(par)))
                r = call("plasma_finalize")
                if not self.init or par:
                    self.require(r != OK if self.init else r == NOTINIT, "plasma_finalize %s returns %r" % ("in a parallel region" if par else "without plasma_init", r))
                else:
                    self.require(r == OK, "plasma_finalize returns %r" % (r,))
                    self.init = False
            elif name == "set":
                p, v = self.var("p%d" % k), self.var("v%d" % k)
                self.hist.append(("set", int(par), p, v))
                r = call("plasma_set", p, v)
                if not self.init:
                    self.require(r == NOTINIT, "plasma_set before plasma_init returns %r" % (r,))
                elif par:
                    self.require(r != OK, "plasma_set in a parallel region succeeds")
                else:
                    good = z3.Or([z3.And(p.e == E[q], legalv(q, v.e)) for q in PARAMS])
                    self.require(ze(r) == z3.If(good, z3.BitVecVal(OK, 32), z3.BitVecVal(ILL, 32)), "plasma_set returns %r" % (r,))
                    self.st = {q: z3.If(z3.And(p.e == E[q], good), v.e, x) for q, x in self.st.items()}
            else:
                p = self.var("p%d" % k)
                self.hist.append(("get", 0, p))
                o = mem.alloc(4, "user", "v")
                mem.store(o.addr, 4, -77)
                r = call("plasma_get", p, o.addr)
                v = mem.load(o.addr, 4, "i")
                if v.__class__ is Undef:
                    raise Bad("plasma_get stores an undefined value")
                if not self.init:
                    self.require(r == NOTINIT, "plasma_get before plasma_init returns %r" % (r,))
                    self.require(ze(v) == -77, "plasma_get before plasma_init stores a value")
                else:
                    known = z3.Or([p.e == E[q] for q in PARAMS])
                    want = z3.BitVecVal(-77, 32)
                    for q in PARAMS:
                        want = z3.If(p.e == E[q], self.st[q], want)
                    self.require(ze(r) == z3.If(known, z3.BitVecVal(OK, 32), z3.BitVecVal(ILL, 32)), "plasma_get returns %r" % (r,))
                    self.require(ze(v) == want, "plasma_get stores the wrong value")
            if k == len(self.ops) - 1 or self.ops[k] is None:
                self.look("after %s" % self.show()[-1])


LET = {
    "diag": {"nN": "NonUnit", "uU": "Unit"}, "direct": {"fF": "Forward", "bB": "Backward"},
    "norm": {"oO1": "OneNorm", "2": "TwoNorm", "fFeE": "FrobeniusNorm", "iI": "InfNorm", "mM": "MaxNorm"},
    "side": {"lL": "Left", "rR": "Right"}, "storev": {"cC": "Columnwise", "rR": "Rowwise"},
    "trans": {"nN": "NoTrans", "tT": "Trans", "cC": "ConjTrans"}, "uplo": {"uU": "Upper", "lL": "Lower"},
    "job": {"aA": "AllVec", "sS": "SomeVec", "vV": "Vec", "nN": "NoVec", "iI": "IVec"}, "range": {"aA": "RangeAll", "vV": "RangeV", "iI": "RangeI"}}
BACK = {"NoTrans": "N", "Trans": "T", "ConjTrans": "C", "Upper": "U", "Lower": "L", "General": "G", "NonUnit": "N", "Unit": "U", "Left": "L", "Right": "R", "OneNorm": "O",
        "TwoNorm": "T", "FrobeniusNorm": "F", "InfNorm": "I", "MaxNorm": "M", "Forward": "F", "Backward": "B", "Columnwise": "C", "Rowwise": "R", "W": "W", "A2": "A"}


class ConstCase(SymCase):
    def __init__(self, fn):
        self.fn = fn
        self.label = fn

    def one(self):
        self.begin()
        if self.fn == "lapack_const":
            c = self.var("c")
            self.hist = [("lapack_const", c)]
            s = self.ex.solver
            r = call("vp_lapack_const", c)
            want = z3.BitVecVal(0, 32)
            for k, l in BACK.items():
                want = z3.If(c.e == E["Plasma" + k], z3.BitVecVal(ord(l), 32), want)
        else:
            c8 = self.var("c", 8)
            c = c8
            self.hist = [(self.fn, c8)]
            r = call(self.fn, c)
            k = self.fn[7:-6]
            want = z3.BitVecVal(E["PlasmaGeneral" if k == "uplo" else "PlasmaInvalid"], 32)
            for ls, v in LET[k].items():
                for l in ls:
                    want = z3.If(c8.e == ord(l), z3.BitVecVal(E["Plasma" + v], 32), want)
        self.require(ze(r) == want, "%s returns %r" % (self.fn, r))


# ---- tuning: model of the Lua interpreter ----------------------------------------------------
CUR = [None]


def interp(n):
    def f(*a):
        if CUR[0] is None:
            if n not in machine.EXTERN:
                raise EngineError("call of " + n)
            return machine.EXTERN[n](*a)
        return getattr(CUR[0], n)(*a)
    core.MACH.override[n] = f


for _n in ("luaL_newstate", "luaL_openlibs", "lua_close", "lua_getglobal", "lua_pushstring", "lua_pushinteger", "lua_pcallk", "lua_tonumberx", "lua_tointegerx",
           "lua_settop", "lua_gettop", "luaL_loadfilex", "getenv", "fopen", "fclose", "lua_pushnumber", "access", "lua_type"):
    interp(_n)


class Lua:
    """every answer of the interpreter that the C API allows is tried"""

    def __init__(self, case):
        self.case, self.log, self.stack, self.open, self.closed = case, [], [], 0, 0
        self.fail = False
        CUR[0] = self
        self.state = 0

    def off(self):
        CUR[0] = None

    def pick(self, what):
        """0: normal"""
        if self.case.nofail:
            return 0
        r = self.case.ex.choose(2)
        if r:
            self.fail = what
        return r

    def luaL_newstate(self):
        if self.pick("luaL_newstate"):
            return 0
        self.state = mem.alloc(64, "user", "lua").addr
        self.open += 1
        return self.state

    def need(self, L):
        if L != self.state or not self.open or self.closed:
            raise Violation("lua", "Lua call on a state that is not open")

    def luaL_openlibs(self, L):
        self.need(L)

    def lua_close(self, L):
        self.need(L)
        self.closed += 1

    def getenv(self, p):
        if self.pick("getenv"):
            return 0
        return self.case.text("/tuning.lua")

    def fopen(self, p, m):
        if self.pick("fopen"):
            return 0
        self.files = getattr(self, "files", 0) + 1
        return mem.alloc(8, "user", "file").addr

    def access(self, p, m):
        return -1 if self.pick("access") else 0

    def fclose(self, f):
        self.files -= 1
        return 0

    def luaL_loadfilex(self, L, fn, mode):
        self.need(L)
        self.stack.append(("chunk",))
        return 1 if self.pick("luaL_loadfile") else 0

    def lua_getglobal(self, L, n):
        self.need(L)
        f = rt.cstr(n)
        if self.pick("lua_getglobal"):
            self.stack.append(("nil",))
            return 0
        self.stack.append(("fn", f))
        return 6

    def lua_type(self, L, k):
        self.need(L)
        return 6 if self.stack[k][0] == "fn" else 3 if self.stack[k][0] == "num" else 0

    def lua_pushstring(self, L, s):
        self.need(L)
        self.stack.append(("str", rt.cstr(s)))
        return s

    def lua_pushinteger(self, L, v):
        self.need(L)
        self.stack.append(("int", v))

    def lua_pushnumber(self, L, v):
        self.need(L)
        self.stack.append(("int", v))

    def lua_pcallk(self, L, nargs, nres, msgh, ctx, k):
        self.need(L)
        if nargs.__class__ is not int or nargs + 1 > len(self.stack):
            raise Violation("lua", "lua_pcall with %r arguments on a stack of %d" % (nargs, len(self.stack)))
        a = [self.stack.pop() for _ in range(nargs)][::-1]
        f = self.stack.pop()
        if self.pick("lua_pcall"):
            self.stack.append(("err",))
            return 2
        if f[0] == "chunk":
            return 0
        if f[0] != "fn":
            raise Violation("lua", "lua_pcall of something that is not a function")
        self.log.append((f[1], a))
        if not self.case.nofail and self.case.ex.choose(2):
            self.fail = "lua_tonumber"
            self.stack.append(("nil",))
        else:
            self.stack.append(("num", f[1]))
        return 0

    def lua_tonumberx(self, L, k, p):
        self.need(L)
        t = self.stack[k]
        if t[0] != "num":
            return 0
        return self.case.value(t[1])
    lua_tointegerx = lua_tonumberx

    def lua_settop(self, L, k):
        self.need(L)
        if k >= 0:
            del self.stack[k:]
        elif k < -1:
            del self.stack[k + 1:]

    def lua_gettop(self, L):
        return len(self.stack)


def tune_spec():
    """name -> dimensions, from the declarations"""
    h = open(os.path.join(core.BDIR, "src", "include", "plasma_tuning.h")).read()
    out = {}
    for m in re.finditer(r"void\s+plasma_tune_(\w+)\s*\(([^)]*)\)", h):
        out[m.group(1)] = [a.split()[-1] for a in m.group(2).split(",")[2:]]
    return out


class TuneCase(SymCase):
    """plasma_tune_X stores the tile size (and, where there is one, the inner block size and panel threads) the tuning file gives for X"""

    def __init__(self, name, dims, dt, nofail=False):
        self.name, self.dims, self.dt = name, dims, dt
        self.nofail = False
        self.label = "plasma_tune_%s(%s)" % (name, dt)

    def text(self, s):
        o = mem.alloc(len(s) + 1, "user", "text")
        for i, c in enumerate(s):
            mem.store(o.addr + i, 1, ord(c))
        mem.store(o.addr + len(s), 1, 0)
        return o.addr

    def value(self, fn):
        for k, suf in enumerate(("_nb", "_ib", "_max_panel_threads")):
            if fn.endswith(suf):
                return 1000 + k
        return 1999

    def one(self):
        self.begin()
        self.nofail = True
        lua = Lua(self)
        try:
            call("plasma_init")
            c = call("plasma_context_self")
            if not lua.open or lua.closed:
                raise Bad("the tuning file is not used")
            self.nofail = False
            ds = [self.var(d) for d in self.dims]
            self.hist = [("plasma_tune_" + self.name, self.dt, *ds)]
            lua.log, lua.stack = [], []
            call("plasma_tune_" + self.name, c, E[dict(zip("zcds", ("PlasmaComplexDouble", "PlasmaComplexFloat", "PlasmaRealDouble", "PlasmaRealFloat")))[self.dt]], *ds)
            o = mem.alloc(4, "user", "v")
            got = {}
            for p in PARAMS:
                call("plasma_get", E[p], o.addr)
                got[p] = mem.load(o.addr, 4, "i")
            ran = {}
            for f, a in lua.log:
                if not f.startswith(self.name + "_"):
                    raise Bad("the tuning function %s is called" % f)
                suf = f[len(self.name):]
                par = {"_nb": "PlasmaNb", "_ib": "PlasmaIb", "_max_panel_threads": "PlasmaNumPanelThreads"}.get(suf)
                if par is None:
                    raise Bad("the tuning function %s is called" % f)
                ran[par] = self.value(f)
                w = [("str", self.dt.upper()), None] + [("int", d) for d in ds]
                if len(a) != len(w) or a[0] != w[0]:
                    raise Bad("%s is called with %r" % (f, a))
                for x, y in zip(a[2:], w[2:]):
                    if x[0] != "int":
                        raise Bad("%s is called with %r" % (f, a))
                    e = x[1]
                    e = e.e if isinstance(e, SymInt) else z3.BitVecVal(int(e), 64)
                    self.require(e == z3.SignExt(e.size() - 32, y[1].e) if e.size() > 32 else e == y[1].e, "%s receives other sizes than the routine has" % f)
            if not lua.fail and "PlasmaNb" not in ran:
                raise Bad("the tile size is not tuned")
            for p in PARAMS:
                w = (ran.get(p, DEFAULT[p]),) if not lua.fail else (ran.get(p, DEFAULT[p]), DEFAULT[p])
                if got[p].__class__ is not int or got[p] not in w:
                    raise Bad("%s is %r after tuning; the tuning file says %r%s" % (p, got[p], w[0], " (%s fails)" % lua.fail if lua.fail else ""))
        finally:
            lua.off()


class TuneInit(SymCase):
    """initialisation with every failure of the interpreter, the file or the environment; finalize releases the interpreter"""

    def __init__(self):
        self.label = "tuning file set up and released"
    text, value = TuneCase.text, TuneCase.value

    def one(self):
        self.begin()
        for rnd in range(2):
            self.nofail = False
            lua = Lua(self)
            try:
                self.hist.append(("init", 0))
                r = call("plasma_init")
                self.require(r == OK, "plasma_init returns %r" % (r,))
                if getattr(lua, "files", 0):
                    raise Bad("the tuning file is left open")
                f = lua.fail
                if lua.fail and lua.open and not lua.closed:
                    raise Bad("the interpreter is not closed although %s failed" % f)
                if not lua.fail and (not lua.open or lua.closed):
                    raise Bad("the tuning file is not used")
                self.nofail = True
                c = call("plasma_context_self")
                call("plasma_tune_gemm", c, E["PlasmaRealDouble"], 5, 5, 5)
                o = mem.alloc(4, "user", "v")
                call("plasma_get", E["PlasmaNb"], o.addr)
                v = mem.load(o.addr, 4, "i")
                w = 256 if f else 1000
                if v.__class__ is not int or v != w:
                    raise Bad("tile size %r instead of %d with the tuning file %s" % (v, w, "unusable" if f else "loaded"))
                self.hist.append(("final", 0))
                r = call("plasma_finalize")
                self.require(r == OK, "plasma_finalize returns %r" % (r,))
                if lua.open != lua.closed:
                    raise Bad("the interpreter is not closed by plasma_finalize")
            finally:
                lua.off()


# ---- computational routines leave the configuration alone ---------------------------------------
class KeepCase:
    def __init__(self, inst):
        self.i = inst
        self.label = "configuration after " + inst.label

    def get(self):
        o = mem.alloc(4, "user", "v")
        out = {}
        for p in PARAMS:
            call("plasma_get", E[p], o.addr)
            out[p] = mem.load(o.addr, 4, "i")
        return out

    def run(self):
        i = self.i
        lu = any(x in i.sp.base for x in ("getrf", "gesv", "gbtrf", "gbsv", "geinv", "hetrf", "hesv"))
        i.start(nthreads=6 if lu else 2, coop=lu)
        pre, (fn, args) = i.build()
        try:
            with nolog():
                for f, a in pre:
                    call(f, *lower(a))
            b = self.get()
            call(fn, *lower(args))
            a = self.get()
        except Violation as v:
            return Outcome(self.label, "ok", sample=None)     # memory safety is C21's business
        for p in PARAMS:
            if a[p] is not b[p] and not (a[p].__class__ is int and a[p] == b[p]):
                return Outcome(self.label, "bad", "config", "%s changes %s from %r to %r" % (fn, p, b[p], a[p]), None)
        return Outcome(self.label, "ok")


DRV = r"""
#include <stdio.h>
#include "plasma_types.h"
#include "plasma_context.h"
#include "plasma_core_blas.h"
static int par;
int vp_in_parallel(void) { return par; }
static void show(void)
{
    int p[] = {PlasmaTuning, PlasmaNb, PlasmaIb, PlasmaNumPanelThreads, PlasmaHouseholderMode};
    for (int i = 0; i < 5; i++) { int v = -77; int r = plasma_get(p[i], &v); printf("%d %d ", r, v); }
    printf("%d\n", plasma_context_self() != NULL);
}
int main(void)
{
    int v, r;
@BODY@
    show();
    return 0;
}
"""


def model(hist):
    """the lines the native driver has to print"""
    init, st, out = False, {}, []
    for h in hist:
        par = h[1] if len(h) > 1 else 0
        if h[0] == "init":
            good = not init and not par
            out.append("ok" if good else "error")
            if good:
                init, st = True, dict(DEFAULT)
        elif h[0] == "final":
            good = init and not par
            out.append("ok" if good else "error")
            if good:
                init = False
        elif h[0] == "set":
            q = [x for x in PARAMS if E[x] == h[2]]
            good = init and not par and q and z3.is_true(z3.simplify(legalv(q[0], z3.BitVecVal(h[3], 32))))
            out.append("ok" if good else "error")
            if good:
                st[q[0]] = h[3]
        elif h[0] == "get":
            q = [x for x in PARAMS if E[x] == h[2]]
            out.append("%s %d" % (("ok", st[q[0]]) if init and q else ("error", -77)))
        elif h[0] == "lapack_const":
            out.append(str(ord(([l for k, l in BACK.items() if E["Plasma" + k] == h[1]] or ["\0"])[0])))
        else:
            k = h[0][7:-6]
            w = [E["Plasma" + x] for ls, x in LET[k].items() if 0 <= h[1] < 128 and chr(h[1]) in ls]
            out.append(str(w[0] if w else E["PlasmaGeneral" if k == "uplo" else "PlasmaInvalid"]))
    out.append(" ".join("%d %d" % (OK, st[p]) if init else "%d -77" % NOTINIT for p in PARAMS) + " %d" % init)
    return out


def confirm(o):
    d = o.data
    if not d or not d.get("hist") or d["hist"][0][0].startswith("plasma_tune") or "tuning" in d["label"]:
        return None
    b = []
    for h in d["hist"]:
        if h[0] in ("init", "final", "set", "get"):
            b.append("par = %d;" % h[1])
        if h[0] == "init":
            b.append('printf("%s\\n", plasma_init() ? "error" : "ok");')
        elif h[0] == "final":
            b.append('printf("%s\\n", plasma_finalize() ? "error" : "ok");')
        elif h[0] == "set":
            b.append('printf("%%s\\n", plasma_set(%d, %d) ? "error" : "ok");' % (h[2], h[3]))
        elif h[0] == "get":
            b.append('v = -77; r = plasma_get(%d, &v); printf("%%s %%d\\n", r ? "error" : "ok", v);' % h[2])
        else:
            b.append('printf("%%d\\n", (int)%s(%d));' % (h[0], h[1]))
    t = tempfile.mkdtemp(prefix="c22")
    try:
        with open(t + "/d.c", "w") as f:
            f.write(DRV.replace("@BODY@", "\n".join(b)))
        src = os.path.join(core.BDIR, "src")
        from build import NATFLAGS
        fl = [x for x in NATFLAGS if x[:2] in ("-D", "-I")] + ["-w", "-O1", "-fopenmp", "-I" + os.path.join(src, "include")]
        r = subprocess.run(["gcc", "-Domp_in_parallel=vp_in_parallel", t + "/d.c"] + [os.path.join(src, "control", x) for x in ("context.c", "constants.c", "tuning.c")] + fl +
                           ["-o", t + "/r", "-llua5.4"], capture_output=True, text=True)
        if r.returncode:
            o.msg += " | no native replay: " + r.stderr[:200]
            return None
        env = dict(os.environ)
        env.pop("PLASMA_TUNING_FILENAME", None)
        q = subprocess.run([t + "/r"], capture_output=True, text=True, timeout=20, env=env)
        got, want = q.stdout.split("\n")[:-1], model(d["hist"])
        k = [i for i in range(len(want)) if i >= len(got) or got[i].strip() != want[i].strip()]
        o.msg += " | native replay: %s" % ("as documented" if not k else "line %d is '%s', documented: '%s'" % (k[0], got[k[0]] if k[0] < len(got) else "-", want[k[0]]))
        return bool(k)
    finally:
        shutil.rmtree(t)


C.confirm = confirm
cases = [ConfCase("defaults", ["init"]), ConfCase("one plasma_set", ["init", "set"]), ConfCase("two plasma_set", ["init", "set", "set"]), ConfCase("plasma_get after plasma_set", ["init", "set", "get"]),
         ConfCase("plasma_set after re-initialisation", ["init", "set", "final", "init", "set"]),
         ConfCase("all histories of %d calls" % (3 if QUICK else 4), [None] * (3 if QUICK else 4)), ConfCase("all histories of 2 calls after plasma_init", ["init"] + [None] * (2 if QUICK else 3))]
if not QUICK:
    cases.append(ConfCase("three plasma_set", ["init", "set", "set", "set"]))
cases += [ConstCase("plasma_%s_const" % k) for k in LET if "plasma_%s_const" % k in core.MACH.defs] + [ConstCase("lapack_const")]
for n, ds in tune_spec().items():
    if "plasma_tune_" + n in core.MACH.defs:
        cases += [TuneCase(n, ds, dt) for dt in "zcds"]
cases.append(TuneInit())
SMALL = ("kl", "ku", "kd", "bw")
for sp in api.specs():
    if sp.base == "gesdd":
        continue
    for pr in sp.precs:
        if not api.fname(sp, pr):
            continue
        for tree in ((False, True) if any(x in sp.base for x in ("qr", "lq", "gels")) else (False,)):
            seen = 0
            for i in instances(sp, pr, lambda names: [{n: 1 if n in SMALL else 3 for n in names}, {n: 1 if n in SMALL else s for n, s in zip(names, (5, 3, 4, 2, 2, 2))},
                                                      {n: 1 if n in SMALL else s for n, s in zip(names, (3, 5, 2, 2, 2, 2))}], nb=2, mtpf=4, tree=tree):
                if seen < (2 if QUICK else 12):
                    cases.append(KeepCase(i))
                seen += 1
C.bounds = dict(values="every 32-bit parameter and value, every character, every 32-bit size handed to the tuning file", histories="any calls of init/finalize/set/get, inside or outside a parallel region, up to %d calls" % (3 if QUICK else 4),
                tuning="every success or failure of each interpreter call, for every tuning function and precision", routines="every computational routine on up to 5 x 5 matrices with nb=2, 4 panel threads, %d option sets" % (2 if QUICK else 12))
C.outside = ["longer histories", "the contents of the tuning file", "PlasmaInplaceOutplace (not settable)", "configuration after a failed allocation (C19)", "gesdd"]
if __name__ == "__main__":
    C.run_cases(cases, shuffle=False)
    C.finish(validate=0)
