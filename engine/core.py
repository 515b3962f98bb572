"""Engine front end: builds the IR, starts a run, creates caller arrays, evaluates witnesses."""
import os, sys, time, hashlib, random
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import build
import mem
import poly
import fp
import sym
import machine
import rt
import blas
from rt import RT
import qrstub
from poly import Poly, TOP, Top, lift
from sym import Violation, EngineError, Stop, Infeasible, STAT, EXP

MACH = None
BDIR = None


def init(precs="zd", extra=()):
    """build the IR of the current tree (and of the harness files in extra, against its headers) and load it"""
    global MACH, BDIR
    BDIR = build.ensure(precs)
    MACH = machine.Machine(build.bc_files(BDIR, precs) + [build.harness_bc(BDIR, x) for x in extra])
    RT.machine = MACH
    blas.regall()
    return MACH


# ---- concolic witness ----------------------------------------------------------------------
WIT = {}        # lane -> numeric value chosen by the harness
PC = []         # path condition: (FBool, outcome)
FORKVARS = set()
SEED = [1]
INTWIT = [False]     # small dyadic witnesses (exact in binary arithmetic)


def witness(lane):
    v = WIT.get(lane)
    if v is None:
        info = poly.ATOMINFO.get(lane)
        if info is not None:
            kind, args = info
            a = [evalp(x) for x in args]
            if kind == "abs":
                v = abs(a[0])
            elif kind == "sqrt":
                x = a[0].real if isinstance(a[0], complex) else a[0]
                v = max(x, 0.0) ** 0.5
            else:
                v = ATOMEVAL[kind](*a)
        else:
            cl = poly.CONJ[lane]
            if cl < lane:
                v = witness(cl)
                v = v.conjugate() if isinstance(v, complex) else v
            else:
                h = hashlib.md5(("%s/%d" % (poly.NAMES[lane], SEED[0])).encode()).digest()
                x = int.from_bytes(h[:4], "little") / 2 ** 32 * 2 - 1
                y = int.from_bytes(h[4:8], "little") / 2 ** 32 * 2 - 1
                if INTWIT[0]:
                    v = (float(1 << (h[0] % 3)) if poly.POS[lane] else float(h[1] % 5 - 2)) if cl == lane else complex(h[1] % 5 - 2, h[2] % 5 - 2)
                elif cl == lane:
                    v = abs(x) + 0.3 if poly.POS[lane] else x
                else:
                    v = complex(x, y)
        WIT[lane] = v
    return v


ATOMEVAL = {}


class _Env:
    def __getitem__(self, lane):
        return witness(lane)


ENV = _Env()


def evalp(p):
    p = lift(p)
    if p.__class__ is not Poly:
        return float(p) if not isinstance(p, Top) else p
    return poly.evaluate(p, ENV)


def fcmp_concolic(o, d, a, b):
    """comparisons of data follow the witness; comparisons of fork variables fork"""
    if FORKVARS:
        vs = d.vars()
        if vs and all(poly.CONJ[l] in FORKVARS or l in FORKVARS for l in vs):
            return None
    v = evalp(d)
    v = v.real if isinstance(v, complex) else v
    r = (v == 0 if o == "eq" else v != 0 if o == "ne" else v < 0 if o == "lt" else v <= 0 if o == "le"
         else v > 0 if o == "gt" else v >= 0)
    PC.append((o, d, r))
    return r


def begin(nthreads=1, log=False, coop=False, top=False):
    """fresh memory image, variables and runtime"""
    MACH.reset()
    poly.reset()
    fp.zreset()
    WIT.clear()
    INTWIT[0] = False
    PC.clear()
    FORKVARS.clear()
    poly.DIVHOOK[0] = None
    fp.FCMPHOOK[0] = fcmp_concolic
    fp.TOPPOLICY[0] = lambda op: False
    blas.TOPMODE[0] = top
    qrstub.LARFG[0] = None
    blas.NORM[0] = None
    mem.JUNK[0] = (lambda o, off: TOP) if top else None
    mem.STR.clear()
    blas.SYMLD[0] = False
    mem.CUR[0] = None
    RT.reset(nthreads=nthreads, log=log, coop=coop, call=MACH.call_addr)
    mem.CUR[0] = None if not log else mem.CUR[0]


def call(name, *args):
    return MACH.fn(name)(*args)


class nolog:
    def __enter__(self):
        self.s = mem.CUR[0]
        mem.CUR[0] = None

    def __exit__(self, *a):
        mem.CUR[0] = self.s


def enum_consts():
    """values of the Plasma* enumerators in the current tree (parsed by the C preprocessor/compiler)"""
    global _EN
    try:
        return _EN
    except NameError:
        pass
    import re as _re, subprocess
    hdr = os.path.join(BDIR, "src", "include", "plasma_types.h")
    txt = open(hdr).read() + open(os.path.join(BDIR, "src", "include", "plasma_error.h")).read()
    names = sorted(set(_re.findall(r"\bPlasma[A-Z][A-Za-z0-9]*\b", txt)))
    tree = os.path.join(BDIR, "src", "include", "plasma_tree.h")
    inc = ""
    if os.path.exists(tree):
        txt += open(tree).read()
        inc = '#include "plasma_internal.h"\n#include "plasma_tree.h"\n'
    prog = '#include "plasma.h"\n' + inc + '#include "plasma_types.h"\n#include "plasma_error.h"\n#include <stdio.h>\n#include <stddef.h>\nint main(){\n'
    enums = []
    for body in _re.findall(r"enum\s*\w*\s*\{(.*?)\}", txt, _re.S):
        body = _re.sub(r"//[^\n]*|/\*.*?\*/", "", body, flags=_re.S)
        for it in body.split(","):
            it = it.strip().split("=")[0].strip()
            if _re.match(r"^Plasma\w+$", it):
                enums.append(it)
    for n in names:
        if n in enums or _re.search(r"#define\s+%s\b" % n, txt):
            enums.append(n) if n not in enums else None
    for n in enums:
        prog += 'printf("%s %%d\\n", (int)%s);\n' % (n, n)
    dh = open(os.path.join(BDIR, "src", "include", "plasma_descriptor.h")).read()
    dm = _re.search(r"typedef\s+struct\s*\w*\s*\{([^}]*)\}\s*plasma_desc_t", dh)
    for f in _re.findall(r"\b(\w+)\s*[;,]", _re.sub(r"//.*|/\*.*?\*/", "", dm.group(1))) if dm else []:
        prog += 'printf("off_%s %%d\\n", (int)offsetof(plasma_desc_t, %s));\n' % (f, f)
    prog += 'printf("sizeof_desc %d\\n", (int)sizeof(plasma_desc_t));\n'
    prog += "return 0;}\n"
    import tempfile
    with tempfile.TemporaryDirectory() as td:
        c = os.path.join(td, "e.c")
        open(c, "w").write(prog)
        r = subprocess.run(["gcc", "-w", *[f for f in build.NATFLAGS if f[:2] in ("-D", "-I")], "-I" + os.path.join(BDIR, "src", "include"),
                            c, "-o", os.path.join(td, "e")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise build.BuildError(r.stdout.decode()[:2000])
        out = subprocess.run([os.path.join(td, "e")], stdout=subprocess.PIPE).stdout.decode()
    _EN = {l.split()[0]: int(l.split()[1]) for l in out.splitlines()}
    return _EN


class Arr:
    """a caller-owned 2-D array of one precision with symbolic contents"""

    def __init__(self, name, prec, rows, cols, ld, fill=None, top=False, kind="user"):
        self.P = blas.PRS[prec]
        self.name, self.m, self.n, self.ld = name, rows, cols, ld
        self.o = mem.alloc(ld * cols * self.P.sz, kind, name)
        self.p = self.o.addr
        self.init = {}
        with nolog():
            for j in range(cols):
                for i in range(ld):
                    if top:
                        v = TOP
                    elif fill is not None and fill(i, j) is not None:
                        v = fill(i, j)
                    else:
                        v = self.var(i, j)
                    self.init[i, j] = v
                    self.P.put(self.p + (i + j * ld) * self.P.sz, v)
        self.snap = dict(self.o.c)

    def var(self, i, j):
        n = "%s%d_%d" % (self.name, i, j) if i < self.m else "%s!pad%d_%d" % (self.name, i, j)
        return poly.cplx(n) if self.P.cx else poly.real(n)

    def get(self, i, j):
        with nolog():
            return self.P.get(self.p + (i + j * self.ld) * self.P.sz)

    def set(self, i, j, v):
        with nolog():
            self.P.put(self.p + (i + j * self.ld) * self.P.sz, v)
            self.init[i, j] = v
            self.snap = dict(self.o.c)

    def __getitem__(self, ij):
        return self.get(*ij)

    def changed(self):
        """(i,j) whose stored value differs from the initial one (structurally)"""
        out = []
        if self.o.c == self.snap and all(self.o.c[k] is self.snap[k] for k in self.snap):
            return out
        for (i, j), v in self.init.items():
            w = self.get(i, j)
            if not same(v, w):
                out.append((i, j))
        return out


def same(a, b):
    if a is b:
        return True
    a, b = lift(a), lift(b)
    if isinstance(a, Top) or isinstance(b, Top):
        return a is b
    if a.__class__ is Poly or b.__class__ is Poly:
        return a.__class__ is Poly and b.__class__ is Poly and a == b
    return a == b


def setup_plasma(nb=2, ib=1, mtpf=1, tree=False):
    E = enum_consts()
    with nolog():
        r = call("plasma_init")
        if r != 0:
            raise EngineError("plasma_init returned %r" % (r,))
        call("plasma_set", E["PlasmaTuning"], E["PlasmaDisabled"])
        call("plasma_set", E["PlasmaNb"], nb)
        call("plasma_set", E["PlasmaIb"], ib)
        call("plasma_set", E["PlasmaNumPanelThreads"], mtpf)
        call("plasma_set", E["PlasmaHouseholderMode"], E["PlasmaTreeHouseholder" if tree else "PlasmaFlatHouseholder"])
    RT.mallocs = []
    RT.malloc_count = 0
