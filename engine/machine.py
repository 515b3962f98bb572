"""Symbolic executor: translates LLVM IR functions (parsed from the bitcode of the current tree) to
Python on demand and runs them over symbolic values."""
import math
import z3
from fractions import Fraction as Q
import llvmc as L
import mem
import poly
import sym
from sym import (mkint, Violation, EngineError, Undef, SymInt, SymBool, STAT, select, trunc, zext, sext, lshr, udiv, urem,
                 sdiv, srem, ucmp, wrap, bnot)
from fp import fcmp
from mem import load, store
from poly import div, TOP, Top

FUNC_BASE = 1 << 20      # function "addresses": (FUNC_BASE + k) << 4, below any object

EXTERN = {}              # name -> python callable(args...)


def extern(*names):
    def deco(f):
        for n in names:
            EXTERN[n] = f
        return f
    return deco


class Module:
    def __init__(self, path):
        self.m = L.load(path)
        self.td = L.GetModuleDataLayout(self.m)
        self.path = path
        self.funcs = {}
        self.globals = {}
        f = L.FirstFunction(self.m)
        while f:
            self.funcs[L.name(f)] = f
            f = L.NextFunction(f)
        g = L.FirstGlobal(self.m)
        while g:
            self.globals[L.name(g)] = g
            g = L.NextGlobal(g)


def fconv(x):
    if math.isinf(x) or math.isnan(x):
        return x
    return poly.const(x)


class Machine:
    def __init__(self, paths):
        self.mods = [Module(p) for p in paths]
        self.defs = {}          # external name -> (module, function)
        self.alldefs = {}       # any name, static functions included
        for m in self.mods:
            for n, f in m.funcs.items():
                if not L.IsDeclaration(f) and L.GetLinkage(f) not in (8, 9):
                    self.defs.setdefault(n, (m, f))
                if not L.IsDeclaration(f):
                    self.alldefs.setdefault(n, (m, f))
        self.gdefs = {}
        for m in self.mods:
            for n, g in m.globals.items():
                if L.GetInit(g) and L.GetLinkage(g) not in (8, 9):
                    self.gdefs.setdefault(n, (m, g))
        self.cache = {}         # function ptr -> python callable
        self.faddr = {}         # function ptr or extern name -> address
        self.fby = {}           # address -> callable thunk
        self.fname = {}
        self.gaddr = {}
        self.encoded = set()    # names of translated functions executed
        self.override = {}      # name -> python callable replacing a defined function
        self.reset()

    # ---- memory image -------------------------------------------------------------------
    def reset(self):
        mem.OBJS.clear()
        mem.NEXT[0] = 16
        mem.CUR[0] = None
        self.gaddr.clear()
        self.stack = []

    def global_addr(self, mod, g):
        k = g
        a = self.gaddr.get(k)
        if a is not None:
            return a
        n = L.name(g)
        if not L.GetInit(g):
            if n in self.gdefs:
                m2, g2 = self.gdefs[n]
                a = self.global_addr(m2, g2)
            else:
                o = mem.alloc(4096, "extern", n)
                a = o.addr
            self.gaddr[k] = a
            return a
        if L.GetLinkage(g) not in (8, 9) and self.gdefs.get(n, (mod, g))[1] != g:
            m2, g2 = self.gdefs[n]
            a = self.global_addr(m2, g2)
            self.gaddr[k] = a
            return a
        t = L.GlobalValueType(g)
        o = mem.alloc(L.SizeOf(mod.td, t), "global", n)
        a = o.addr
        self.gaddr[k] = a
        cur, mem.CUR[0] = mem.CUR[0], None
        self.init_const(mod, o, 0, L.GetInit(g), t)
        mem.CUR[0] = cur
        return a

    def init_const(self, mod, o, off, v, t):
        kind = L.TK[L.TypeKind(t)]
        if L.ValueKind(v) in (9, 10) or False:   # undef / poison handled below
            pass
        if kind == "int":
            w = L.IntWidth(t)
            x = self.const(mod, v)
            if x.__class__ is not Undef:
                mem._put(o, off, max(1, (w + 7) // 8), int(x) if x.__class__ is bool else x)
        elif kind in ("double", "float"):
            mem._put(o, off, 8 if kind == "double" else 4, self.const(mod, v))
        elif kind == "ptr":
            mem._put(o, off, 8, self.const(mod, v))
        elif kind == "array" or kind == "vector":
            n = L.ArrLen(t) if kind == "array" else L.VecSize(t)
            et = L.ElemType(t)
            es = L.SizeOf(mod.td, et)
            if L.IsNull(v):
                if n * es:
                    mem.memset(o.addr + off, 0, n * es)
                return
            if L.IsConstString(v):
                s = L.as_string(v)
                for i in range(n):
                    b = s[i]
                    mem._put(o, off + i, 1, b - 256 if b > 127 else b)
                return
            for i in range(n):
                e = L.AggElem(v, i)
                if e:
                    self.init_const(mod, o, off + i * es, e, et)
        elif kind == "struct":
            if L.IsNull(v):
                n = L.SizeOf(mod.td, t)
                if n:
                    mem.memset(o.addr + off, 0, n)
                return
            for i in range(L.NumStruct(t)):
                e = L.AggElem(v, i)
                if e:
                    self.init_const(mod, o, off + L.OffsetOf(mod.td, t, i), e, L.StructElem(t, i))
        else:
            raise EngineError("initialiser of kind " + kind)

    # value kinds (LLVM 18 LLVMValueKind): Argument 0, BasicBlock 1, ..., Function 5, GlobalAlias 6, GlobalIFunc 7,
    # GlobalVariable 8, BlockAddress 9, ConstantExpr 10, ConstantArray 11, ConstantStruct 12, ConstantVector 13,
    # Undef 14, AggregateZero 15, DataArray 16, DataVector 17, Int 18, FP 19, PointerNull 20, TokenNone 21,
    # MetadataAsValue 22, InlineAsm 23, Instruction 24, Poison 25
    def const(self, mod, v):
        k = L.ValueKind(v)
        if k == 18:
            t = L.TypeOf(v)
            if L.IntWidth(t) == 1:
                return bool(L.SExt(v))
            if L.IntWidth(t) > 64:
                s = L.show(v).split()[-1]
                return int(s)
            return L.SExt(v)
        if k == 19:
            import ctypes
            lo = ctypes.c_int()
            return fconv(L.RealDouble(v, lo))
        if k == 20:
            return 0
        if k == 8:
            return self.global_addr(mod, v)
        if k == 5:
            return self.func_addr(mod, v)
        if k in (14, 25):
            t = L.TypeOf(v)
            tk = L.TK[L.TypeKind(t)]
            if tk in ("double", "float"):
                return 0
            if tk == "struct":
                return tuple(self.undef_of(L.StructElem(t, i)) for i in range(L.NumStruct(t)))
            if tk == "vector":
                return tuple(self.undef_of(L.ElemType(t)) for i in range(L.VecSize(t)))
            if tk == "array":
                return tuple(self.undef_of(L.ElemType(t)) for i in range(L.ArrLen(t)))
            return Undef("undef")
        if k == 10:
            op = L.OP[L.ConstOpcode(v)]
            if op == "gep":
                p = self.const(mod, L.GetOperand(v, 0))
                return p + self.const_gep(mod, v)
            if op in ("ptrtoint", "inttoptr", "bitcast", "addrspacecast"):
                return self.const(mod, L.GetOperand(v, 0))
            if op == "sub":
                return self.const(mod, L.GetOperand(v, 0)) - self.const(mod, L.GetOperand(v, 1))
            if op == "add":
                return self.const(mod, L.GetOperand(v, 0)) + self.const(mod, L.GetOperand(v, 1))
            if op == "trunc":
                return wrap(self.const(mod, L.GetOperand(v, 0)), L.IntWidth(L.TypeOf(v)))
            raise EngineError("constant expression " + L.show(v))
        t = L.TypeOf(v)
        tk = L.TK[L.TypeKind(t)]
        if tk in ("vector", "array", "struct"):
            n = L.VecSize(t) if tk == "vector" else L.ArrLen(t) if tk == "array" else L.NumStruct(t)
            return tuple(self.const(mod, L.AggElem(v, i)) for i in range(n))
        if k == 6:
            return self.const(mod, L.AliaseeOf(v))
        raise EngineError("constant kind %d: %s" % (k, L.show(v)[:200]))

    def undef_of(self, t):
        return 0 if L.TK[L.TypeKind(t)] in ("double", "float") else Undef("undef")

    def const_gep(self, mod, v):
        ty = L.GEPType(v)
        off = 0
        n = L.NumOperands(v)
        for i in range(1, n):
            idx = self.const(mod, L.GetOperand(v, i))
            if i == 1:
                off += idx * L.SizeOf(mod.td, ty)
            else:
                kind = L.TK[L.TypeKind(ty)]
                if kind == "struct":
                    off += L.OffsetOf(mod.td, ty, idx)
                    ty = L.StructElem(ty, idx)
                else:
                    ty = L.ElemType(ty)
                    off += idx * L.SizeOf(mod.td, ty)
        return off

    # ---- functions ----------------------------------------------------------------------
    def func_addr(self, mod, f):
        n = L.name(f)
        key = n if (L.IsDeclaration(f) or L.GetLinkage(f) not in (8, 9)) else f
        a = self.faddr.get(key)
        if a is None:
            a = (FUNC_BASE + len(self.faddr)) << 4
            self.faddr[key] = a
            self.fby[a] = self.resolve(mod, f)
            self.fname[a] = n
        return a

    def addr_of_name(self, n):
        m, f = self.defs[n]
        return self.func_addr(m, f)

    def resolve(self, mod, f):
        """python callable for an LLVM function (translated lazily)"""
        n = L.name(f)
        key = n if (L.IsDeclaration(f) or L.GetLinkage(f) not in (8, 9)) else f
        c = self.cache.get(key)
        if c is not None:
            return c
        if n in self.override:
            def thunk(*a, _n=n):
                return self.override[_n](*a)
            self.cache[key] = thunk
            return thunk
        if L.IsDeclaration(f):
            if n in self.defs:
                return self.resolve(*self.defs[n])
            if n in EXTERN:
                self.cache[key] = EXTERN[n]
                return EXTERN[n]
            ex = intrinsic(n)
            if ex is not None:
                self.cache[key] = ex
                return ex

            def missing(*a, _n=n):
                if _n in EXTERN:
                    return EXTERN[_n](*a)
                raise EngineError("call of unmodelled function " + _n)
            return missing
        box = []

        def lazy(*args, _mod=mod, _f=f, _n=n):
            if not box:
                box.append(self.translate(_mod, _f))
                self.encoded.add(_n)
            if _n in self.override:
                return self.override[_n](*args)
            return box[0](*args)
        self.cache[key] = lazy
        return lazy

    def fn(self, name):
        m, f = self.defs[name]
        return self.resolve(m, f)

    def fn_names(self):
        return list(self.defs)

    def internal(self, name):
        """a (possibly static, possibly duplicated) function by its source name"""
        r = self.defs.get(name)
        if r is None:
            for n in sorted(self.alldefs):
                if n == name or (n.startswith(name + ".") and n[len(name) + 1:].isdigit()):
                    r = self.alldefs[n]
                    break
        return self.resolve(*r) if r else None

    def has(self, name):
        return name in self.defs

    def call_addr(self, a, *args):
        if a.__class__ is not int:
            a = int(a)
        f = self.fby.get(a)
        if f is None:
            raise Violation("wild", "call through pointer 0x%x" % a)
        return f(*args)

    # ---- translation --------------------------------------------------------------------
    def translate(self, mod, f):
        src, env, name = Trans(self, mod, f).run()
        code = compile(src, "<ir:%s>" % name, "exec")
        exec(code, env)
        return env["F"]


INTRIN = {}


def intrinsic(n):
    if n.startswith("llvm."):
        base = n[5:]
        for k in sorted(INTRIN, key=len, reverse=True):
            if base == k or base.startswith(k + "."):
                return INTRIN[k](n)
    return None


def _I(name):
    def deco(f):
        INTRIN[name] = f
        return f
    return deco


def _w(n):
    return int(n.rsplit(".i", 1)[1]) if ".i" in n else 64


for _nm in ("lifetime.start", "lifetime.end", "experimental.noalias.scope.decl", "assume", "dbg.value", "dbg.declare",
            "va_end", "prefetch", "invariant.start", "invariant.end", "donothing", "var.annotation"):
    INTRIN[_nm] = lambda n: (lambda *a: None)
INTRIN["expect"] = lambda n: (lambda a, b: a)
INTRIN["expect.with.probability"] = lambda n: (lambda a, b, c: a)
INTRIN["is.constant"] = lambda n: (lambda a: False)
INTRIN["objectsize"] = lambda n: (lambda *a: -1)
INTRIN["trap"] = lambda n: _trap
INTRIN["debugtrap"] = lambda n: _trap
INTRIN["memcpy"] = lambda n: (lambda d, s, k, v=0: mem.memcpy(d, s, k))
INTRIN["memmove"] = INTRIN["memcpy"]
INTRIN["memcpy.inline"] = INTRIN["memcpy"]
INTRIN["memset"] = lambda n: (lambda d, b, k, v=0: mem.memset(d, b, k))
INTRIN["smax"] = lambda n: (lambda a, b: select(a > b, a, b))
INTRIN["smin"] = lambda n: (lambda a, b: select(a < b, a, b))
INTRIN["umax"] = lambda n: (lambda a, b, w=_w(n): select(ucmp("ugt", a, b, w), a, b))
INTRIN["umin"] = lambda n: (lambda a, b, w=_w(n): select(ucmp("ult", a, b, w), a, b))
INTRIN["abs"] = lambda n: (lambda a, p: select(a < 0, -a, a))
INTRIN["fabs"] = lambda n: (lambda a: poly.fabs_(a))
INTRIN["sqrt"] = lambda n: (lambda a: poly.sqrt_(a))
INTRIN["fmuladd"] = lambda n: (lambda a, b, c: a * b + c)
INTRIN["fma"] = INTRIN["fmuladd"]
INTRIN["ceil"] = lambda n: (lambda a: _round(a, "ceil"))
INTRIN["floor"] = lambda n: (lambda a: _round(a, "floor"))
INTRIN["maxnum"] = lambda n: (lambda a, b: fmax_(a, b))
INTRIN["minnum"] = lambda n: (lambda a, b: -fmax_(-a, -b))
INTRIN["copysign"] = lambda n: _copysign
INTRIN["log10"] = lambda n: (lambda a: _flog(a, 10))
INTRIN["log2"] = lambda n: (lambda a: _flog(a, 2))
INTRIN["log"] = lambda n: (lambda a: _flog(a, math.e))
INTRIN["pow"] = lambda n: _pow
INTRIN["powi"] = lambda n: _pow
INTRIN["stacksave"] = lambda n: (lambda: 0)
INTRIN["stackrestore"] = lambda n: (lambda p: None)


def _trap(*a):
    raise Violation("trap", "the code traps (unreachable or failed builtin)")


def _chk(fn, n, w):
    pass


def _sadd(n):
    w = _w(n)
    return lambda a, b: ((lambda r: (wrap(r, w), not (-(1 << (w - 1)) <= r < (1 << (w - 1)))))(a + b)
                         if a.__class__ is int and b.__class__ is int else _nosym())


def _nosym():
    raise EngineError("symbolic overflow intrinsic")


INTRIN["sadd.with.overflow"] = _sadd
INTRIN["smul.with.overflow"] = lambda n: (lambda a, b, w=_w(n): (wrap(a * b, w), not -(1 << (w - 1)) <= a * b < (1 << (w - 1))))
INTRIN["umul.with.overflow"] = lambda n: (lambda a, b, w=_w(n): (wrap(a * b, w), (a & ((1 << w) - 1)) * (b & ((1 << w) - 1)) >= 1 << w))
INTRIN["usub.sat"] = lambda n: (lambda a, b, w=_w(n): select(ucmp("ugt", a, b, w), a - b, 0))
INTRIN["ctlz"] = lambda n: (lambda a, z, w=_w(n): w - (a & ((1 << w) - 1)).bit_length())
INTRIN["cttz"] = lambda n: (lambda a, z, w=_w(n): w if a == 0 else (a & -a).bit_length() - 1)
INTRIN["ctpop"] = lambda n: (lambda a, w=_w(n): bin(a & ((1 << w) - 1)).count("1"))


def _fsh(n, left):
    w = _w(n)
    m = (1 << w) - 1

    def f(a, b, c):
        if c.__class__ is SymInt:
            c = int(c)
        c = (c & m) % w
        if not left:
            c = w - c
        if a.__class__ is int and b.__class__ is int:
            return wrap(((a & m) << w | (b & m)) << c >> w, w)
        s = a if a.__class__ is SymInt else b
        e = z3.Concat(s._o(a), s._o(b))
        return mkint(w, z3.Extract(2 * w - 1 - c, w - c, e)) if c < w else mkint(w, s._o(b))
    return f


INTRIN["fshl"] = lambda n: _fsh(n, True)
INTRIN["fshr"] = lambda n: _fsh(n, False)


def va_start(ap, va):
    """System V va_list with every argument in the overflow area (integers and pointers)"""
    o = mem.alloc(8 * max(1, len(va)), "stack", "varargs")
    for k, v in enumerate(va):
        if v.__class__ not in (int, SymInt, bool):
            raise EngineError("variable argument of type %s" % v.__class__.__name__)
        mem.store(o.addr + 8 * k, 4 if v.__class__ is SymInt and v.w == 32 else 8, v)
    mem.store(ap, 4, 48)
    mem.store(ap + 4, 4, 304)
    mem.store(ap + 8, 8, o.addr)
    mem.store(ap + 16, 8, 0)


def fptrunc(a):
    f = getattr(a, "to32", None)
    return a if f is None else f()


def fpext(a):
    f = getattr(a, "to64", None)
    return a if f is None else f()


def fmax_(a, b):
    c = fcmp("olt", a, b)
    return b if c else a


def _copysign(a, b):
    b = poly.lift(b)
    a = poly.fabs_(a)
    if isinstance(b, Top):
        return poly.top2(a, b)
    neg = fcmp("olt", b, 0)
    return -a if neg else a


def _round(a, how):
    a = poly.lift(a)
    if isinstance(a, Top):
        return a
    if a.__class__ in (int, Q):
        return math.ceil(a) if how == "ceil" else math.floor(a)
    if a.__class__ is float:
        return a
    raise EngineError("%s of a symbolic value" % how)


def _flog(a, base):
    a = poly.lift(a)
    if isinstance(a, Top):
        return a
    if a.__class__ in (int, Q):
        if a <= 0:
            return float("-inf")
        return fconv(math.log(a, base) if base not in (2, 10) else (math.log2(a) if base == 2 else math.log10(a)))
    raise EngineError("log of a symbolic value")


def _pow(a, b):
    a = poly.lift(a)
    b = poly.lift(b)
    if b.__class__ is int and not isinstance(a, Top):
        r = 1
        for _ in range(abs(b)):
            r = r * a
        return div(1, r) if b < 0 else r
    if a.__class__ in (int, Q) and b.__class__ in (int, Q):
        return fconv(float(a) ** float(b))
    raise EngineError("pow of symbolic values")


# ---- floating point <-> integer -------------------------------------------------------------
def fptoi(v, w):
    v = poly.lift(v)
    if v.__class__ is int:
        return v
    if v.__class__ is Q:
        return int(v)
    if isinstance(v, Top):
        return Undef("integer from data")
    raise EngineError("symbolic float converted to integer")


def itofp(v):
    if v.__class__ is int:
        return v
    if v.__class__ is bool:
        return int(v)
    if v.__class__ is Undef:
        raise Violation("uninit", "float from an uninitialised integer")
    if v.__class__ is SymInt:
        return int(v)
    return v


def bitcast(v, fk, tk):
    """same-size reinterpretation; floats stay opaque"""
    if fk == tk:
        return v
    if tk in ("double", "float") and v.__class__ is int:
        if v == 0:
            return 0
        import struct
        if tk == "double":
            return fconv(struct.unpack("<d", struct.pack("<q", v))[0])
        return fconv(struct.unpack("<f", struct.pack("<i", v))[0])
    if fk in ("double", "float") and tk == "int" and v.__class__ in (int, Q):
        import struct
        if fk == "double":
            return struct.unpack("<q", struct.pack("<d", float(v)))[0]
        return struct.unpack("<i", struct.pack("<f", float(v)))[0]
    return v


DEADLINE = [None]


def tick():
    STAT["blocks"] += 1


class LoopLimit(Violation):
    pass


class Trans:
    def __init__(self, mach, mod, f):
        self.M = mach
        self.mod = mod
        self.f = f
        self.env = {"LD": load, "ST": store, "DIV": div, "fcmp": fcmp, "fptrunc": fptrunc, "fpext": fpext, "select": select, "trunc": trunc, "zext": zext,
                    "sext": sext, "lshr": lshr, "udiv": udiv, "urem": urem, "sdiv": sdiv, "srem": srem, "ucmp": ucmp,
                    "wrap": wrap, "Violation": Violation, "alloca": self.alloca, "OBJS": mem.OBJS, "STAT": STAT,
                    "CALLA": mach.call_addr, "fptoi": fptoi, "itofp": itofp, "bitcast": bitcast, "SymInt": SymInt,
                    "bnot": bnot, "BYVAL": byval, "UNR": _unreach, "frem": _frem, "vec": vecop, "memvec": memvec,
                    "STV": stvec, "RMW": rmw, "CAS": cmpxchg, "drop": drop, "VY": vyield, "VS": vstore}
        self.names = {}
        self.lines = []

    @staticmethod
    def alloca(size, name):
        return mem.alloc(size, "stack", name)

    def val(self, v):
        n = self.names.get(v)
        if n is not None:
            return n
        k = L.ValueKind(v)
        if k in (24, 0):
            raise EngineError("use before definition")
        if k == 8:
            nm = "g%d" % len(self.env)
            a = self.M.global_addr        # resolved at run time: memory image is reset between runs
            self.env[nm] = (lambda m=self.mod, g=v: a(m, g))
            return nm + "()"
        if k in (18, 19, 20):
            c = self.M.const(self.mod, v)
            if c.__class__ is int:
                return "(%d)" % c if c < 0 else "%d" % c
            if c.__class__ is bool:
                return str(c)
            nm = "k%d" % len(self.env)
            self.env[nm] = c
            return nm
        if k == 5:
            return str(self.M.func_addr(self.mod, v))
        if k in (10, 11, 12, 13, 15, 16, 17, 6):
            nm = "c%d" % len(self.env)
            self.env[nm] = (lambda m=self.mod, c=v: self.M.const(m, c))
            return nm + "()"
        if k in (14, 25):
            nm = "u%d" % len(self.env)
            self.env[nm] = self.M.const(self.mod, v)
            return nm
        if k == 22:
            return "None"
        raise EngineError("operand kind %d" % k)

    def kind(self, t):
        return L.TK[L.TypeKind(t)]

    def run(self):
        f = self.f
        fname = L.name(f)
        nparam = L.CountParams(f)
        args = []
        pro = []
        for i in range(nparam):
            p = L.GetParam(f, i)
            nm = "a%d" % i
            self.names[p] = nm
            args.append(nm)
            at = L.AttrAt(f, i + 1, L.BYVAL)
            if at:
                sz = L.SizeOf(self.mod.td, L.TypeAttrVal(at))
                pro.append("%s = BYVAL(%s, %d, FR)" % (nm, nm, sz))
        if L.IsVarArg(L.GlobalValueType(f)):
            args.append("*VA")
        self.frame = bool(pro)
        blocks = []
        b = L.FirstBB(f)
        while b:
            blocks.append(b)
            b = L.NextBB(b)
        self.bid = {b: i for i, b in enumerate(blocks)}
        # name all instructions first (phi forward references)
        insts = []
        cnt = 0
        for b in blocks:
            il = []
            i = L.FirstInst(b)
            while i:
                op = L.OP.get(L.Opcode(i))
                il.append((i, op))
                if self.kind(L.TypeOf(i)) != "void":
                    self.names[i] = "v%d" % cnt
                    cnt += 1
                if op == "alloca":
                    self.frame = True
                i = L.NextInst(i)
            insts.append(il)
        # phi incoming moves
        self.phis = {}
        for b, il in zip(blocks, insts):
            for i, op in il:
                if op != "phi":
                    break
                for k in range(L.CountIncoming(i)):
                    self.phis.setdefault((L.IncomingBlock(i, k), b), []).append((i, L.IncomingValue(i, k)))
        bodies = []
        for b, il in zip(blocks, insts):
            out = []
            self.cur = b
            for i, op in il:
                if op == "phi":
                    continue
                try:
                    self.inst(i, op, out)
                except EngineError as e:
                    # unsupported instruction: error only if executed
                    out.append("raise EngineError(%r)" % ("%s in %s" % (e, fname)))
                    self.env["EngineError"] = EngineError
            STATN = len(il)
            bodies.append((out, STATN))
        src = ["def F(%s):" % ", ".join(args)]
        ind = "    "
        if self.frame:
            src.append(ind + "FR = []")
            for p in pro:
                src.append(ind + p)
        if len(bodies) == 1:
            for l in bodies[0][0]:
                src.append(ind + l)
        else:
            src.append(ind + "b = 0")
            src.append(ind + "while 1:")
            src.append(ind * 2 + "STAT['blocks'] += 1")

            def tree(lo, hi, d):
                if hi - lo == 1:
                    for l in bodies[lo][0]:
                        src.append(ind * d + l)
                    return
                mid = (lo + hi) // 2
                src.append(ind * d + "if b < %d:" % mid)
                tree(lo, mid, d + 1)
                src.append(ind * d + "else:")
                tree(mid, hi, d + 1)
            tree(0, len(bodies), 2)
        return "\n".join(src) + "\n", self.env, fname

    def jump(self, to, out, ind=""):
        mv = self.phis.get((self.cur, to))
        if mv:
            # a block may appear several times as predecessor (switch): same values, keep one
            seen = {}
            for p, v in mv:
                seen[p] = v
            mv = [(self.names[p], self.val(v)) for p, v in seen.items()]
            mv = [(a, b) for a, b in mv if a != b]
            if mv:
                out.append(ind + "%s = %s" % (", ".join(a for a, _ in mv), ", ".join(b for _, b in mv)))
        out.append(ind + "b = %d" % self.bid[to])
        out.append(ind + "continue")

    def inst(self, i, op, out):
        td = self.mod.td
        t = L.TypeOf(i)
        tk = self.kind(t)
        nm = self.names.get(i)
        opd = lambda k: self.val(L.GetOperand(i, k))
        if op == "ret":
            v = opd(0) if L.NumOperands(i) else "None"
            if self.frame:
                out.append("drop(FR)")
            out.append("return " + v)
        elif op == "br":
            if L.IsConditional(i):
                out.append("if %s:" % self.val(L.GetCondition(i)))
                self.jump(L.GetSucc(i, 0), out, "    ")
                self.jump(L.GetSucc(i, 1), out)
            else:
                self.jump(L.GetSucc(i, 0), out)
        elif op == "switch":
            n = L.NumOperands(i)
            c = opd(0)
            for k in range(2, n, 2):
                out.append("if %s == %s:" % (c, opd(k)))
                self.jump(L.ValueAsBB(L.GetOperand(i, k + 1)), out, "    ")
            self.jump(L.ValueAsBB(L.GetOperand(i, 1)), out)
        elif op == "unreachable":
            out.append("UNR(%r)" % L.name(self.f))
        elif op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem",
                    "fadd", "fsub", "fmul", "fdiv", "frem", "fneg"):
            a = opd(0)
            b = opd(1) if op != "fneg" else None
            if tk == "vector":
                et = L.ElemType(t)
                w = L.IntWidth(et) if self.kind(et) == "int" else 0
                out.append("%s = vec(lambda x, y: %s, %s, %s)" % (nm, self.arith(op, "x", "y", w, False), a, b or a))
            else:
                w = L.IntWidth(t) if tk == "int" else 0
                nsw = op in ("add", "sub", "mul", "shl") and L.GetNSW(i)
                out.append("%s = %s" % (nm, self.arith(op, a, b, w, nsw)))
        elif op == "icmp":
            p = L.ICMP[L.ICmpPred(i)]
            ot = L.TypeOf(L.GetOperand(i, 0))
            ok = self.kind(ot)
            w = L.IntWidth(ot) if ok == "int" else 64
            a, b = opd(0), opd(1)
            if ok == "vector":
                et = L.ElemType(ot)
                w = L.IntWidth(et) if self.kind(et) == "int" else 64
                out.append("%s = vec(lambda x, y: %s, %s, %s)" % (nm, self.icmp(p, "x", "y", w), a, b))
            else:
                out.append("%s = %s" % (nm, self.icmp(p, a, b, w)))
        elif op == "fcmp":
            out.append("%s = fcmp(%r, %s, %s)" % (nm, L.FCMP[L.FCmpPred(i)], opd(0), opd(1)))
        elif op == "select":
            c, a, b = opd(0), opd(1), opd(2)
            ct = self.kind(L.TypeOf(L.GetOperand(i, 0)))
            if ct == "vector":
                out.append("%s = tuple(select(p, q, r) for p, q, r in zip(%s, %s, %s))" % (nm, c, a, b))
            else:
                out.append("%s = select(%s, %s, %s)" % (nm, c, a, b))
        elif op == "alloca":
            sz = L.SizeOf(td, L.AllocatedType(i))
            cnt = opd(0)
            out.append("_o = alloca(%d * %s, %r); FR.append(_o.id); %s = _o.addr" % (sz, cnt, L.name(i) or "tmp", nm))
        elif op == "load":
            p = opd(0)
            if L.IsVolatile(i) or L.GetOrdering(i):
                out.append("VY()")
            if tk == "int":
                w = L.IntWidth(t)
                if w == 1:
                    out.append("%s = LD(%s, 1, 'i')" % (nm, p))
                    out.append("if %s.__class__ is int: %s = bool(%s & 1)" % (nm, nm, nm))
                else:
                    out.append("%s = LD(%s, %d, 'i')" % (nm, p, w // 8))
            elif tk == "ptr":
                out.append("%s = LD(%s, 8, 'p')" % (nm, p))
            elif tk in ("double", "float"):
                out.append("%s = LD(%s, %d, 'f')" % (nm, p, 8 if tk == "double" else 4))
            elif tk in ("vector", "array"):
                et = L.ElemType(t)
                n = L.VecSize(t) if tk == "vector" else L.ArrLen(t)
                out.append("%s = memvec(%s, %d, %d, %r)" % (nm, p, n, L.SizeOf(td, et), self.lk(et)))
            elif tk == "struct":
                parts = []
                for k in range(L.NumStruct(t)):
                    et = L.StructElem(t, k)
                    parts.append("LD(_p + %d, %d, %r)" % (L.OffsetOf(td, t, k), L.SizeOf(td, et), self.lk(et)))
                out.append("_p = %s" % p)
                out.append("%s = (%s,)" % (nm, ", ".join(parts)))
            else:
                raise EngineError("load of " + tk)
        elif op == "store":
            v, p = opd(0), opd(1)
            if L.IsVolatile(i) or L.GetOrdering(i):
                out.append("VS()")
            vt = L.TypeOf(L.GetOperand(i, 0))
            vk = self.kind(vt)
            if vk == "int":
                w = L.IntWidth(vt)
                if w == 1:
                    out.append("ST(%s, 1, zext(%s, 1, 8))" % (p, v))
                else:
                    out.append("ST(%s, %d, %s)" % (p, w // 8, v))
            elif vk == "ptr":
                out.append("ST(%s, 8, %s)" % (p, v))
            elif vk in ("double", "float"):
                out.append("ST(%s, %d, %s)" % (p, 8 if vk == "double" else 4, v))
            elif vk in ("vector", "array"):
                out.append("STV(%s, %s, %d)" % (p, v, L.SizeOf(td, L.ElemType(vt))))
            elif vk == "struct":
                out.append("_p = %s; _v = %s" % (p, v))
                for k in range(L.NumStruct(vt)):
                    et = L.StructElem(vt, k)
                    out.append("ST(_p + %d, %d, _v[%d])" % (L.OffsetOf(td, vt, k), L.SizeOf(td, et), k))
            else:
                raise EngineError("store of " + vk)
        elif op == "gep":
            base = opd(0)
            ty = L.GEPType(i)
            terms = [base]
            const = 0
            for k in range(1, L.NumOperands(i)):
                o = L.GetOperand(i, k)
                isc = L.ValueKind(o) == 18
                if k > 1 and self.kind(ty) == "struct":
                    idx = L.SExt(o)
                    const += L.OffsetOf(td, ty, idx)
                    ty = L.StructElem(ty, idx)
                    continue
                if k > 1:
                    ty = L.ElemType(ty)
                es = L.SizeOf(td, ty)
                if isc:
                    const += L.SExt(o) * es
                else:
                    w = L.IntWidth(L.TypeOf(o))
                    v = self.val(o)
                    if w != 64:
                        v = "sext(%s, %d, 64)" % (v, w)
                    terms.append("%s * %d" % (v, es) if es != 1 else v)
            if const:
                terms.append(str(const))
            out.append("%s = %s" % (nm, " + ".join(terms)))
        elif op == "trunc":
            w0 = L.IntWidth(L.TypeOf(L.GetOperand(i, 0))) if self.kind(L.TypeOf(L.GetOperand(i, 0))) == "int" else 0
            if tk == "vector":
                raise EngineError("vector trunc")
            out.append("%s = trunc(%s, %d, %d)" % (nm, opd(0), w0, L.IntWidth(t)))
        elif op in ("zext", "sext"):
            if tk == "vector":
                w0 = L.IntWidth(L.ElemType(L.TypeOf(L.GetOperand(i, 0))))
                w = L.IntWidth(L.ElemType(t))
                out.append("%s = tuple(%s(x, %d, %d) for x in %s)" % (nm, op, w0, w, opd(0)))
            else:
                out.append("%s = %s(%s, %d, %d)" % (nm, op, opd(0), L.IntWidth(L.TypeOf(L.GetOperand(i, 0))), L.IntWidth(t)))
        elif op == "fptrunc":
            out.append("%s = fptrunc(%s)" % (nm, opd(0)))
        elif op == "fpext":
            out.append("%s = fpext(%s)" % (nm, opd(0)))
        elif op in ("fptosi", "fptoui"):
            out.append("%s = fptoi(%s, %d)" % (nm, opd(0), L.IntWidth(t)))
        elif op in ("sitofp", "uitofp"):
            ot = L.TypeOf(L.GetOperand(i, 0))
            if tk == "vector":
                out.append("%s = tuple(itofp(x) for x in %s)" % (nm, opd(0)))
            elif op == "uitofp":
                out.append("%s = itofp(zext(%s, %d, 128))" % (nm, opd(0), L.IntWidth(ot)))
            else:
                out.append("%s = itofp(%s)" % (nm, opd(0)))
        elif op in ("ptrtoint", "inttoptr", "addrspacecast", "freeze"):
            if op == "ptrtoint" and L.IntWidth(t) != 64:
                out.append("%s = trunc(%s, 64, %d)" % (nm, opd(0), L.IntWidth(t)))
            else:
                out.append("%s = %s" % (nm, opd(0)))
        elif op == "bitcast":
            out.append("%s = bitcast(%s, %r, %r)" % (nm, opd(0), self.kind(L.TypeOf(L.GetOperand(i, 0))), tk))
        elif op == "extractvalue":
            e = opd(0)
            ix = L.GetIndices(i)
            for k in range(L.NumIndices(i)):
                e += "[%d]" % ix[k]
            out.append("%s = %s" % (nm, e))
        elif op == "insertvalue":
            if L.NumIndices(i) != 1:
                raise EngineError("nested insertvalue")
            k = L.GetIndices(i)[0]
            out.append("_t = list(%s); _t[%d] = %s; %s = tuple(_t)" % (opd(0), k, opd(1), nm))
        elif op == "extractelement":
            out.append("%s = %s[%s]" % (nm, opd(0), opd(1)))
        elif op == "insertelement":
            out.append("_t = list(%s); _t[%s] = %s; %s = tuple(_t)" % (opd(0), opd(2), opd(1), nm))
        elif op == "shufflevector":
            n = L.NumMask(i)
            mask = [L.MaskValue(i, k) for k in range(n)]
            out.append("_t = %s + %s; %s = (%s,)" % (opd(0), opd(1), nm, ", ".join(
                "_t[%d]" % (k if k >= 0 else 0) for k in mask)))
        elif op == "call":
            self.call(i, nm, out)
        elif op == "fence":
            pass
        elif op == "atomicrmw":
            n = L.SizeOf(td, t)
            out.append("%s = RMW(%d, %s, %s, %d, %r)" % (nm, L.RMWOp(i), opd(0), opd(1), n, tk))
        elif op == "cmpxchg":
            vt = L.TypeOf(L.GetOperand(i, 1))
            out.append("%s = CAS(%s, %s, %s, %d, %r)" % (nm, opd(0), opd(1), opd(2), L.SizeOf(td, vt), self.kind(vt)))
        else:
            raise EngineError("instruction " + str(op))

    def lk(self, et):
        k = self.kind(et)
        return "f" if k in ("double", "float") else "p" if k == "ptr" else "i"

    def arith(self, op, a, b, w, nsw):
        if op == "fneg":
            return "-%s" % a
        if op in ("add", "sub", "mul"):
            s = {"add": "+", "sub": "-", "mul": "*"}[op]
            if w == 1:
                return "(%s ^ %s)" % (a, b) if op != "mul" else "(%s & %s)" % (a, b)
            if w >= 64 or nsw:
                # 64-bit: addresses and sizes; wrap only where it could matter (mul, negative pointer math is fine)
                return "%s %s %s" % (a, s, b) if nsw or op != "mul" else "wrap(%s %s %s, %d)" % (a, s, b, w)
            return "wrap(%s %s %s, %d)" % (a, s, b, w)
        if op in ("and", "or", "xor"):
            s = {"and": "&", "or": "|", "xor": "^"}[op]
            return "%s %s %s" % (a, s, b)
        if op == "shl":
            return "wrap(%s << %s, %d)" % (a, b, w)
        if op == "ashr":
            return "%s >> %s" % (a, b)
        if op in ("lshr", "udiv", "urem", "sdiv", "srem"):
            return "%s(%s, %s, %d)" % (op, a, b, w)
        if op in ("fadd", "fsub", "fmul"):
            return "%s %s %s" % (a, {"fadd": "+", "fsub": "-", "fmul": "*"}[op], b)
        if op == "fdiv":
            return "DIV(%s, %s)" % (a, b)
        if op == "frem":
            return "frem(%s, %s)" % (a, b)
        raise EngineError(op)

    def icmp(self, p, a, b, w):
        if p in ("eq", "ne"):
            return "%s %s %s" % (a, "==" if p == "eq" else "!=", b)
        if p[0] == "s":
            return "%s %s %s" % (a, {"sgt": ">", "sge": ">=", "slt": "<", "sle": "<="}[p], b)
        return "ucmp(%r, %s, %s, %d)" % (p, a, b, w)

    def call(self, i, nm, out):
        cv = L.CalledValue(i)
        n = L.NumArgs(i)
        args = [self.val(L.GetOperand(i, k)) for k in range(n)]
        k = L.ValueKind(cv)
        asg = (nm + " = ") if nm else ""
        if k == 5:
            name = L.name(cv)
            if name.startswith(("llvm.dbg", "llvm.lifetime", "llvm.experimental.noalias", "llvm.assume")):
                return
            if name == "llvm.va_start" or name.startswith("llvm.va_start."):
                self.env["VASTART"] = va_start
                out.append("VASTART(%s, VA)" % args[0])
                return
            fnm = "f_%d" % len(self.env)
            ref = self.env.get("@" + name)
            if ref is None:
                M, mod = self.M, self.mod
                cell = []

                def callee(*a, _cv=cv):
                    if not cell:
                        cell.append(M.resolve(mod, _cv))
                    return cell[0](*a)
                self.env[fnm] = callee
                self.env["@" + name] = fnm
            else:
                fnm = ref
            out.append("%s%s(%s)" % (asg, fnm, ", ".join(args)))
        elif k == 23:
            if nm:
                raise EngineError("inline asm with a result")
        else:
            out.append("%sCALLA(%s)" % (asg, ", ".join([self.val(cv)] + args)))


def _unreach(name):
    raise Violation("unreachable", "control reaches an undefined point in " + name)


def _frem(a, b):
    raise EngineError("frem")


def drop(fr):
    O = mem.OBJS
    for x in fr:
        del O[x]


def byval(p, n, fr):
    o = mem.alloc(n, "stack", "byval")
    fr.append(o.id)
    s = mem.CUR[0]
    mem.CUR[0] = None
    mem.memcpy(o.addr, p, n)
    mem.CUR[0] = s
    if s is not None:
        so = mem.OBJS[p >> mem.SH]
        off = (p & mem.MASK) - mem.BIAS
        for a in (so.c if so.es <= 0 else range(off, off + n, so.es)):
            if off <= a < off + n:
                s.rd.add(so.addr + a)
    return o.addr


def vecop(f, a, b):
    return tuple(f(x, y) for x, y in zip(a, b))


def memvec(p, n, es, k):
    return tuple(load(p + i * es, es, k) for i in range(n))


def stvec(p, v, es):
    for i, x in enumerate(v):
        store(p + i * es, es, x)


def _lkind(tk):
    return "f" if tk in ("double", "float") else "p" if tk == "ptr" else "i"


ATOMIC = [0]
SCHED = [None]      # coop.Sched when several threads are interleaved


def vyield():
    if SCHED[0] is not None:
        SCHED[0].pause()


def vstore():
    if SCHED[0] is not None:
        SCHED[0].progress()



def rmw(op, p, v, n, tk):
    ATOMIC[0] += 1
    if SCHED[0] is not None:
        SCHED[0].pause()
        SCHED[0].progress()
    s = mem.CUR[0]
    mem.CUR[0] = None
    try:
        old = load(p, n, _lkind(tk))
        w = 8 * n
        new = (v if op == 0 else wrap(old + v, w) if op == 1 else wrap(old - v, w) if op == 2 else old & v if op == 3
               else ~(old & v) if op == 4 else old | v if op == 5 else old ^ v if op == 6 else
               select(old > v, old, v) if op == 7 else select(old < v, old, v) if op == 8 else
               old + v if op == 11 else old - v if op == 12 else None)
        if new is None:
            raise EngineError("atomicrmw op %d" % op)
        store(p, n, new)
        return old
    finally:
        mem.CUR[0] = s


def cmpxchg(p, c, v, n, tk):
    if SCHED[0] is not None:
        SCHED[0].pause()
        SCHED[0].progress()
    s = mem.CUR[0]
    mem.CUR[0] = None
    try:
        old = load(p, n, _lkind(tk))
        ok = old == c
        if ok:
            store(p, n, v)
            return (old, True)
        return (old, False)
    finally:
        mem.CUR[0] = s
