"""Symbolic integers/booleans and the path explorer (re-execution with decision prefixes, z3)."""
import time
import z3

STAT = {"queries": 0, "solver_s": 0.0, "paths": 0, "blocks": 0, "instr": 0, "unknown": 0}


class Violation(Exception):
    """the code does something no execution may do (out-of-bounds access, branch on junk ...)"""

    def __init__(self, kind, msg, data=None):
        super().__init__(kind + ": " + msg)
        self.kind = kind
        self.msg = msg
        self.data = data


class Stop(Exception):
    """end of path requested by the harness"""

    def __init__(self, what="", val=None):
        super().__init__(what)
        self.what = what
        self.val = val


class Infeasible(Exception):
    pass


class EngineError(Exception):
    """something the executor cannot model"""


def check(solver, *assumptions):
    t = time.time()
    r = solver.check(*assumptions)
    STAT["queries"] += 1
    STAT["solver_s"] += time.time() - t
    if r == z3.unknown:
        STAT["unknown"] += 1
    return r


class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def z(self):
        return self.e

    def __bool__(self):
        return EXP[0].branch(self)

    def __and__(self, o):
        if o.__class__ is bool:
            return self if o else False
        if o.__class__ is int:
            return self if o & 1 else False
        return SymBool(z3.And(self.z(), o.z()))
    __rand__ = __and__

    def __or__(self, o):
        if o.__class__ is bool or o.__class__ is int:
            return True if o else self
        return SymBool(z3.Or(self.z(), o.z()))
    __ror__ = __or__

    def __xor__(self, o):
        if o.__class__ is bool or o.__class__ is int:
            return SymBool(z3.Not(self.z())) if o else self
        return SymBool(z3.Xor(self.z(), o.z()))
    __rxor__ = __xor__

    def __eq__(self, o):
        return bnot(self ^ o)

    def __ne__(self, o):
        return self ^ o
    __hash__ = None


def bnot(b):
    if b.__class__ is bool:
        return not b
    return SymBool(z3.Not(b.z()))


class SymInt:
    __slots__ = ("w", "e")

    def __init__(self, w, e):
        self.w = w
        self.e = e

    def _o(self, o):
        t = o.__class__
        if t is int or t is bool:
            return z3.BitVecVal(int(o), self.w)
        if t is SymInt:
            if o.w != self.w:
                raise EngineError("width mismatch %d %d" % (self.w, o.w))
            return o.e
        if t is SymBool:
            return z3.If(o.z(), z3.BitVecVal(1, self.w), z3.BitVecVal(0, self.w))
        if t is Undef:
            raise Violation("uninit", "arithmetic on an uninitialised integer")
        raise EngineError("SymInt op with %r" % (t,))

    def __add__(s, o): return mkint(s.w, s.e + s._o(o))
    __radd__ = __add__
    def __sub__(s, o): return mkint(s.w, s.e - s._o(o))
    def __rsub__(s, o): return mkint(s.w, s._o(o) - s.e)
    def __mul__(s, o): return mkint(s.w, s.e * s._o(o))
    __rmul__ = __mul__
    def __and__(s, o): return mkint(s.w, s.e & s._o(o))
    __rand__ = __and__
    def __or__(s, o): return mkint(s.w, s.e | s._o(o))
    __ror__ = __or__
    def __xor__(s, o): return mkint(s.w, s.e ^ s._o(o))
    __rxor__ = __xor__
    def __neg__(s): return mkint(s.w, -s.e)
    def __lshift__(s, o): return mkint(s.w, s.e << s._o(o))
    def __rlshift__(s, o): return mkint(s.w, s._o(o) << s.e)
    def __rshift__(s, o): return mkint(s.w, s.e >> s._o(o))
    def __rrshift__(s, o): return mkint(s.w, s._o(o) >> s.e)
    def __lt__(s, o): return mkbool(s.e < s._o(o))
    def __le__(s, o): return mkbool(s.e <= s._o(o))
    def __gt__(s, o): return mkbool(s.e > s._o(o))
    def __ge__(s, o): return mkbool(s.e >= s._o(o))
    def __eq__(s, o): return mkbool(s.e == s._o(o))
    def __ne__(s, o): return mkbool(s.e != s._o(o))
    __hash__ = None

    def __bool__(s):
        return bool(s != 0)

    def __index__(s):
        return EXP[0].concretize(s)
    __int__ = __index__

    def __repr__(s):
        return "Sym(%s)" % s.e


def mkint(w, e):
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_signed_long()
    return SymInt(w, e)


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


class Undef:
    """an uninitialised integer"""
    __slots__ = ("what",)

    def __init__(self, what=""):
        self.what = what

    def _u(self, *a):
        return self
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __and__ = __rand__ = __or__ = __ror__ = _u
    __xor__ = __rxor__ = __neg__ = __lshift__ = __rlshift__ = __rshift__ = __rrshift__ = _u
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = _u
    __hash__ = None

    def __bool__(self):
        raise Violation("uninit", "branch on an uninitialised value (%s)" % self.what)

    def __index__(self):
        raise Violation("uninit", "address or index from an uninitialised value (%s)" % self.what)
    __int__ = __index__


def sdiv(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        if b == 0:
            raise Violation("ub", "integer division by zero")
        q = abs(a) // abs(b)
        return q if (a < 0) == (b < 0) else -q
    if a.__class__ is Undef or b.__class__ is Undef:
        return Undef()
    s = a if a.__class__ is SymInt else b
    if b.__class__ is SymInt:
        if not bool(b != 0):
            raise Violation("ub", "integer division by zero")
    r = mkint(w, s._o(a) / s._o(b))
    if EXP[0].divconc and r.__class__ is SymInt:
        return EXP[0].concretize(r)
    return r


def srem(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        if b == 0:
            raise Violation("ub", "integer remainder by zero")
        r = abs(a) % abs(b)
        return -r if a < 0 else r
    if a.__class__ is Undef or b.__class__ is Undef:
        return Undef()
    s = a if a.__class__ is SymInt else b
    if b.__class__ is SymInt:
        if not bool(b != 0):
            raise Violation("ub", "integer remainder by zero")
    return mkint(w, z3.SRem(s._o(a), s._o(b)))


def udiv(a, b, w):
    m = (1 << w) - 1
    if a.__class__ is int and b.__class__ is int:
        if b == 0:
            raise Violation("ub", "integer division by zero")
        return wrap((a & m) // (b & m), w)
    s = a if a.__class__ is SymInt else b
    return mkint(w, z3.UDiv(s._o(a), s._o(b)))


def urem(a, b, w):
    m = (1 << w) - 1
    if a.__class__ is int and b.__class__ is int:
        if b == 0:
            raise Violation("ub", "integer remainder by zero")
        return wrap((a & m) % (b & m), w)
    s = a if a.__class__ is SymInt else b
    return mkint(w, z3.URem(s._o(a), s._o(b)))


def wrap(v, w):
    if v.__class__ is int:
        h = 1 << (w - 1)
        return ((v + h) & ((1 << w) - 1)) - h
    if v.__class__ is bool:
        return int(v)
    return v


def lshr(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return wrap((a & ((1 << w) - 1)) >> b, w)
    if a.__class__ is Undef or b.__class__ is Undef:
        return Undef()
    if a.__class__ is int or a.__class__ is SymInt:
        s = a if a.__class__ is SymInt else b
        return mkint(w, z3.LShR(s._o(a), s._o(b)))
    # packed pair of floats/ints read as one wide integer
    if hasattr(a, "lshr"):
        return a.lshr(b)
    raise EngineError("lshr of %r" % (a,))


def ucmp(op, a, b, w):
    if a.__class__ is int and b.__class__ is int:
        m = (1 << w) - 1
        a &= m
        b &= m
        return a < b if op == "ult" else a <= b if op == "ule" else a > b if op == "ugt" else a >= b
    if a.__class__ is Undef or b.__class__ is Undef:
        return Undef()
    if a.__class__ is bool or b.__class__ is bool:
        return ucmp(op, int(a), int(b), w)
    s = a if a.__class__ is SymInt else b
    a, b = s._o(a), s._o(b)
    return mkbool(z3.ULT(a, b) if op == "ult" else z3.ULE(a, b) if op == "ule" else
                  z3.UGT(a, b) if op == "ugt" else z3.UGE(a, b))


def trunc(v, w0, w):
    if v.__class__ is int:
        if w == 1:
            return bool(v & 1)
        h = 1 << (w - 1)
        return ((v + h) & ((1 << w) - 1)) - h
    if v.__class__ is SymInt:
        if w == 1:
            return mkbool(z3.Extract(0, 0, v.e) == 1)
        return mkint(w, z3.Extract(w - 1, 0, v.e))
    if hasattr(v, "trunc"):
        return v.trunc(w)
    if v.__class__ is Undef:
        return v
    raise EngineError("trunc of %r" % (v,))


def zext(v, w0, w):
    if v.__class__ is int:
        return v & ((1 << w0) - 1)
    if v.__class__ is bool:
        return 1 if v else 0
    if v.__class__ is SymInt:
        return mkint(w, z3.ZeroExt(w - w0, v.e))
    if isinstance(v, SymBool):
        return SymInt(w, z3.If(v.z(), z3.BitVecVal(1, w), z3.BitVecVal(0, w)))
    if v.__class__ is Undef:
        return v
    return v    # opaque float bits


def sext(v, w0, w):
    if v.__class__ is int:
        return v
    if v.__class__ is bool:
        return -1 if v else 0
    if v.__class__ is SymInt:
        return mkint(w, z3.SignExt(w - w0, v.e))
    if isinstance(v, SymBool):
        return SymInt(w, z3.If(v.z(), z3.BitVecVal(-1, w), z3.BitVecVal(0, w)))
    if v.__class__ is Undef:
        return v
    raise EngineError("sext of %r" % (v,))


def select(c, a, b):
    if c.__class__ is bool:
        return a if c else b
    if isinstance(c, SymBool):
        if a is b:
            return a
        ta, tb = a.__class__, b.__class__
        if (ta is SymInt and tb in (int, SymInt)) or (tb is SymInt and ta is int):
            s = a if ta is SymInt else b
            return mkint(s.w, z3.If(c.z(), s._o(a), s._o(b)))
        if (ta is bool or isinstance(a, SymBool)) and (tb is bool or isinstance(b, SymBool)):
            za = a.z() if isinstance(a, SymBool) else z3.BoolVal(a)
            zb = b.z() if isinstance(b, SymBool) else z3.BoolVal(b)
            return mkbool(z3.If(c.z(), za, zb))
        return a if bool(c) else b
    if c.__class__ is int:
        return a if c & 1 else b
    return a if c else b


class Explorer:
    """depth-first exploration of all feasible paths of run() by re-execution"""
    divconc = False     # fork on the value of every symbolic quotient

    def __init__(self, max_paths=10 ** 9, deadline=None, fp_policy=None, tactic=None, timeout_ms=20000):
        self.max_paths = max_paths
        self.deadline = deadline
        self.fp_policy = fp_policy
        self.timeout_ms = timeout_ms
        self.complete = False
        self.npaths = 0
        self.base = []

    def new_solver(self):
        s = z3.Solver()
        s.set("timeout", self.timeout_ms)
        return s

    def explore(self, run):
        """yields (result or exception, path) for every feasible path"""
        prefix = []
        EXP[0] = self
        while True:
            self.dec = []
            self.prefix = prefix
            self.pos = 0
            self.solver = self.new_solver()
            self.pc = []
            for c in self.base:
                self.solver.add(c)
                self.pc.append(c)
            self.npaths += 1
            STAT["paths"] += 1
            try:
                out = run()
            except Infeasible:
                out = None
                dead = True
            else:
                dead = False
            if not dead:
                yield out
            # backtrack
            d = self.dec
            while d and not d[-1][1]:
                d.pop()
            if not d:
                self.complete = True
                return
            kind, alts, val = d[-1]
            if kind == "b":
                d[-1] = ("b", False, not val)
            elif kind == "c":       # choice among n
                k, n = val
                d[-1] = ("c", k + 2 < n, (k + 1, n))
            elif kind == "v":
                # concretisation: exclude values used so far
                d[-1] = ("x", True, val)
            elif kind == "x":
                raise AssertionError
            prefix = [x for x in d]
            if self.npaths >= self.max_paths or (self.deadline and time.time() > self.deadline):
                return

    def add(self, c):
        self.solver.add(c)
        self.pc.append(c)

    def assume(self, c):
        if c.__class__ is bool:
            if not c:
                raise Infeasible()
            return
        if isinstance(c, SymBool):
            c = c.z()
        self.add(c)
        if check(self.solver) == z3.unsat:
            raise Infeasible()

    def choose(self, n, label=""):
        """nondeterministic choice 0..n-1"""
        if n <= 1:
            return 0
        if self.pos < len(self.prefix):
            kind, alts, val = self.prefix[self.pos]
            self.pos += 1
            self.dec.append((kind, alts, val))
            return val[0]
        self.pos += 1
        self.dec.append(("c", n > 1, (0, n)))
        return 0

    def branch(self, c):
        e = c.z()
        if e is True or e is False:
            return e
        if self.pos < len(self.prefix):
            kind, alts, val = self.prefix[self.pos]
            assert kind == "b", kind
            self.pos += 1
            self.dec.append((kind, alts, val))
            self.add(e if val else z3.Not(e))
            return val
        self.pos += 1
        if self.fp_policy is not None:
            p = self.fp_policy(c)
            if p is not None:
                self.dec.append(("b", False, p))
                self.add(e if p else z3.Not(e))
                return p
        t = check(self.solver, e)
        if t == z3.unsat:
            self.dec.append(("b", False, False))
            self.add(z3.Not(e))
            return False
        f = check(self.solver, z3.Not(e))
        if f == z3.unsat:
            self.dec.append(("b", False, True))
            self.add(e)
            return True
        self.dec.append(("b", True, True))
        self.add(e)
        return True

    def concretize(self, s):
        e = s.e
        # decision record: ("v", more?, [values tried..., current])
        if self.pos < len(self.prefix):
            kind, alts, val = self.prefix[self.pos]
            self.pos += 1
            if kind == "v":
                self.dec.append((kind, alts, val))
                v = val[-1]
                for old in val[:-1]:
                    self.add(e != old)
                self.add(e == v)
                return v
            assert kind == "x"
            tried = list(val)
        else:
            self.pos += 1
            tried = []
        for old in tried:
            self.add(e != old)
        if check(self.solver) != z3.sat:
            raise Infeasible()      # no further value
        v = self.solver.model().eval(e, True).as_signed_long()
        self.solver.push()
        self.solver.add(e != v)
        more = check(self.solver) != z3.unsat
        self.solver.pop()
        self.dec.append(("v", more, tried + [v]))
        self.add(e == v)
        return v

    def model(self, extra=()):
        r = check(self.solver, *extra)
        return self.solver.model() if r == z3.sat else None


class NoExplorer:
    fp_policy = None
    divconc = False

    def branch(self, c):
        raise EngineError("symbolic branch outside an exploration")

    def choose(self, n, label=""):
        return 0

    def concretize(self, s):
        raise EngineError("symbolic address outside an exploration")


EXP = [NoExplorer()]


def ivar(name, w=32):
    return SymInt(w, z3.BitVec(name, w))
