"""Floating-point comparisons as solver terms over exact reals, and the polynomial -> z3 encoding."""
from fractions import Fraction as Q
import z3
import poly
from poly import Poly, RePart, ImPart, TOP, lift, decode, NAMES, CONJ, POS, ATOMINFO
from sym import SymBool, EXP, EngineError, Violation

_zv = {}


def zreset():
    _zv.clear()


def zvar(lane):
    """(re, im) z3 terms of the variable in a lane"""
    r = _zv.get(lane)
    if r is None:
        n = NAMES[lane]
        if CONJ[lane] == lane:
            v = z3.Real("%s#%d" % (n[:40], lane))
            r = (v, None)
        elif CONJ[lane] > lane:
            r = (z3.Real("re_%s#%d" % (n[:40], lane)), z3.Real("im_%s#%d" % (n[:40], lane)))
        else:
            a, b = zvar(CONJ[lane])
            r = (a, -b)
        _zv[lane] = r
    return r


def znum(c):
    if c.__class__ is int:
        return z3.RealVal(c)
    return z3.RealVal(str(c))


def _cmul(a, b):
    ar, ai = a
    br, bi = b
    if ai is None and bi is None:
        return ar * br, None
    if ai is None:
        return ar * br, ar * bi
    if bi is None:
        return ar * br, ai * br
    return ar * br - ai * bi, ar * bi + ai * br


def zterm(p):
    """(re, im) z3 real terms of a polynomial"""
    p = lift(p)
    if p.__class__ is not Poly:
        if isinstance(p, poly.Top) or p.__class__ is float:
            raise EngineError("no solver term for %r" % (p,))
        return znum(p), None
    tr, ti = [], []
    for d, isim in ((p.r, False), (p.i or {}, True)):
        for m, c in d.items():
            t = (znum(c), None)
            for l, e in decode(m):
                v = zvar(l)
                if e < 0:
                    if v[1] is None:
                        v = (1 / v[0], None)
                    else:
                        n = v[0] * v[0] + v[1] * v[1]
                        v = (v[0] / n, -v[1] / n)
                    e = -e
                for _ in range(e):
                    t = _cmul(t, v)
            if isim:
                t = (-t[1] if t[1] is not None else None, t[0])
            if t[0] is not None:
                tr.append(t[0])
            if t[1] is not None:
                ti.append(t[1])
    a = z3.Sum(tr) if len(tr) > 1 else tr[0] if tr else z3.RealVal(0)
    b = z3.Sum(ti) if len(ti) > 1 else ti[0] if ti else None
    return a, b


def zformal(p, vm):
    """polynomial over formally independent variables (z and its conjugate separate):
    returns (component0, component1) z3 real terms"""
    p = lift(p)
    if p.__class__ is not Poly:
        return znum(p), None
    out = []
    for d in (p.r, p.i or {}):
        ts = []
        for m, c in d.items():
            t = znum(c)
            for l, e in decode(m):
                v = vm.get((l, e < 0))
                if v is None:
                    v = vm[(l, e < 0)] = z3.Real("%s%s#%d" % ("inv_" if e < 0 else "", NAMES[l][:40], l))
                for _ in range(abs(e)):
                    t = t * v
            ts.append(t)
        out.append(z3.Sum(ts) if len(ts) > 1 else ts[0] if ts else None)
    return out


class FBool(SymBool):
    """comparison  d OP 0  of a real-valued polynomial d"""
    __slots__ = ("op", "d", "_z")

    def __init__(self, op, d):
        self.op = op
        self.d = d
        self._z = None

    @property
    def e(self):
        return self.z()

    def z(self):
        if self._z is None:
            t = zterm(self.d)[0]
            o = self.op
            self._z = (t == 0 if o == "eq" else t != 0 if o == "ne" else t < 0 if o == "lt" else t <= 0 if o == "le"
                       else t > 0 if o == "gt" else t >= 0)
        return self._z

    def __repr__(self):
        return "FBool(%s %s 0)" % (poly.show(self.d, 4), self.op)


class TopBool(SymBool):
    """comparison of TOP values: both outcomes possible, decided by the harness policy"""
    __slots__ = ("op",)

    def __init__(self, op="lt"):
        self.op = op

    @property
    def e(self):
        return self.z()

    def z(self):
        import itertools
        return z3.Bool("top!%d" % next(_ctr))

    def __bool__(self):
        return TOPPOLICY[0](self.op)

    def __and__(self, o):
        if o is False or o is True:
            return self if o else False
        return self if isinstance(o, TopBool) else self
    __rand__ = __and__

    def __or__(self, o):
        if o is False or o is True:
            return True if o else self
        return self
    __ror__ = __or__

    def __xor__(self, o):
        return self
    __rxor__ = __xor__


import itertools
_ctr = itertools.count()
TOPPOLICY = [lambda op: False]
_OPS = {"oeq": "eq", "ueq": "eq", "one": "ne", "une": "ne", "olt": "lt", "ult": "lt", "ole": "le", "ule": "le",
        "ogt": "gt", "ugt": "gt", "oge": "ge", "uge": "ge"}


def _pos_sign(d):
    """sign of a single-term real polynomial when known: 1, -1 or None"""
    s = d.single()
    if s is None or s[1]:
        return None
    for l, e in decode(s[2]):
        if e % 2 and not POS[l]:
            return None
        if not POS[l]:
            return None
    return 1 if s[0] > 0 else -1


def fcmp(op, a, b):
    ta, tb = a.__class__, b.__class__
    if (ta is int or ta is Q) and (tb is int or tb is Q):
        if op == "ord":
            return True
        if op == "uno":
            return False
        o = _OPS[op]
        return (a == b if o == "eq" else a != b if o == "ne" else a < b if o == "lt" else a <= b if o == "le"
                else a > b if o == "gt" else a >= b)
    a = lift(a)
    b = lift(b)
    if a.__class__ is float or b.__class__ is float:
        # only inf/nan get here
        nan = (a.__class__ is float and a != a) or (b.__class__ is float and b != b)
        if op == "ord":
            return not nan
        if op == "uno":
            return nan
        if nan:
            return op[0] == "u"
        if isinstance(a, poly.Top) or isinstance(b, poly.Top):
            return op in ("ord",)
        x = a if a.__class__ is float else 0.0
        y = b if b.__class__ is float else 0.0
        o = _OPS[op]
        return (x == y if o == "eq" else x != y if o == "ne" else x < y if o == "lt" else x <= y if o == "le"
                else x > y if o == "gt" else x >= y)
    if op == "ord":
        return True
    if op == "uno":
        return False
    if op in ("false", "true"):
        return op == "true"
    if isinstance(a, poly.Top) or isinstance(b, poly.Top):
        t = poly.top2(a, b)
        if t is not TOP:
            raise Violation("uninit", "a decision depends on %s" % t.name)
        return TopBool(_OPS.get(op, "lt"))
    o = _OPS[op]
    d = a - b
    if d.__class__ is not Poly:
        d = lift(d)
        return (d == 0 if o == "eq" else d != 0 if o == "ne" else d < 0 if o == "lt" else d <= 0 if o == "le"
                else d > 0 if o == "gt" else d >= 0)
    s = _pos_sign(d)
    if s is not None:
        return (False if o == "eq" else True if o == "ne" else s < 0 if o in ("lt", "le") else s > 0)
    if FCMPHOOK[0] is not None:
        r = FCMPHOOK[0](o, d, a, b)
        if r is not None:
            return r
    return FBool(o, d)


FCMPHOOK = [None]
