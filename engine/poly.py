"""Exact arithmetic of the symbolic executor: Laurent polynomials over Q(i) in complex variables z
(with formal conjugate z~) and real variables.  A floating-point value of the code under test is a
Python int/Fraction, a Poly, a lazy RePart/ImPart of a Poly, a float inf/nan, or TOP."""
from fractions import Fraction as Q
from math import isinf, isnan

LANE = 8
HALF = 1 << (LANE - 1)
FULL = 1 << LANE
LMASK = FULL - 1

NAMES = []      # lane -> name
CONJ = []       # lane -> lane of the conjugate (itself if real)
POS = []        # lane -> known > 0
_dec = {}
_cj = {}


def reset():
    NAMES.clear(); CONJ.clear(); POS.clear(); _dec.clear(); _cj.clear(); ATOMS.clear(); SQRTS.clear(); ATOMINFO.clear()
    RULES.clear()


ATOMS = {}      # key -> Poly   (abs, sqrt, max ... atoms)
ATOMINFO = {}   # lane -> (kind, args)
SQRTS = {}
RULES = {}      # reserved for rewriting


def mark():
    return len(NAMES)


def real(name, pos=False):
    k = len(NAMES)
    NAMES.append(name); CONJ.append(k); POS.append(pos)
    return Poly({1 << (LANE * k): 1}, None)


def cplx(name):
    k = len(NAMES)
    NAMES.append(name); CONJ.append(k + 1); POS.append(False)
    NAMES.append(name + "~"); CONJ.append(k); POS.append(False)
    return Poly({1 << (LANE * k): 1}, None)


def decode(m):
    """monomial -> tuple of (lane, exponent)"""
    r = _dec.get(m)
    if r is None:
        out = []
        x = m
        lane = 0
        while x:
            low = (x & -x).bit_length() - 1
            sk = low // LANE
            x >>= LANE * sk
            lane += sk
            e = x & LMASK
            if e >= HALF:
                e -= FULL
            if e:
                out.append((lane, e))
                x -= e
        r = _dec[m] = tuple(out)
    return r


def conj_m(m):
    r = _cj.get(m)
    if r is None:
        r = 0
        for l, e in decode(m):
            r += e << (LANE * CONJ[l]) if e > 0 else -((-e) << (LANE * CONJ[l]))
        _cj[m] = r
    return r


def _dmul(a, b):
    if len(a) < len(b):
        a, b = b, a
    out = {}
    get = out.get
    for m2, c2 in b.items():
        for m1, c1 in a.items():
            m = m1 + m2
            out[m] = get(m, 0) + c1 * c2
    return {m: c for m, c in out.items() if c} if 0 in out.values() else out


def _dadd(a, b):
    if len(a) < len(b):
        a, b = b, a
    out = dict(a)
    for m, c in b.items():
        s = out.get(m, 0) + c
        if s:
            out[m] = s
        else:
            del out[m]
    return out


def _dsub(a, b):
    out = dict(a)
    for m, c in b.items():
        s = out.get(m, 0) - c
        if s:
            out[m] = s
        else:
            del out[m]
    return out


def _dscale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


class Top:
    __slots__ = ()

    def _s(self, *a):
        if a and a[0].__class__ is Taint:
            return a[0]
        return self
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __neg__ = __truediv__ = __rtruediv__ = _s

    def conj(self):
        return self

    def __repr__(self):
        return "TOP"

    def __bool__(self):
        raise TypeError("bool(TOP)")


class Taint(Top):
    """an unknown value that nothing may depend on: uninitialised memory, or an element the documentation says is not referenced"""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def _s(self, *a):
        return self
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __neg__ = __truediv__ = __rtruediv__ = _s

    def __repr__(self):
        return self.name


def top2(a, b):
    """the result of an operation with a TOP operand"""
    return a if a.__class__ is Taint else b if b.__class__ is Taint else TOP


TOP = Top()


def mk(r, i):
    """canonical value from component dicts"""
    if not i:
        if not r:
            return 0
        if len(r) == 1 and 0 in r:
            return _num(r[0])
        return Poly(r, None)
    return Poly(r, i)


def _num(c):
    if c.__class__ is Q and c.denominator == 1:
        return c.numerator
    return c


class Poly:
    __slots__ = ("r", "i", "_h")

    def __init__(self, r, i):
        self.r = r
        self.i = i
        self._h = None

    def __add__(s, o):
        t = o.__class__
        if t is not Poly:
            if t is int or t is Q:
                if not o:
                    return s
                o = Poly({0: o}, None)
            else:
                o = lift(o)
                if isinstance(o, Top) or o.__class__ is float:
                    return _special_add(s, o)
                if o.__class__ is not Poly:
                    return s + o
        i = s.i
        if i is None:
            i = o.i
        elif o.i is not None:
            i = _dadd(i, o.i)
        return mk(_dadd(s.r, o.r), i)
    __radd__ = __add__

    def __neg__(s):
        return Poly({m: -c for m, c in s.r.items()}, None if s.i is None else {m: -c for m, c in s.i.items()})

    def __sub__(s, o):
        t = o.__class__
        if t is not Poly:
            if t is int or t is Q:
                return s + (-o)
            o = lift(o)
            if isinstance(o, Top) or o.__class__ is float:
                return _special_add(s, -o)
            if o.__class__ is not Poly:
                return s + (-o)
        i = s.i
        if o.i is not None:
            i = _dsub(i or {}, o.i)
        return mk(_dsub(s.r, o.r), i)

    def __rsub__(s, o):
        return (-s) + o

    def __mul__(s, o):
        t = o.__class__
        if t is not Poly:
            if t is int or t is Q:
                if not o:
                    return 0
                if o == 1:
                    return s
                return Poly(_dscale(s.r, o), None if s.i is None else _dscale(s.i, o))
            o = lift(o)
            if isinstance(o, Top):
                return o
            if o.__class__ is float:
                return TOP if o == o else o
            if o.__class__ is not Poly:
                return s * o
        si, oi = s.i, o.i
        if not si and not oi:
            return mk(_dmul(s.r, o.r), None)
        if not si:
            return mk(_dmul(s.r, o.r), _dmul(s.r, oi))
        if not oi:
            return mk(_dmul(s.r, o.r), _dmul(si, o.r))
        return mk(_dsub(_dmul(s.r, o.r), _dmul(si, oi)), _dadd(_dmul(s.r, oi), _dmul(si, o.r)))
    __rmul__ = __mul__

    def __truediv__(s, o):
        return div(s, o)

    def __rtruediv__(s, o):
        return div(o, s)

    def conj(s):
        return Poly({conj_m(m): c for m, c in s.r.items()},
                    None if s.i is None else {conj_m(m): -c for m, c in s.i.items()})

    def key(s):
        if s._h is None:
            s._h = (frozenset(s.r.items()), frozenset(s.i.items()) if s.i else None)
        return s._h

    def __eq__(s, o):
        if o.__class__ is Poly:
            return s.r == o.r and (s.i or None) == (o.i or None)
        if o.__class__ in (RePart, ImPart):
            return s == o.poly()
        return False

    def __ne__(s, o):
        return not s == o

    def __hash__(s):
        return hash(s.key())

    def nterms(s):
        return len(s.r) + (len(s.i) if s.i else 0)

    def is_real(s):
        return s == s.conj()

    def single(s):
        """(coef_re, coef_im, monomial) if s is one monomial"""
        if s.i:
            if len(s.i) != 1 or len(s.r) > 1:
                return None
            m = next(iter(s.i))
            if s.r and m not in s.r:
                return None
            return s.r.get(m, 0), s.i[m], m
        if len(s.r) != 1:
            return None
        m, c = next(iter(s.r.items()))
        return c, 0, m

    def vars(s):
        out = set()
        for d in (s.r, s.i or {}):
            for m in d:
                for l, _ in decode(m):
                    out.add(l)
        return out

    def __bool__(s):
        raise TypeError("truth value of a polynomial")

    def __repr__(s):
        return show(s)


def show(v, limit=12):
    if v.__class__ is not Poly:
        return repr(v) if v.__class__ not in (RePart, ImPart) else show(v.poly(), limit)
    out = []
    for d, suf in ((s for s in ((v.r, ""), (v.i or {}, "I")))):
        for m, c in d.items():
            t = "*".join(NAMES[l] + ("^%d" % e if e != 1 else "") for l, e in decode(m))
            out.append(("%s%s" % (c, "*" + t if t else "")) + ("*" + suf if suf else ""))
    s = " + ".join(out[:limit])
    return s + (" + ...(%d terms)" % len(out) if len(out) > limit else "")


class _Part:
    __slots__ = ("p", "v")

    def __init__(self, p):
        self.p = p
        self.v = None

    def __add__(s, o):
        return s.poly() + o
    __radd__ = __add__

    def __sub__(s, o):
        return s.poly() - o

    def __rsub__(s, o):
        return (-s.poly()) + o

    def __mul__(s, o):
        return s.poly() * o
    __rmul__ = __mul__

    def __neg__(s):
        return -s.poly()

    def __truediv__(s, o):
        return div(s.poly(), o)

    def __rtruediv__(s, o):
        return div(o, s.poly())

    def conj(s):
        return s

    def __repr__(s):
        return show(s)


class RePart(_Part):
    __slots__ = ()

    def poly(s):
        if s.v is None:
            s.v = re(s.p)
        return s.v


class ImPart(_Part):
    __slots__ = ()

    def poly(s):
        if s.v is None:
            s.v = im(s.p)
        return s.v


def lift(o):
    t = o.__class__
    if t is RePart or t is ImPart:
        return o.poly()
    if t is float:
        if isinf(o) or isnan(o):
            return o
        return const(o)
    return o


def const(x):
    """exact value of a float"""
    if x == int(x) and abs(x) < 1e300:
        return int(x)
    return Q(x)


def _special_add(s, o):
    return o


HALFQ = Q(1, 2)
I = Poly({}, {0: 1})


def re(p):
    p = lift(p)
    if p.__class__ is not Poly:
        return p
    c = p.conj()
    if c == p:
        return p
    return (p + c) * HALFQ


def im(p):
    p = lift(p)
    if p.__class__ is not Poly:
        return p if isinstance(p, Top) else 0
    c = p.conj()
    if c == p:
        return 0
    # (p - c) / (2 i)
    d = p - c
    if d.__class__ is not Poly:
        return -d * HALFQ * I if d else 0
    return d * (I * -HALFQ)


def cj(p):
    t = p.__class__
    return p.conj() if t is Poly else p


def join(a, b):
    """complex value a + i b of two stored components"""
    if a.__class__ is RePart and b.__class__ is ImPart and a.p is b.p:
        return a.p
    if b.__class__ is int and not b:
        return lift(a)
    a = lift(a)
    b = lift(b)
    if isinstance(a, Top) or isinstance(b, Top):
        return a if a is b else top2(a, b)
    if a.__class__ is float or b.__class__ is float:
        return a if a.__class__ is float else b
    return a + I * b


def split(p):
    """the two stored components of a complex value"""
    if p.__class__ is Poly:
        if p.i is None:
            for m in p.r:
                if m and conj_m(m) != m:
                    return RePart(p), ImPart(p)
            return p, 0
        return RePart(p), ImPart(p)
    if isinstance(p, Top):
        return p, p
    if p.__class__ is float:
        return p, 0
    return p, 0


class Inexact(Exception):
    pass


DIVHOOK = [None]   # called for divisions that are not exact


def div(a, b):
    a = lift(a)
    b = lift(b)
    if isinstance(a, Top) or isinstance(b, Top):
        return top2(a, b)
    if a.__class__ is float or b.__class__ is float:
        if b.__class__ is float and isinf(b) and a.__class__ is not float:
            return 0
        return float("nan")
    if b.__class__ is int or b.__class__ is Q:
        if not b:
            return float("nan") if (a.__class__ is not Poly and not a) else float("inf")
        if a.__class__ is Poly:
            return a * (Q(1) / b)
        return _num(Q(a) / b)
    if a.__class__ is not Poly and not a:
        return 0
    s = b.single()
    if s is not None:
        cr, ci, m = s
        n = Q(cr * cr + ci * ci)
        inv = Poly({-m: cr / n} if cr else {}, {-m: -ci / n} if ci else None)
        if inv.r and inv.r[-m].denominator == 1:
            inv.r[-m] = inv.r[-m].numerator
        return inv * a
    q = exact_div(a, b)
    if q is not None:
        return q
    if DIVHOOK[0]:
        return DIVHOOK[0](a, b)
    raise Inexact("division by %s" % show(b, 4))


def exact_div(a, b):
    """multivariate exact division (lex order on packed monomials is not a term order for
    negative exponents, so shift to nonnegative first); None if not exact"""
    if a.__class__ is not Poly:
        return None
    # make exponents nonnegative
    def shift(p):
        lo = {}
        for d in (p.r, p.i or {}):
            for m in d:
                for l, e in decode(m):
                    if e < lo.get(l, 0):
                        lo[l] = e
        sh = 0
        for l, e in lo.items():
            sh += (-e) << (LANE * l)
        if not sh:
            return p, 0
        return Poly({m + sh: c for m, c in p.r.items()}, {m + sh: c for m, c in p.i.items()} if p.i else None), sh
    b, sb = shift(b)
    a, sa = shift(a)
    # also strip common monomial of b
    keys = list(b.r) + list(b.i or ())
    mn = None
    for m in keys:
        dd = dict(decode(m))
        mn = dd if mn is None else {l: min(e, dd.get(l, 0)) for l, e in mn.items() if dd.get(l, 0)}
    st = 0
    for l, e in (mn or {}).items():
        st += e << (LANE * l)
    if st:
        b = Poly({m - st: c for m, c in b.r.items()}, {m - st: c for m, c in b.i.items()} if b.i else None)
    # single variable ordering: python int comparison of packed nonneg monomials is lex: a valid term order
    lb = max(list(b.r) + list(b.i or ()))
    br, bi = b.r.get(lb, 0), (b.i or {}).get(lb, 0)
    n = Q(br * br + bi * bi)
    rem_r, rem_i = dict(a.r), dict(a.i or {})
    qr, qi = {}, {}
    steps = 0
    dlb = dict(decode(lb))
    while rem_r or rem_i:
        la = max(max(rem_r, default=-1), max(rem_i, default=-1))
        d = dict(decode(la))
        for l, e in dlb.items():
            if d.get(l, 0) < e:
                return None
        ar, ai = rem_r.get(la, 0), rem_i.get(la, 0)
        cr = _num((ar * br + ai * bi) / n)
        ci = _num((ai * br - ar * bi) / n)
        m = la - lb
        if cr:
            qr[m] = cr
        if ci:
            qi[m] = ci
        for mm, c in b.r.items():
            k = mm + m
            if cr:
                v = rem_r.get(k, 0) - c * cr
                if v: rem_r[k] = v
                else: rem_r.pop(k, None)
            if ci:
                v = rem_i.get(k, 0) - c * ci
                if v: rem_i[k] = v
                else: rem_i.pop(k, None)
        for mm, c in (b.i or {}).items():
            k = mm + m
            if ci:
                v = rem_r.get(k, 0) + c * ci
                if v: rem_r[k] = v
                else: rem_r.pop(k, None)
            if cr:
                v = rem_i.get(k, 0) - c * cr
                if v: rem_i[k] = v
                else: rem_i.pop(k, None)
        steps += 1
        if steps > 20000:
            return None
    # q * 2^shift corrections: (a*sa)/(b*sb/st) -> multiply by sb, divide by sa and st
    adj = sb - sa - st
    return mk({m + adj: c for m, c in qr.items()}, {m + adj: c for m, c in qi.items()} if qi else None)


def atom(kind, args, pos=False):
    """a real atom: an uninterpreted function of canonical arguments"""
    key = (kind, tuple(a.key() if a.__class__ is Poly else a for a in args))
    v = ATOMS.get(key)
    if v is None:
        v = ATOMS[key] = real("%s(%s)" % (kind, ",".join(show(a, 3) for a in args)), pos)
        ATOMINFO[len(NAMES) - 1] = (kind, args)
    return v


def _normsign(p):
    """canonical representative of p up to a unit factor of +-1, +-i (for |p|)"""
    cands = [p, -p, p * I, p * I * -1]
    c = p.conj()
    return min(cands + [c, -c, c * I, c * I * -1], key=lambda x: _ordkey(x))


def _ordkey(p):
    return (len(p.r), tuple(sorted(p.r.items())), tuple(sorted((p.i or {}).items())))


def modulus(p):
    """|p| of a complex value"""
    p = lift(p)
    if isinstance(p, Top) or p.__class__ is float:
        return abs(p) if p.__class__ is float else p
    if p.__class__ is not Poly:
        return abs(p)
    s = p.single()
    if s is not None:
        cr, ci, m = s
        if ci == 0 and all(POS[l] for l, e in decode(m)):
            return Poly({m: abs(cr)}, None)
        if m == 0:
            return sqrt_(cr * cr + ci * ci)
    if not p.i and all(c > 0 for c in p.r.values()) and all(
            POS[l] or l in ATOMINFO for m in p.r for l, e in decode(m)):
        return p
    return atom("abs", (_normsign(p),), pos=False)


def fabs_(p):
    p = lift(p)
    if isinstance(p, Top):
        return p
    if p.__class__ is not Poly:
        return abs(p)
    return modulus(p)


def _isqrt_q(x):
    from math import isqrt
    x = Q(x)
    if x < 0:
        return None
    a, b = isqrt(x.numerator), isqrt(x.denominator)
    if a * a == x.numerator and b * b == x.denominator:
        return _num(Q(a, b))
    return None


def sqrt_(p):
    p = lift(p)
    if isinstance(p, Top):
        return p
    if p.__class__ is float:
        return p
    if p.__class__ is not Poly:
        r = _isqrt_q(p)
        if r is not None:
            return r
        return atom("sqrt", (p,), pos=p > 0)
    s = p.single()
    if s is not None and s[1] == 0 and s[0] > 0:
        c = _isqrt_q(s[0])
        d = decode(s[2])
        if c is not None and all(e % 2 == 0 and POS[l] for l, e in d):
            m = 0
            for l, e in d:
                m += (e // 2) << (LANE * l) if e > 0 else -((-e // 2) << (LANE * l))
            return Poly({m: c}, None)
    return atom("sqrt", (p,))


def evaluate(p, env):
    """numeric value of p: env lane -> python number (complex / Fraction pair)"""
    p = lift(p)
    if p.__class__ is not Poly:
        return p
    tot = 0
    for d, f in ((p.r, 1), (p.i or {}, 1j)):
        for m, c in d.items():
            t = f * (float(c))
            for l, e in decode(m):
                t = t * env[l] ** e
            tot = tot + t
    return tot
