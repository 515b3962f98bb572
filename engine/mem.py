"""Object-based memory of the symbolic executor.  Addresses are flat Python ints:
object id << 40 | (1 << 39) + byte offset, so any out-of-bounds access is noticed."""
import poly
import sym
from sym import Violation, SymInt, Undef, EngineError, mkint
import z3

SH = 40
BIAS = 1 << 39
MASK = (1 << SH) - 1

OBJS = {}
NEXT = [16]


class Obj:
    __slots__ = ("id", "size", "c", "es", "z", "kind", "name", "freed", "ro", "fn", "wt")

    def __init__(self, id, size, kind, name):
        self.id = id
        self.size = size
        self.c = {}         # offset -> value
        self.es = 0         # uniform element size, 0 = none yet, -1 = mixed (see z)
        self.z = None       # offset -> size (mixed mode)
        self.kind = kind
        self.name = name
        self.freed = False
        self.ro = False
        self.fn = None
        self.wt = None

    @property
    def addr(self):
        return (self.id << SH) + BIAS


class Seg:
    __slots__ = ("rd", "wr", "task", "idx", "label")

    def __init__(self, task=None, idx=0, label=""):
        self.rd = set()
        self.wr = set()
        self.task = task
        self.idx = idx
        self.label = label


CUR = [None]            # current access-log segment (None = not logging)
JUNK = [None]           # value factory for uninitialised floating-point reads
ACC = [None]            # optional callback on every access (address, is_write)


def alloc(size, kind="heap", name=""):
    if size.__class__ is SymInt:
        size = int(size)
    n = NEXT[0]
    NEXT[0] = n + 1
    o = Obj(n, size, kind, name)
    OBJS[n] = o
    return o


def obj_of(p):
    return OBJS.get(p >> SH)


# ---- arrays with a symbolic leading dimension ------------------------------------------------
# The element (i, j) of an m x n array lives at base + (i + j*ld)*es.  Its cells are kept in a compact m x n object; addresses into
# the array (64-bit solver terms) are translated by straddr, which asks the solver whether they can lie outside the elements.
STR = {}


class Strided:
    def __init__(self, obj, base, es, m, n, ld, lo, hi):
        self.o, self.base, self.es, self.m, self.n, self.ld, self.lo, self.hi = obj, base, es, m, n, ld, lo, hi
        self.cache = {}


def strided(es, m, n, ld, lo, hi, name):
    """compact object and base address of an array whose leading dimension is the SymInt ld, lo <= ld <= hi"""
    o = alloc(m * n * es, "user", name)
    k = NEXT[0]
    NEXT[0] = k + 1
    s = Strided(o, (k << SH) + BIAS, es, m, n, ld, lo, hi)
    STR[k] = s
    return s


def straddr(p, n, what, probe=False):
    """compact address of an access of n bytes at p (a SymInt, or an int into a strided array)"""
    if p.__class__ is SymInt:
        e = p.e
        key = e.get_id()
        for s in STR.values():
            c = s.cache.get((key, n))
            if c is not None:
                return c[0]
        subs = lambda x, d: z3.simplify(z3.substitute(x, *[(t.ld.e, z3.BitVecVal(t.lo + d, 32)) for t in STR.values()]))
        v0 = subs(e, 0)
        if not z3.is_bv_value(v0):
            return int(p)       # some other symbolic address
        v0 = v0.as_signed_long()
        s = STR.get(v0 >> SH)
        if s is None:
            raise EngineError("symbolic address outside the arrays of the caller")
        v1 = subs(e, 1).as_signed_long()
    else:
        s = STR.get(p >> SH)
        if s is None:
            return p
        if s.lo == s.hi:
            a = p - s.base
            j, i = divmod(a, s.lo * s.es)
            if 0 <= j < s.n and i + n <= s.m * s.es:
                return s.o.addr + i + j * s.m * s.es
        e, v0, v1, key = z3.BitVecVal(p, 64), p, p, None
    es, L = s.es, s.lo
    c1 = v1 - v0
    c0 = v0 - s.base - c1 * L
    ex = sym.EXP[0]
    L64 = z3.SignExt(32, s.ld.e)
    if c1 % es == 0 and 0 <= c1 // es < s.n and c0 >= 0 and c0 + n <= s.m * es:
        # the solver confirms that this is the address for every leading dimension
        if key is not None:
            m = _model(ex, e != z3.BitVecVal(s.base + c0, 64) + L64 * c1)
            if m is not None:
                v = m.eval(s.ld.e, True).as_signed_long()
                a = m.eval(e, True).as_signed_long() - s.base
                j, i = divmod(a, v * es) if a >= 0 else (-1, 0)
                if 0 <= j < s.n and i + n <= s.m * es:
                    raise EngineError("address is not linear in the leading dimension")
                if probe:
                    return s.base + a
                inside = 0 <= a and a + n <= ((s.n - 1) * v + s.m) * es
                raise Violation("padding" if inside else "out-of-bounds", "%s of %s at offset %d of the array (leading dimension %d, %d x %d elements); with leading dimension %d it is element (%d, %d)"
                                % (what, s.o.name, a, v, s.m, s.n, L, c0 // es, c1 // es), dict(array=s.o.name, ld=v, off=a))
        r = s.o.addr + c0 + (c1 // es) * s.m * es
        if key is not None:
            s.cache[key, n] = (r, e)
        return r
    # not an element for every value: is the leading dimension fixed on this path?
    m = _model(ex, None)
    v = m.eval(s.ld.e, True).as_signed_long()
    if not _sat(ex, s.ld.e != v):
        a = m.eval(e, True).as_signed_long() - s.base
        j, i = divmod(a, v * es) if a >= 0 else (-1, 0)
        if 0 <= j < s.n and i + n <= s.m * es:
            return s.o.addr + i + j * s.m * es
        if v == s.m and 0 <= a and a + n <= s.m * s.n * es:
            return s.o.addr + a
    # an admissible leading dimension for which it is not an element
    cells = [z3.And(e >= z3.BitVecVal(s.base, 64) + L64 * (j * es), e + n <= z3.BitVecVal(s.base + s.m * es, 64) + L64 * (j * es)) for j in range(s.n)]
    m = _model(ex, z3.Not(z3.Or(cells)))
    if m is None:
        raise EngineError("address cannot be attributed to one element")
    v = m.eval(s.ld.e, True).as_signed_long()
    a = m.eval(e, True).as_signed_long() - s.base
    if probe:
        return s.base + a
    j, i = divmod(a, v * es)
    inside = 0 <= a and a + n <= ((s.n - 1) * v + s.m) * es
    raise Violation("padding" if inside else "out-of-bounds", "%s of %s at %s of column %d (leading dimension %d, %d x %d elements)"
                    % (what, s.o.name, "row %d" % (i // es), j, v, s.m, s.n), dict(array=s.o.name, ld=v, off=a))


def _sat(ex, c):
    ex.solver.push()
    ex.solver.add(c)
    r = sym.check(ex.solver)
    ex.solver.pop()
    if r == z3.unknown:
        raise EngineError("solver gives no answer")
    return r == z3.sat


def _model(ex, c):
    ex.solver.push()
    if c is not None:
        ex.solver.add(c)
    r = sym.check(ex.solver)
    m = ex.solver.model() if r == z3.sat else None
    ex.solver.pop()
    if r == z3.unknown:
        raise EngineError("solver gives no answer")
    return m


def where(p):
    o = OBJS.get(p >> SH)
    if o is None:
        return "0x%x" % p
    return "%s%s+%d (size %s)" % (o.kind, ":" + o.name if o.name else "", (p & MASK) - BIAS, o.size)


def _bad(p, n, what):
    if p.__class__ is not int:
        if p.__class__ is Undef:
            raise Violation("uninit", "%s through an uninitialised pointer" % what)
        raise EngineError("%s through %r" % (what, p))
    if -4096 <= p < 65536:
        raise Violation("null", "%s through a null pointer (offset %d)" % (what, p))
    o = OBJS.get(p >> SH)
    if o is None:
        raise Violation("wild", "%s at wild address 0x%x" % (what, p))
    if o.freed:
        raise Violation("use-after-free", "%s of freed memory %s" % (what, where(p)))
    if o.ro and what == "write":
        raise Violation("readonly", "write to constant memory %s" % where(p))
    raise Violation("out-of-bounds", "%s of %d bytes at %s" % (what, n, where(p)))


def load(p, n, k):
    """k: 'f' floating point, 'i' integer, 'p' pointer"""
    if p.__class__ is not int:
        if p.__class__ is SymInt:
            p = straddr(p, n, "read") if STR else int(p)
        else:
            _bad(p, n, "read")
    o = OBJS.get(p >> SH)
    if o is None and STR:
        p = straddr(p, n, "read")
        o = OBJS.get(p >> SH)
    off = (p & MASK) - BIAS
    if o is None or off < 0 or off + n > o.size or o.freed:
        _bad(p, n, "read")
    s = CUR[0]
    if s is not None:
        s.rd.add(p)
    if o.es == n:
        v = o.c.get(off)
        if v is not None:
            return v
    elif o.es:
        v = _slow_load(o, off, n, k)
        if v is not None:
            return v
    return _uninit(o, off, n, k)


def _uninit(o, off, n, k):
    if k == "f":
        v = JUNK[0](o, off) if JUNK[0] else poly.real("junk!%s%d+%d" % (o.name, o.id, off))
        _put(o, off, n, v)
        return v
    return Undef(where(o.addr + off))


def store(p, n, v):
    if p.__class__ is not int:
        if p.__class__ is SymInt:
            p = straddr(p, n, "write") if STR else int(p)
        else:
            _bad(p, n, "write")
    o = OBJS.get(p >> SH)
    if o is None and STR:
        p = straddr(p, n, "write")
        o = OBJS.get(p >> SH)
    off = (p & MASK) - BIAS
    if o is None or off < 0 or off + n > o.size or o.freed or o.ro:
        _bad(p, n, "write")
    s = CUR[0]
    if s is not None:
        s.wr.add(p)
    if o.es == n:
        o.c[off] = v
    else:
        _put(o, off, n, v)


def _put(o, off, n, v):
    if o.es == n:
        if off % n == 0:
            o.c[off] = v
            return
        _mixed(o)
    elif not o.es:
        if off % n == 0:
            o.es = n
            o.c[off] = v
            return
        o.es = -1
        o.z = {}
    elif o.es > 0:
        _mixed(o)
    if v.__class__ is Packed:
        for so, sn, sv in v.parts:
            _put(o, off + so, sn, sv)
        return
    z = o.z
    if z.get(off) != n:
        _clear(o, off, n)
        z[off] = n
    o.c[off] = v


def _mixed(o):
    o.z = {k: o.es for k in o.c}
    o.es = -1


def _clear(o, off, n):
    """remove cells overlapping [off, off+n), keeping the outside bytes of split integer cells"""
    z, c = o.z, o.c
    for a in range(off - 15, off + n):
        s = z.get(a)
        if s is None or a + s <= off:
            continue
        v = c.pop(a)
        del z[a]
        if a < off or a + s > off + n:
            bs = _bytes(v, s)
            for i in range(s):
                if a + i < off or a + i >= off + n:
                    z[a + i] = 1
                    c[a + i] = bs[i]


def _bytes(v, s):
    if v.__class__ is int:
        return [((v >> (8 * i)) & 255) - 256 if (v >> (8 * i)) & 128 else (v >> (8 * i)) & 255 for i in range(s)]
    if v.__class__ is bool:
        return [int(v)] + [0] * (s - 1)
    if v.__class__ is SymInt:
        e = v.e
        if v.w < 8 * s:
            e = z3.ZeroExt(8 * s - v.w, e)
        return [mkint(8, z3.Extract(8 * i + 7, 8 * i, e)) for i in range(s)]
    if v.__class__ is Undef:
        return [v] * s
    return [Frag(v, s, i) for i in range(s)]


class Frag:
    """byte i of an opaque s-byte value"""
    __slots__ = ("v", "s", "i")

    def __init__(self, v, s, i):
        self.v, self.s, self.i = v, s, i


class Packed:
    """a wide integer holding several narrower opaque values"""
    __slots__ = ("parts", "n")

    def __init__(self, parts, n):
        self.parts = parts
        self.n = n

    def trunc(self, w):
        return unpack(self.parts, 0, w // 8)

    def lshr(self, b):
        return unpack(self.parts, b // 8, self.n - b // 8, self.n)


def unpack(parts, off, n, pad=None):
    out = [(a - off, s, v) for a, s, v in parts if a >= off and a + s <= off + n]
    if len(out) == 1 and out[0][0] == 0:
        return out[0][2]
    return Packed(out, pad or n)


def _slow_load(o, off, n, k):
    if o.es > 0:
        _mixed(o)
    z, c = o.z, o.c
    if z.get(off) == n:
        return c[off]
    # containing cell
    parts = []
    a = off
    while a < off + n:
        s = z.get(a)
        if s is not None and a + s <= off + n:
            parts.append((a - off, s, c[a]))
            a += s
            continue
        # a lies inside an earlier (wider) cell?
        for b in range(a - 15, a + 1):
            s = z.get(b)
            if s is not None and b + s > a:
                v = c.pop(b)
                del z[b]
                if v.__class__ is Packed:
                    for so, sn, sv in v.parts:
                        z[b + so] = sn
                        c[b + so] = sv
                else:
                    for i, x in enumerate(_bytes(v, s)):
                        z[b + i] = 1
                        c[b + i] = x
                break
        else:
            if not parts and n <= 1:
                return None
            # uninitialised byte
            if all(z.get(x) is None for x in range(off, off + n)):
                return None
            parts.append((a - off, 1, Undef(where(o.addr + a))))
            a += 1
            continue
    if not parts:
        return None
    if len(parts) == 1 and parts[0][1] == n:
        return parts[0][2]
    vs = [p[2] for p in parts]
    if all(v.__class__ is int or v.__class__ is bool for v in vs):
        r = 0
        for a, s, v in parts:
            r |= (int(v) & ((1 << (8 * s)) - 1)) << (8 * a)
        h = 1 << (8 * n - 1)
        return ((r + h) & ((1 << (8 * n)) - 1)) - h
    if all(v.__class__ is Frag for v in vs) and len(parts) == n and vs[0].s == n and \
            all(v.v is vs[0].v and v.i == i for i, v in enumerate(vs)):
        return vs[0].v
    if all(v.__class__ in (int, SymInt) for v in vs):
        es = []
        for a, s, v in parts:
            es.append(v.e if v.__class__ is SymInt else z3.BitVecVal(v, 8 * s))
        return mkint(8 * n, z3.Concat(*es[::-1]))
    if any(v.__class__ is Undef for v in vs) and not any(hasattr(v, "conj") or v.__class__ is Frag for v in vs):
        return Undef(where(o.addr + off))
    return Packed(parts, n)


def memcpy(d, s, n):
    if n.__class__ is not int:
        n = int(n)
    if n == 0:
        return
    if STR:
        d, s = straddr(d, n, "write"), straddr(s, n, "read")
    od, os_ = OBJS.get(d >> SH), OBJS.get(s >> SH)
    do, so = (d & MASK) - BIAS, (s & MASK) - BIAS
    if os_ is None or so < 0 or so + n > os_.size or os_.freed:
        _bad(s, n, "read")
    if od is None or do < 0 or do + n > od.size or od.freed or od.ro:
        _bad(d, n, "write")
    g = CUR[0]
    cells = []
    if os_.es > 0 and so % os_.es == 0 and n % os_.es == 0:
        e = os_.es
        for a in range(so, so + n, e):
            v = os_.c.get(a)
            if v is not None:
                cells.append((a, e, v))
            else:
                cells.append((a, e, None))
    elif os_.es:
        if os_.es > 0:
            _mixed(os_)
        a = so
        while a < so + n:
            s1 = os_.z.get(a)
            if s1 is None or a + s1 > so + n:
                v = _slow_load(os_, a, 1, "i") if s1 is not None or any(
                    os_.z.get(b) is not None and b + os_.z[b] > a for b in range(a - 15, a)) else None
                cells.append((a, 1, v))
                a += 1
            else:
                cells.append((a, s1, os_.c[a]))
                a += s1
    if g is not None:
        for a, e, v in cells:
            g.rd.add(os_.addr + a)
            g.wr.add(od.addr + do + a - so)
    if not cells:
        # nothing ever written to the source: destination becomes uninitialised too
        _erase(od, do, n)
        return
    for a, e, v in cells:
        t = do + a - so
        if v is None:
            _erase(od, t, e)
        else:
            _put(od, t, e, v)


def _erase(o, off, n):
    if not o.es:
        return
    if o.es > 0:
        if off % o.es == 0 and n % o.es == 0:
            for a in range(off, off + n, o.es):
                o.c.pop(a, None)
            return
        _mixed(o)
    _clear(o, off, n)


def memset(d, byte, n):
    if n.__class__ is not int:
        n = int(n)
    if n == 0:
        return
    if STR:
        d = straddr(d, n, "write")
    o = OBJS.get(d >> SH)
    off = (d & MASK) - BIAS
    if o is None or off < 0 or off + n > o.size or o.freed or o.ro:
        _bad(d, n, "write")
    e = o.es if o.es > 0 else 8 if (n % 8 == 0 and off % 8 == 0 and o.size % 8 == 0 and not o.es) else 4 if n % 4 == 0 else 1
    if off % e or n % e:
        e = 1
    if byte.__class__ is not int:
        raise EngineError("symbolic memset")
    b = byte & 255
    v = 0
    for i in range(e):
        v |= b << (8 * i)
    h = 1 << (8 * e - 1)
    v = ((v + h) & ((1 << (8 * e)) - 1)) - h
    g = CUR[0]
    for a in range(off, off + n, e):
        _put(o, a, e, v)
        if g is not None:
            g.wr.add(o.addr + a)


def free_(p):
    if p == 0:
        return
    o = OBJS.get(p >> SH)
    if o is None or (p & MASK) != BIAS or o.kind != "heap":
        raise Violation("bad-free", "free of %s" % where(p))
    if o.freed:
        raise Violation("double-free", "second free of %s" % where(p))
    o.freed = True
    o.c = {}


def snapshot(o):
    return dict(o.c)
