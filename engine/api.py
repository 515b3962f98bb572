"""The public synchronous interface, written from its documentation: argument order, the legality of every argument, when there
is nothing to compute, and the shape of the arrays.  The predicates work on integers and on z3 terms."""
import z3
from core import enum_consts


def _z(*a):
    return any(isinstance(x, z3.ExprRef) for x in a)


def mx(a, b):
    return z3.If(a >= b, a, b) if _z(a, b) else max(a, b)


def mn(a, b):
    return z3.If(a <= b, a, b) if _z(a, b) else min(a, b)


def IF(c, a, b):
    return z3.If(c, a, b) if _z(c) else (a if c else b)


def AND(*c):
    return z3.And(*c) if _z(*c) else all(c)


def OR(*c):
    return z3.Or(*c) if _z(*c) else any(c)


def NOT(c):
    return z3.Not(c) if _z(c) else not c


def IN(x, vals):
    return OR(*[x == v for v in vals])


class Spec:
    def __init__(self, base, sig, legal, trivial, shapes, real=None, cplx=None, rettype="i", scal=None, precs="zcds", assume=None,
                 trivzero=True, outs=""):
        self.base, self.legal, self.trivial, self.shapes = base, legal, trivial, shapes
        self.args = [a.split(".") for a in sig.split()]
        self.real, self.cplx = real, cplx
        self.rettype, self.precs, self.assume, self.trivzero = rettype, precs, assume, trivzero

    def name(self, pr):
        n = self.base
        if pr in "ds" and self.real:
            n = self.real
        if n is None:
            return None
        return "plasma_" + (n if "%" in n else "%" + n).replace("%", pr)

    def pos(self, arg):
        return [i for i, (k, n) in enumerate(self.args) if n == arg][0] + 1


def specs():
    E = enum_consts()
    N, T, H = E["PlasmaNoTrans"], E["PlasmaTrans"], E["PlasmaConjTrans"]
    L, R, LO, UP, GE = E["PlasmaLeft"], E["PlasmaRight"], E["PlasmaLower"], E["PlasmaUpper"], E["PlasmaGeneral"]
    NU, UN = E["PlasmaNonUnit"], E["PlasmaUnit"]
    NORMS = [E["PlasmaMaxNorm"], E["PlasmaOneNorm"], E["PlasmaInfNorm"], E["PlasmaFrobeniusNorm"]]
    CW, RW = E["PlasmaColumnwise"], E["PlasmaRowwise"]
    NOV, ALLV, SOMEV = E["PlasmaNoVec"], E["PlasmaAllVec"], E["PlasmaSomeVec"]
    tr = lambda a: (lambda e: IN(getattr(e, a), (N, T, H)))
    ul = lambda e: IN(e.uplo, (UP, LO))
    ulg = lambda e: IN(e.uplo, (UP, LO, GE))
    ge0 = lambda a: (lambda e: getattr(e, a) >= 0)
    ld = lambda a, f: (lambda e: getattr(e, a) >= mx(1, f(e)))
    m, n, k = (lambda e: e.m), (lambda e: e.n), (lambda e: e.k)
    NM = ("m", "n", "k", "nrhs", "kl", "ku", "kd")

    def dims(*a):
        return {x: ge0(x) for x in a}
    out = []

    def S(base, sig, legal, trivial, shapes, **kw):
        out.append(Spec(base, sig, legal, trivial, shapes, **kw))
    ab = lambda e: OR(e.m == 0, e.n == 0) if not (e.alpha0 and e.beta1) else True
    abk = lambda e: True if e.alpha0 and e.beta1 else OR(e.m == 0, e.n == 0, AND(e.k == 0, e.beta1))
    nk = lambda e: True if e.alpha0 and e.beta1 else OR(e.n == 0, AND(e.k == 0, e.beta1))
    amn = lambda e: IF(e.transa == N, e.m, e.k)
    S("gemm", "o.transa o.transb i.m i.n i.k s.alpha a.A i.lda a.B i.ldb s.beta a.C i.ldc",
      dict(transa=tr("transa"), transb=tr("transb"), **dims("m", "n", "k"), lda=ld("lda", amn),
           ldb=ld("ldb", lambda e: IF(e.transb == N, e.k, e.n)), ldc=ld("ldc", m)), abk,
      dict(A=lambda e: (e.m, e.k) if e.transa == N else (e.k, e.m), B=lambda e: (e.k, e.n) if e.transb == N else (e.n, e.k),
           C=lambda e: (e.m, e.n)))
    S("gbmm", "o.transa o.transb i.m i.n i.k i.kl i.ku s.alpha a.A i.lda a.B i.ldb s.beta a.C i.ldc",
      dict(transa=tr("transa"), transb=tr("transb"), **dims("m", "n", "k"), kl=lambda e: AND(e.kl >= 0, e.kl <= e.m - 1),
           ku=lambda e: AND(e.ku >= 0, e.ku <= e.k - 1), lda=ld("lda", amn),
           ldb=ld("ldb", lambda e: IF(e.transb == N, e.k, e.n)), ldc=ld("ldc", m)), abk,
      dict(A=lambda e: (e.m, e.k) if e.transa == N else (e.k, e.m), B=lambda e: (e.k, e.n) if e.transb == N else (e.n, e.k),
           C=lambda e: (e.m, e.n)), assume=lambda e: AND(OR(e.m > 0, e.kl < 0), OR(e.k > 0, e.ku < 0), OR(e.kl < 0, e.m <= 0, e.k <= 0, e.kl < IF(e.transa == N, e.m, e.k)),
                                OR(e.ku < 0, e.m <= 0, e.k <= 0, e.ku < IF(e.transa == N, e.k, e.m))))
    for b in ("symm", "hemm"):
        S(b, "o.side o.uplo i.m i.n s.alpha a.A i.lda a.B i.ldb s.beta a.C i.ldc",
          dict(side=lambda e: IN(e.side, (L, R)), uplo=ul, **dims("m", "n"), lda=ld("lda", lambda e: IF(e.side == L, e.m, e.n)),
               ldb=ld("ldb", m), ldc=ld("ldc", m)), ab,
          dict(A=lambda e: (e.m, e.m) if e.side == L else (e.n, e.n), B=lambda e: (e.m, e.n), C=lambda e: (e.m, e.n)),
          precs="zcds" if b == "symm" else "zc")
    for b in ("syrk", "herk"):
        tv = T if b == "syrk" else H
        S(b, "o.uplo o.trans i.n i.k %s.alpha a.A i.lda %s.beta a.C i.ldc" % (("s", "s") if b == "syrk" else ("r", "r")),
          dict(uplo=ul, trans=lambda e, tv=tv: IN(e.trans, (N, tv)), **dims("n", "k"),
               lda=ld("lda", lambda e: IF(e.trans == N, e.n, e.k)), ldc=ld("ldc", n)), nk,
          dict(A=lambda e: (e.n, e.k) if e.trans == N else (e.k, e.n), C=lambda e: (e.n, e.n)),
          precs="zcds" if b == "syrk" else "zc")
    for b in ("syr2k", "her2k"):
        tv = T if b == "syr2k" else H
        S(b, "o.uplo o.trans i.n i.k s.alpha a.A i.lda a.B i.ldb %s.beta a.C i.ldc" % ("s" if b == "syr2k" else "r"),
          dict(uplo=ul, trans=lambda e, tv=tv: IN(e.trans, (N, tv)), **dims("n", "k"),
               lda=ld("lda", lambda e: IF(e.trans == N, e.n, e.k)), ldb=ld("ldb", lambda e: IF(e.trans == N, e.n, e.k)),
               ldc=ld("ldc", n)), nk,
          dict(A=lambda e: (e.n, e.k) if e.trans == N else (e.k, e.n), B=lambda e: (e.n, e.k) if e.trans == N else (e.k, e.n),
               C=lambda e: (e.n, e.n)), precs="zcds" if b == "syr2k" else "zc")
    for b in ("trmm", "trsm"):
        S(b, "o.side o.uplo o.transa o.diag i.m i.n s.alpha a.A i.lda a.B i.ldb",
          dict(side=lambda e: IN(e.side, (L, R)), uplo=ul, transa=tr("transa"), diag=lambda e: IN(e.diag, (NU, UN)), **dims("m", "n"),
               lda=ld("lda", lambda e: IF(e.side == L, e.m, e.n)), ldb=ld("ldb", m)), lambda e: OR(e.m == 0, e.n == 0),
          dict(A=lambda e: (e.m, e.m) if e.side == L else (e.n, e.n), B=lambda e: (e.m, e.n)))
    S("trtri", "o.uplo o.diag i.n a.A i.lda",
      dict(uplo=ul, diag=lambda e: IN(e.diag, (NU, UN)), **dims("n"), lda=ld("lda", n)), lambda e: e.n == 0,
      dict(A=lambda e: (e.n, e.n)))
    for b in ("lauum", "potrf", "potri", "poinv"):
        S(b, "o.uplo i.n a.A i.lda", dict(uplo=ul, **dims("n"), lda=ld("lda", n)), lambda e: e.n == 0, dict(A=lambda e: (e.n, e.n)))
    for b in ("posv", "potrs"):
        S(b, "o.uplo i.n i.nrhs a.A i.lda a.B i.ldb",
          dict(uplo=ul, **dims("n", "nrhs"), lda=ld("lda", n), ldb=ld("ldb", n)), lambda e: OR(e.n == 0, e.nrhs == 0),
          dict(A=lambda e: (e.n, e.n), B=lambda e: (e.n, e.nrhs)))
    S("pbtrf", "o.uplo i.n i.kd a.AB i.ldab", dict(uplo=ul, **dims("n", "kd"), ldab=lambda e: e.ldab >= e.kd + 1), lambda e: e.n == 0,
      dict(AB=lambda e: (e.kd + 1, e.n)), assume=lambda e: e.kd < mx(1, e.n))
    for b in ("pbsv", "pbtrs"):
        S(b, "o.uplo i.n i.kd i.nrhs a.AB i.ldab a.B i.ldb",
          dict(uplo=ul, **dims("n", "kd", "nrhs"), ldab=lambda e: e.ldab >= e.kd + 1, ldb=ld("ldb", n)),
          lambda e: OR(e.n == 0, e.nrhs == 0), dict(AB=lambda e: (e.kd + 1, e.n), B=lambda e: (e.n, e.nrhs)),
          assume=lambda e: e.kd < mx(1, e.n))
    # general band: kl < m and ku < n are required by the band descriptor
    bd = lambda e: AND(e.kl < mx(1, e.n), e.ku < mx(1, e.n))
    gbrows = lambda e: (((e.ku + e.kl + e.nb - 1) // e.nb) + (e.kl + e.nb - 1) // e.nb + 1) * e.nb
    S("gbtrf", "i.m i.n i.kl i.ku a.AB i.ldab p.ipiv", dict(**dims("m", "n", "kl", "ku"), ldab=lambda e: e.ldab >= mx(1, 1 + e.kl + e.ku)),
      lambda e: OR(e.m == 0, e.n == 0), dict(AB=lambda e: (gbrows(e), e.n), ipiv=lambda e: min(e.m, e.n)),
      assume=lambda e: AND(e.kl < mx(1, e.m), e.ku < mx(1, e.n)))
    S("gbsv", "i.n i.kl i.ku i.nrhs a.AB i.ldab p.ipiv a.B i.ldb",
      dict(**dims("n", "kl", "ku", "nrhs"), ldab=lambda e: e.ldab >= mx(1, 1 + e.kl + e.ku), ldb=ld("ldb", n)),
      lambda e: OR(e.n == 0, e.nrhs == 0), dict(AB=lambda e: (gbrows(e), e.n), ipiv=n, B=lambda e: (e.n, e.nrhs)), assume=bd)
    S("gbtrs", "o.trans i.n i.kl i.ku i.nrhs a.AB i.ldab q.ipiv a.B i.ldb",
      dict(trans=tr("trans"), **dims("n", "kl", "ku", "nrhs"), ldab=lambda e: e.ldab >= mx(1, 1 + e.kl + e.ku), ldb=ld("ldb", n)),
      lambda e: OR(e.n == 0, e.nrhs == 0), dict(AB=lambda e: (gbrows(e), e.n), ipiv=n, B=lambda e: (e.n, e.nrhs)), assume=bd)
    S("geadd", "o.transa i.m i.n s.alpha a.A i.lda s.beta a.B i.ldb",
      dict(transa=tr("transa"), **dims("m", "n"), lda=ld("lda", lambda e: IF(e.transa == N, e.m, e.n)), ldb=ld("ldb", m)), ab,
      dict(A=lambda e: (e.m, e.n) if e.transa == N else (e.n, e.m), B=lambda e: (e.m, e.n)))
    S("tradd", "o.uplo o.transa i.m i.n s.alpha a.A i.lda s.beta a.B i.ldb",
      dict(uplo=ul, transa=tr("transa"), **dims("m", "n"), lda=ld("lda", lambda e: IF(e.transa == N, e.m, e.n)), ldb=ld("ldb", m)), ab,
      dict(A=lambda e: (e.m, e.n) if e.transa == N else (e.n, e.m), B=lambda e: (e.m, e.n)))
    # transposed copies are limited to square matrices
    S("lacpy", "o.uplo o.transa i.m i.n a.A i.lda a.B i.ldb",
      dict(uplo=ulg, transa=tr("transa"), m=lambda e: e.m >= 0, n=ge0("n"), lda=ld("lda", m),
           ldb=ld("ldb", lambda e: IF(e.transa == N, e.m, e.n))), lambda e: OR(e.m == 0, e.n == 0),
      dict(A=lambda e: (e.m, e.n), B=lambda e: (e.m, e.n) if e.transa == N else (e.n, e.m)),
      assume=lambda e: OR(e.transa == N, e.m == e.n))
    S("laset", "o.uplo i.m i.n s.alpha s.beta a.A i.lda", dict(uplo=ulg, **dims("m", "n"), lda=ld("lda", m)),
      lambda e: OR(e.m == 0, e.n == 0), dict(A=lambda e: (e.m, e.n)))
    S("lascl", "o.uplo r.cfrom r.cto i.m i.n a.A i.lda",
      dict(uplo=ulg, cfrom=lambda e: not e.cfrom0, **dims("m", "n"), lda=ld("lda", m)), lambda e: OR(e.m == 0, e.n == 0),
      dict(A=lambda e: (e.m, e.n)))
    S("geswp", "o.colrow i.m i.n a.A i.lda q.ipiv i.incx",
      dict(colrow=lambda e: IN(e.colrow, (CW, RW)), **dims("m", "n"), lda=ld("lda", m)), lambda e: OR(e.m == 0, e.n == 0),
      dict(A=lambda e: (e.m, e.n), ipiv=lambda e: e.m if e.colrow == RW else e.n), assume=lambda e: IN(e.incx, (1, -1)))
    nr = lambda e: IN(e.norm, NORMS)
    S("lange", "o.norm i.m i.n a.A i.lda", dict(norm=nr, **dims("m", "n"), lda=ld("lda", m)), lambda e: OR(e.m == 0, e.n == 0),
      dict(A=lambda e: (e.m, e.n)), rettype="f")
    for b in ("lansy", "lanhe"):
        S(b, "o.norm o.uplo i.n a.A i.lda", dict(norm=nr, uplo=ul, **dims("n"), lda=ld("lda", n)), lambda e: e.n == 0,
          dict(A=lambda e: (e.n, e.n)), rettype="f", precs="zcds" if b == "lansy" else "zc")
    S("lantr", "o.norm o.uplo o.diag i.m i.n a.A i.lda",
      dict(norm=nr, uplo=ul, diag=lambda e: IN(e.diag, (NU, UN)), **dims("m", "n"), lda=ld("lda", m)),
      lambda e: OR(e.m == 0, e.n == 0), dict(A=lambda e: (e.m, e.n)), rettype="f")
    S("langb", "o.norm i.m i.n i.kl i.ku a.AB i.ldab",
      dict(norm=nr, **dims("m", "n", "kl", "ku"), ldab=lambda e: e.ldab >= mx(1, 1 + e.kl + e.ku)), lambda e: OR(e.m == 0, e.n == 0),
      dict(AB=lambda e: (gbrows(e), e.n)), rettype="f", assume=lambda e: AND(e.kl < mx(1, e.m), e.ku < mx(1, e.n)))
    S("amax", "o.colrow i.m i.n a.A i.lda v.values", dict(colrow=lambda e: IN(e.colrow, (CW, RW)), **dims("m", "n"), lda=ld("lda", m)),
      lambda e: OR(e.m == 0, e.n == 0), dict(A=lambda e: (e.m, e.n), values=lambda e: e.n if e.colrow == CW else e.m))
    # LU
    S("getrf", "i.m i.n a.A i.lda p.ipiv", dict(**dims("m", "n"), lda=ld("lda", m)), lambda e: OR(e.m == 0, e.n == 0),
      dict(A=lambda e: (e.m, e.n), ipiv=lambda e: min(e.m, e.n)))
    S("gesv", "i.n i.nrhs a.A i.lda p.ipiv a.B i.ldb", dict(**dims("n", "nrhs"), lda=ld("lda", n), ldb=ld("ldb", n)),
      lambda e: OR(e.n == 0, e.nrhs == 0), dict(A=lambda e: (e.n, e.n), ipiv=n, B=lambda e: (e.n, e.nrhs)))
    S("getrs", "o.trans i.n i.nrhs a.A i.lda q.ipiv a.B i.ldb",
      dict(trans=tr("trans"), **dims("n", "nrhs"), lda=ld("lda", n), ldb=ld("ldb", n)), lambda e: OR(e.n == 0, e.nrhs == 0),
      dict(A=lambda e: (e.n, e.n), ipiv=n, B=lambda e: (e.n, e.nrhs)))
    S("getri", "i.n a.A i.lda q.ipiv", dict(**dims("n"), lda=ld("lda", n)), lambda e: e.n == 0, dict(A=lambda e: (e.n, e.n), ipiv=n))
    S("getri_aux", "i.n a.A i.lda", dict(**dims("n"), lda=ld("lda", n)), lambda e: e.n == 0, dict(A=lambda e: (e.n, e.n)))
    # the inverse exists for square matrices only
    S("geinv", "i.m i.n a.A i.lda p.ipiv", dict(**dims("m", "n"), lda=ld("lda", n)), lambda e: OR(e.m == 0, e.n == 0),
      dict(A=lambda e: (e.m, e.n), ipiv=lambda e: min(e.m, e.n)), assume=lambda e: OR(e.m == e.n, e.m < 0, e.n < 0))
    # QR/LQ
    for b in ("geqrf", "gelqf"):
        S(b, "i.m i.n a.A i.lda T.T", dict(**dims("m", "n"), lda=ld("lda", m)), lambda e: OR(e.m == 0, e.n == 0),
          dict(A=lambda e: (e.m, e.n)))
    S("geqrs", "i.m i.n i.nrhs a.A i.lda D.T a.B i.ldb",
      dict(m=ge0("m"), n=lambda e: AND(e.n >= 0, e.n <= e.m), nrhs=ge0("nrhs"), lda=ld("lda", m), ldb=ld("ldb", m)),
      lambda e: OR(e.m == 0, e.n == 0, e.nrhs == 0), dict(A=lambda e: (e.m, e.n), B=lambda e: (e.m, e.nrhs)))
    S("gelqs", "i.m i.n i.nrhs a.A i.lda D.T a.B i.ldb",
      dict(m=ge0("m"), n=lambda e: AND(e.n >= 0, e.n >= e.m), nrhs=ge0("nrhs"), lda=ld("lda", m), ldb=ld("ldb", n)),
      lambda e: OR(e.m == 0, e.n == 0, e.nrhs == 0), dict(A=lambda e: (e.m, e.n), B=lambda e: (e.n, e.nrhs)))
    S("gels", "o.trans i.m i.n i.nrhs a.A i.lda T.T a.B i.ldb",
      dict(trans=lambda e: IN(e.trans, (N, H if e.cx else T)), **dims("m", "n", "nrhs"), lda=ld("lda", m),
           ldb=ld("ldb", lambda e: mx(e.m, e.n))), lambda e: OR(e.m == 0, e.n == 0, e.nrhs == 0),
      dict(A=lambda e: (e.m, e.n), B=lambda e: (mx(e.m, e.n), e.nrhs)), trivzero=False,
      assume=lambda e: OR(e.nrhs != 0, AND(e.m <= 6, e.n <= 6)))
    for b, r in (("unmqr", "ormqr"), ("unmlq", "ormlq")):
        q = b == "unmqr"
        S(b, "o.side o.trans i.m i.n i.k a.A i.lda D.T a.C i.ldc",
          dict(side=lambda e: IN(e.side, (L, R)), trans=lambda e: IN(e.trans, (N, H if e.cx else T)), **dims("m", "n"),
               k=lambda e: AND(e.k >= 0, e.k <= IF(e.side == L, e.m, e.n)),
               lda=ld("lda", (lambda e: IF(e.side == L, e.m, e.n)) if q else k), ldc=ld("ldc", m)),
          lambda e: OR(e.m == 0, e.n == 0, e.k == 0),
          dict(A=(lambda e: (e.m if e.side == L else e.n, e.k)) if q else (lambda e: (e.k, e.m if e.side == L else e.n)),
               C=lambda e: (e.m, e.n)), real=r)
    S("ungqr", "i.m i.n i.k a.A i.lda D.T a.Q i.ldq",
      dict(m=ge0("m"), n=lambda e: AND(e.n >= 0, e.n <= e.m), k=lambda e: AND(e.k >= 0, e.k <= e.n), lda=ld("lda", m), ldq=ld("ldq", m)),
      lambda e: OR(e.m == 0, e.n == 0), dict(A=lambda e: (e.m, e.k), Q=lambda e: (e.m, e.n)), real="orgqr")
    S("unglq", "i.m i.n i.k a.A i.lda D.T a.Q i.ldq",
      dict(m=ge0("m"), n=lambda e: AND(e.n >= 0, e.n >= e.m), k=lambda e: AND(e.k >= 0, e.k <= e.m), lda=ld("lda", m), ldq=ld("ldq", m)),
      lambda e: OR(e.m == 0, e.n == 0), dict(A=lambda e: (e.k, e.n), Q=lambda e: (e.m, e.n)), real="orglq")
    # Aasen (lower only, as documented)
    lo = lambda e: e.uplo == LO
    trows = lambda e: 4 * e.nb
    S("hetrf", "o.uplo i.n a.A i.lda p.ipiv a.T i.ldt p.ipiv2", dict(uplo=lo, **dims("n"), lda=ld("lda", n)), lambda e: e.n == 0,
      dict(A=lambda e: (e.n, e.n), ipiv=n, T=lambda e: (trows(e), e.n), ipiv2=n), real="sytrf")
    for b, r in (("hesv", "sysv"), ("hetrs", "sytrs")):
        q = "p" if b == "hesv" else "q"
        S(b, "o.uplo i.n i.nrhs a.A i.lda %s.ipiv a.T i.ldt %s.ipiv2 a.B i.ldb" % (q, q),
          dict(uplo=lo, **dims("n", "nrhs"), lda=ld("lda", n), ldb=ld("ldb", n)), lambda e: OR(e.n == 0, e.nrhs == 0),
          dict(A=lambda e: (e.n, e.n), ipiv=n, T=lambda e: (trows(e), e.n), ipiv2=n, B=lambda e: (e.n, e.nrhs)), real=r)
    S("gesdd", "o.jobu o.jobvt i.m i.n a.A i.lda T.T v.S a.U i.ldu a.VT i.ldvt",
      dict(jobu=lambda e: IN(e.jobu, (NOV, ALLV, SOMEV)), jobvt=lambda e: AND(IN(e.jobvt, (NOV, ALLV, SOMEV)), e.jobvt == e.jobu),
           **dims("m", "n"), lda=ld("lda", m), ldu=lambda e: AND(e.ldu >= 1, OR(e.jobu == NOV, e.ldu >= e.m)),
           ldvt=lambda e: AND(e.ldvt >= 1, OR(e.jobvt != ALLV, e.ldvt >= e.n), OR(e.jobvt != SOMEV, e.ldvt >= mn(e.m, e.n)))),
      lambda e: OR(e.m == 0, e.n == 0),
      dict(A=lambda e: (e.m, e.n), S=lambda e: min(e.m, e.n), U=lambda e: (e.m, e.m), VT=lambda e: (e.n, e.n)),
      assume=lambda e: OR(e.m <= 0, e.n <= 0, AND(e.m >= e.nb, e.n >= e.nb)))
    # mixed precision; % is the precision pair
    S("%gesv", "i.n i.nrhs a.A i.lda p.ipiv a.B i.ldb a.X i.ldx I.iter",
      dict(**dims("n", "nrhs"), lda=ld("lda", n), ldb=ld("ldb", n), ldx=ld("ldx", n)), lambda e: OR(e.n == 0, e.nrhs == 0),
      dict(A=lambda e: (e.n, e.n), ipiv=n, B=lambda e: (e.n, e.nrhs), X=lambda e: (e.n, e.nrhs), iter=lambda e: 1), precs=("zc", "ds"))
    S("%posv", "o.uplo i.n i.nrhs a.A i.lda a.B i.ldb a.X i.ldx I.iter",
      dict(uplo=ul, **dims("n", "nrhs"), lda=ld("lda", n), ldb=ld("ldb", n), ldx=ld("ldx", n)), lambda e: OR(e.n == 0, e.nrhs == 0),
      dict(A=lambda e: (e.n, e.n), B=lambda e: (e.n, e.nrhs), X=lambda e: (e.n, e.nrhs), iter=lambda e: 1), precs=("zc", "ds"))
    S("%gbsv", "i.n i.kl i.ku i.nrhs a.AB i.ldab p.ipiv a.B i.ldb a.X i.ldx I.iter",
      dict(**dims("n", "kl", "ku", "nrhs"), ldab=lambda e: e.ldab >= mx(1, 1 + e.kl + e.ku), ldb=ld("ldb", n), ldx=ld("ldx", n)),
      lambda e: OR(e.n == 0, e.nrhs == 0),
      dict(AB=lambda e: (gbrows(e), e.n), ipiv=n, B=lambda e: (e.n, e.nrhs), X=lambda e: (e.n, e.nrhs), iter=lambda e: 1), assume=bd,
      precs=("zc", "ds"))
    S("lag2", "i.m i.n a.A i.lda b.As i.ldas", dict(**dims("m", "n"), lda=ld("lda", m), ldas=ld("ldas", m)),
      lambda e: OR(e.m == 0, e.n == 0), dict(A=lambda e: (e.m, e.n), As=lambda e: (e.m, e.n)), precs=("zc", "ds", "cz", "sd"))
    return out


def fname(s, pr):
    """name of the routine for a precision or precision pair"""
    if s.base == "amax":
        return "plasma_" + {"z": "dzamax", "c": "scamax", "d": "damax", "s": "samax"}[pr]
    if s.base == "lag2":
        return "plasma_%slag2%s" % (pr[0], pr[1])
    return s.name(pr)
