"""Reference semantics (the oracle): BLAS/LAPACK definitions over exact polynomials."""
import poly
from poly import lift, cj

ZERO = poly.const(0) if hasattr(poly, "const") else lift(0)
ONE = poly.const(1) if hasattr(poly, "const") else lift(1)


class M:
    """dense matrix of exact values"""
    __slots__ = ("m", "n", "d")

    def __init__(self, m, n, f=None):
        self.m, self.n = m, n
        self.d = {(i, j): (f(i, j) if f else ZERO) for i in range(m) for j in range(n)}

    def __getitem__(self, ij):
        return self.d[ij]

    def __setitem__(self, ij, v):
        self.d[ij] = v

    def __mul__(self, o):
        if isinstance(o, M):
            assert self.n == o.m
            def f(i, j):
                s = ZERO
                for k in range(self.n):
                    a, b = self.d[i, k], o.d[k, j]
                    if (a.__class__ is not poly.Poly and a == 0) or (b.__class__ is not poly.Poly and b == 0):
                        continue
                    s = s + a * b
                return s
            return M(self.m, o.n, f)
        return M(self.m, self.n, lambda i, j: self.d[i, j] * o)

    def scale(self, s):
        return M(self.m, self.n, lambda i, j: s * self.d[i, j])

    def __add__(self, o):
        return M(self.m, self.n, lambda i, j: self.d[i, j] + o.d[i, j])

    def __sub__(self, o):
        return M(self.m, self.n, lambda i, j: self.d[i, j] - o.d[i, j])

    @property
    def T(self):
        return M(self.n, self.m, lambda i, j: self.d[j, i])

    @property
    def H(self):
        return M(self.n, self.m, lambda i, j: cj(self.d[j, i]))

    def cells(self, r=0, c=0):
        return {(i + r, j + c): v for (i, j), v in self.d.items()}

    def sub(self, i0, i1, j0, j1):
        return M(i1 - i0, j1 - j0, lambda i, j: self.d[i + i0, j + j0])

    def perm_rows(self, swaps):
        """apply interchanges (i<->p) in order; returns new matrix"""
        r = M(self.m, self.n, lambda i, j: self.d[i, j])
        for i, p in swaps:
            if i != p:
                for j in range(self.n):
                    r.d[i, j], r.d[p, j] = r.d[p, j], r.d[i, j]
        return r


def eye(n, m=None):
    return M(n, n if m is None else m, lambda i, j: ONE if i == j else ZERO)


def of(arr, m=None, n=None, r=0, c=0):
    """initial contents of an Arr"""
    return M(arr.m if m is None else m, arr.n if n is None else n, lambda i, j: arr.init[i + r, j + c])


def now(arr, m=None, n=None):
    return M(arr.m if m is None else m, arr.n if n is None else n, lambda i, j: lift(arr.get(i, j)))


def op(X, t, E):
    if t == E["PlasmaNoTrans"]:
        return X
    return X.T if t == E["PlasmaTrans"] else X.H


def tri(X, lower, unit=False):
    """triangle of X (unit diagonal replaced by ones)"""
    def f(i, j):
        if i == j:
            return ONE if unit else X[i, j]
        return X[i, j] if (i > j) == lower else ZERO
    return M(X.m, X.n, f)


def sym(X, lower, herm=False):
    def f(i, j):
        if i == j:
            return poly.re(X[i, j]) if herm else X[i, j]
        if (i > j) == lower:
            return X[i, j]
        return cj(X[j, i]) if herm else X[j, i]
    return M(X.m, X.m, f)


def intri(i, j, lower):
    return i >= j if lower else i <= j
