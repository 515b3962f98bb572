"""Inputs of Cholesky problems: A = L L^H with symbolic L, so that the factor is known exactly and stays polynomial."""
from chk import *


def factor(pr, n, band=None, name="L"):
    """symbolic lower factor with positive diagonal, zero outside the band"""
    cx = blas.PRS[pr].cx
    return D.M(n, n, lambda i, j: poly.real("%s%d_%d" % (name, i, j), pos=True) if i == j else
               0 if i < j or (band is not None and i - j > band) else
               poly.cplx("%s%d_%d" % (name, i, j)) if cx else poly.real("%s%d_%d" % (name, i, j)))


def spoil(A, L, k, kind):
    """make the leading minor of order k+1 zero ('z') or negative ('n')"""
    s = A[k, k] - L[k, k] * L[k, k]
    A[k, k] = s if kind == "z" else s - L[k, k] * L[k, k]
    return A


def fsub(L, B):
    X = D.M(B.m, B.n)
    for j in range(B.n):
        for i in range(B.m):
            s = B[i, j]
            for k in range(i):
                if not same(L[i, k], 0):
                    s = s - L[i, k] * X[k, j]
            X[i, j] = poly.div(s, L[i, i])
    return X


def bsub(U, B):
    X = D.M(B.m, B.n)
    for j in range(B.n):
        for i in reversed(range(B.m)):
            s = B[i, j]
            for k in range(i + 1, B.m):
                if not same(U[i, k], 0):
                    s = s - U[i, k] * X[k, j]
            X[i, j] = poly.div(s, U[i, i])
    return X


def syms(pr, m, n, name):
    cx = blas.PRS[pr].cx
    return D.M(m, n, lambda i, j: poly.cplx("%s%d_%d" % (name, i, j)) if cx else poly.real("%s%d_%d" % (name, i, j)))
