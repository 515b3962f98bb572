"""Imports shared by the checks."""
import os, sys, itertools
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from harness import *
import harness
import dense as D
from sym import Undef, SymInt
from poly import Poly, TOP
from itertools import product
QUICK = TIER == "quick"


class K:
    """enumerators, bound by setc()"""


def setc():
    E = enum_consts()
    for n, k in (("N", "NoTrans"), ("T", "Trans"), ("H", "ConjTrans"), ("L", "Left"), ("R", "Right"), ("LO", "Lower"), ("UP", "Upper"),
                 ("GE", "General"), ("NU", "NonUnit"), ("UN", "Unit")):
        setattr(K, n, E["Plasma" + k])
    K.E = E
    K.tn = {K.N: "n", K.T: "t", K.H: "c"}
    K.un = {K.LO: "L", K.UP: "U", K.GE: "G"}
    K.sn = {K.L: "l", K.R: "r"}
    K.dn = {K.NU: "N", K.UN: "U"}
    K.TR = (K.N, K.T, K.H)
    return E


def scal(pr, kind, name, real=False):
    if kind == "s":
        return poly.cplx(name) if blas.PRS[pr].cx and not real else poly.real(name)
    return {"0": 0, "1": 1}[kind]
