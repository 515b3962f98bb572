"""C06: precision conversion converts every element once and nothing else."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from chk import *

C = Check("C06", "zcds")
C.start()
E = setc()


def lag(down, hi, m, n, pad, nb):
    lo = {"z": "c", "d": "s"}[hi]
    src, dst = (hi, lo) if down else (lo, hi)

    def make(case):
        A = Arr("A", src, m, n, max(1, m) + pad[0])
        B = Arr("B", dst, m, n, max(1, m) + pad[1])

        def exp(ret):
            return [(B, {(i, j): A.init[i, j] for i in range(m) for j in range(n)})]
        return ("plasma_%slag2%s" % (src, dst), [m, n, A, A.ld, B, B.ld], [A, B], exp)
    return CallCase("%slag2%s %dx%d pad%d,%d nb%d" % (src, dst, m, n, pad[0], pad[1], nb), make, nb=nb)


R = range(1, 7) if QUICK else range(1, 10)
cases = []
for hi in "zd":
    for down in (0, 1):
        for m, n in product(R, R):
            for pad in ((0, 0), (2, 0), (0, 1), (1, 3)):
                for nb in (2, 3):
                    cases.append(lag(down, hi, m, n, pad, nb))
        cases.append(lag(down, hi, 0, 3, (0, 0), 2))
        cases.append(lag(down, hi, 3, 0, (0, 0), 2))
C.bounds = dict(m=[0, R[-1]], n=[0, R[-1]], nb=[2, 3], data="all values (symbolic; conversions are exact in this arithmetic)")
C.outside = ["rounding and overflow of the conversion itself (done by LAPACK)", "larger dimensions"]
C.run_cases(cases)
C.finish()
