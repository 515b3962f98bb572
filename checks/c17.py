"""C17: the task graph of every routine orders all conflicting accesses."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from chk import *
from race import *
import api

PRECS = "zd" if QUICK else "zcds"
C = Check("C17", "zcds")
C.start()
E = setc()
SMALLK = ("kl", "ku", "kd")
FULLD = (6, 5, 7, 4, 3, 8, 1, 2)


SHAPES = ((6, 5, 7), (7, 3, 2), (3, 7, 5), (6, 6, 6), (1, 1, 1), (2, 2, 2), (5, 1, 3), (1, 5, 4), (4, 6, 3), (7, 7, 7), (8, 4, 8), (4, 8, 6), (8, 8, 8))
BANDS = ((3, 3), (1, 2), (2, 0), (0, 1), (4, 1), (1, 4), (5, 5))


def sizes(nset, cap=99):
    def f(names):
        out = []
        for s in range(nset):
            v = {}
            for q, n in enumerate(names):
                if n in SMALLK:
                    v[n] = BANDS[s % len(BANDS)][n != "kl"]
                elif n == "nrhs":
                    v[n] = (3, 1, 5)[s % 3]
                else:
                    v[n] = min(cap, SHAPES[s][("m", "n", "k").index(n)])
            out.append(v)
        return out
    return f


LU = ("gesv", "getrf", "geinv", "gbtrf", "gbsv", "hetrf", "hesv", "zcgesv", "zcgbsv", "cgesv", "cgbsv")
cases = []
for sp in api.specs():
    for pr in sp.precs:
        if pr[0] not in PRECS or not api.fname(sp, pr):
            continue
        if sp.base == "gesdd":
            continue
        seen = set()
        mixed = len(pr) > 1
        lu = sp.base in LU
        full = pr[0] == "z" or not QUICK and pr[0] == "d"

        def add(i, **kw):
            if (i.label, str(kw)) not in seen:
                seen.add((i.label, str(kw)))
                cases.append(RaceCase(i, **kw))
        for tree in ((False, True) if any(x in sp.base for x in ("qr", "lq", "gels")) else (False,)):
            for nb in ((1, 2) if full or not QUICK else (2,)):
                for i in instances(sp, pr, sizes((6 if QUICK else 13) if full else 2 if QUICK else 4, 4 * nb if mixed else 5 * nb if "sv" in sp.base else 99), nb=nb, tree=tree):
                    for seed in ((0, 1) if lu and not mixed else (0,)):
                        add(i, seed=seed)
                    if "he" in sp.base and lu:
                        add(i, team=2)
        if lu:
            for nb in (1, 2):
                for mtpf in (2, 3):
                    for i in instances(sp, pr, sizes((3 if QUICK else 8) if full else 1 if QUICK else 3, 4 * nb if mixed else 5 * nb if "sv" in sp.base else 99), nb=nb, mtpf=mtpf):
                        add(i, seed=mtpf)
C.bounds = dict(tiles="up to 8 x 8 tiles of 1 or 2 rows and columns (quick: 7 x 7), ib=1; every legal combination of options", threads="team of 4 (2 as well for Aasen)",
                schedules="all those the OpenMP 4.5 task model allows for the recorded task graph: one symbolic position per task segment",
                panel_threads="1, 2, 3", scalars="alpha, beta, matrix values: arbitrary (unknown values; outcomes of comparisons of unknown values are sampled)")
C.outside = ["gesdd (its bulge chasing synchronises through progress tables: C26)", "task graphs for other outcomes of value comparisons than the ones followed",
             "races inside BLAS and LAPACK", "the status flags of sequence and request, which are raised without synchronisation on purpose (a task that misses one computes on data that is reported as failed)", "larger tile counts", "asynchronous routines called in combinations other than the synchronous ones do"]
if __name__ == "__main__":
    C.run_cases(cases)
    C.finish(validate=0)
