"""Happens-before check of one call: every pair of conflicting accesses must be ordered in every legal schedule."""
import time
from inst import *
import fp, mem, core


def policy(seed):
    """outcome of comparisons of unknown values: equal never, ordered ones vary"""
    k = [0]

    def f(op="lt"):
        if op == "eq":
            return False
        if op == "ne":
            return True
        k[0] += 1
        return hsh("top", seed, k[0])[0] > .75
    return f


def conflicts(nodes, skip=()):
    """pairs (a, b, address, kind) of segments with conflicting accesses, a executed before b; enough of them to imply all others"""
    acc = {}
    for s in nodes:
        for a in s.wr:
            acc.setdefault(a, []).append((s.idx, 1))
        for a in s.rd - s.wr:
            acc.setdefault(a, []).append((s.idx, 0))
    pairs = {}
    for a, l in acc.items():
        if len(l) < 2 or not any(w for _, w in l):
            continue
        o = mem.obj_of(a)
        if o is not None and o.wt is not None:
            # workspace of thread wt: tasks running on that thread exclude each other
            l = [x for x in l if nodes[x[0]].task.tid != o.wt or nodes[x[0]].task.implicit]
        l.sort()
        if any(nodes[i].label.__class__ is tuple for i, _ in l):
            for x in range(len(l)):
                for y in range(x + 1, len(l)):
                    (i, w), (j, v) = l[x], l[y]
                    if w or v:
                        li, lj = nodes[i].label, nodes[j].label
                        if li.__class__ is tuple and lj.__class__ is tuple and li[1] & lj[1]:
                            continue
                        pairs.setdefault((i, j), (a, w, v))
            continue
        lw, rs = None, []
        for i, w in l:
            if w:
                for r in rs:
                    if r != i:
                        pairs.setdefault((r, i), (a, 0, 1))
                if lw is not None and not rs:
                    pairs.setdefault((lw, i), (a, 1, 1))
                lw, rs = i, []
            else:
                if lw is not None:
                    pairs.setdefault((lw, i), (a, 1, 0))
                rs.append(i)
    return pairs


def unordered(nn, edges, pairs):
    """solver: a schedule (positions of the segments respecting every edge) that reverses some pair; None or the pair"""
    direct = set(edges)
    todo = [p for p in pairs if p not in direct]
    if not todo:
        todo = list(pairs)[:1]
        if not todo:
            return None, 0
    s = z3.SolverFor("QF_IDL")
    s.set("timeout", 120000)
    pos = [z3.Int("p%d" % i) for i in range(nn)]
    for a, b in edges:
        s.add(pos[a] < pos[b])
    s.add(z3.Or([pos[b] < pos[a] for a, b in todo]))
    r = sym.check(s)
    if r == z3.unsat:
        return None, len(todo)
    if r == z3.unknown:
        raise EngineError("solver gave no answer on the schedule query")
    m = s.model()
    P = [m.eval(x, True).as_long() for x in pos]
    for a, b in todo:
        if P[b] < P[a]:
            return (a, b, P), len(todo)
    raise EngineError("model without a reversed pair")


def where(a):
    o = mem.obj_of(a)
    return "%s+%d" % (o.name or o.kind, a - o.addr) if o is not None else hex(a)


BAR = {}


def barrier_wait(b, size):
    """plasma_barrier_wait by its meaning (its own code is the subject of C24): orders everything before with everything after"""
    st = BAR.setdefault(b, [0, 0, None])
    gen, t = st[0], RT.cur
    if st[2] is None:
        st[2] = RT.newnode(RT.new_task(None, "barrier", 0))
    bn = st[2]
    RT.edges.append((t.node, bn))
    st[1] += 1
    if st[1] == size:
        st[0], st[1], st[2] = gen + 1, 0, None
        if RT.coops is not None:
            RT.coops.progress()
    elif RT.coops is None:
        raise Violation("deadlock", "a barrier for %d threads is waited for by one" % size)
    else:
        RT.coops.wait(lambda: st[0] > gen)
    RT.advance([bn])


REAL = {}


def request_fail(*a):
    """the status flags are raised without synchronisation by design (any later read may or may not see them): not logged"""
    if "f" not in REAL:
        REAL["f"] = core.MACH.translate(*core.MACH.defs["plasma_request_fail"])
        core.MACH.encoded.add("plasma_request_fail")
    s, mem.CUR[0] = mem.CUR[0], None
    try:
        return REAL["f"](*a)
    finally:
        mem.CUR[0] = s


class RaceCase:
    def __init__(self, inst, seed=0, team=4):
        self.inst, self.seed, self.team = inst, seed, team
        self.label = inst.label + (" s%d" % seed if seed else "")

    def run(self):
        i = self.inst
        mt = i.mtpf > 1
        BAR.clear()
        if "plasma_barrier_wait" not in core.MACH.override:
            core.MACH.override["plasma_barrier_wait"] = barrier_wait
            core.MACH.override["plasma_request_fail"] = request_fail
        i.start(nthreads=self.team, log=True, top=True, coop=mt)
        fp.TOPPOLICY[0] = policy(self.seed)
        pre, (fn, args) = i.build()
        for f, a in pre:
            r = call(f, *lower(a))
            if r != 0:
                return Outcome(self.label, "error", "setup", "%s returned %r" % (f, r))
        base = len(RT.nodes)
        RT.advance()
        r = call(fn, *lower(args))
        if i.sp.rettype == "i" and not (r.__class__ is int and (r == 0 or r > 0 and i.sp.base not in ("lacpy",))):
            return Outcome(self.label, "error", "ret", "%s returned %r" % (fn, r))
        nodes = RT.nodes[base:]
        for k, s in enumerate(nodes):
            s.idx = k
        edges = [(a - base, b - base) for a, b in RT.edges if a >= base]
        pairs = conflicts(nodes)
        bad, nq = unordered(len(nodes), edges, pairs)
        if bad is None:
            o = Outcome(self.label, "ok", sample=dict(label=self.label, segments=len(nodes), edges=len(edges), pairs=len(pairs), fn=i.label.split()[0]))
            return o
        a, b, P = bad
        ad, w, v = pairs[a, b]
        return Outcome(self.label, "bad", "race", "%s of %s by task %s [%d] and %s by task %s [%d] are not ordered" % (
            "write" if w else "read", where(ad), nodes[a].task.name, nodes[a].task.id, "write" if v else "read", nodes[b].task.name, nodes[b].task.id), None)
