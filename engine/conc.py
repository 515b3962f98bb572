"""Symbolic interleavings of one small concurrent function, encoded from its LLVM IR.

Every shared access (load, store, atomicrmw, cmpxchg) is one step; the code between two accesses is executed symbolically.
The scheduler is a symbolic choice per step.  Optionally every thread has a store buffer of one entry (x86-TSO; locked
instructions drain it)."""
import z3, time
import llvmc as L
from sym import EngineError
import sym

ENTER, DONE = 0, 1
NOOPS = ("llvm.dbg", "llvm.lifetime", "llvm.x86.sse2.pause", "sched_yield", "usleep", "__kmpc_omp_taskyield", "llvm.assume", "llvm.experimental.noalias")


def bvw(t):
    k = L.TK[L.TypeKind(t)]
    if k == "int":
        return L.IntWidth(t)
    if k == "ptr":
        return 0
    raise EngineError("value of type %s in concurrent code" % k)


class Loc:
    def __init__(self, key, ins, stack, live):
        self.key, self.ins, self.stack, self.live = key, ins, stack, live


class Prog:
    """locations and local transitions of function `name` called with `args` (("p", off) pointers into the shared object, or integers)"""

    def __init__(self, mach, name, args):
        self.m = mach
        self.name = name
        self.locs = {}
        self.order = []
        self.livec = {}
        self.cells = {}
        self.funcs = set()
        mod, f = mach.defs[name]
        self.mod, self.f = mod, f
        self.args = args
        self.offs = {}
        self.nslots = 0
        # entry: local paths from the start of the function
        self.entry = self.paths(self.start_env(), ((f, None),), L.FirstBB(f), None, L.FirstInst(L.FirstBB(f)))
        k = 0
        self.trans = {}
        while k < len(self.order):
            loc = self.order[k]
            self.trans[loc.key] = self.expand(loc)
            k += 1
            if k > 60:
                raise EngineError("too many shared accesses")

    # -- helpers ------------------------------------------------------------------------
    def start_env(self):
        e = {}
        for i, a in enumerate(self.args):
            p = L.GetParam(self.f, i)
            e[0, p] = a if a.__class__ is tuple else z3.BitVecVal(a, bvw(L.TypeOf(p)))
        return e

    def val(self, env, d, v):
        k = L.ValueKind(v)
        if k == 18:
            w = L.IntWidth(L.TypeOf(v))
            x = L.SExt(v)
            return z3.BoolVal(bool(x)) if w == 1 else z3.BitVecVal(x, w)
        if k == 20:
            return ("null", 0)
        if k in (14, 25):
            raise EngineError("undefined value in concurrent code")
        if k == 8:
            raise EngineError("global in concurrent code")
        r = env.get((d, v))
        if r is None:
            raise EngineError("no value for %s" % L.show(v))
        return r

    def live_after(self, f):
        """per instruction: SSA values live just before it"""
        c = self.livec.get(f)
        if c is not None:
            return c
        blocks, b = [], L.FirstBB(f)
        while b:
            ins, i = [], L.FirstInst(b)
            while i:
                ins.append(i)
                i = L.NextInst(i)
            blocks.append((b, ins))
            b = L.NextBB(b)
        livein = {b: set() for b, _ in blocks}
        before = {}

        def ops(i):
            for n in range(L.NumOperands(i)):
                o = L.GetOperand(i, n)
                if L.ValueKind(o) in (0, 24):
                    yield o
        ch = True
        while ch:
            ch = False
            for b, ins in reversed(blocks):
                t = ins[-1]
                live = set()
                if L.OP[L.Opcode(t)] in ("br", "switch"):
                    for s in range(L.NumSucc(t)):
                        sb = L.GetSucc(t, s)
                        live |= livein[sb]
                        i = L.FirstInst(sb)
                        while L.OP[L.Opcode(i)] == "phi":
                            live.discard(i)
                            for n in range(L.CountIncoming(i)):
                                v = L.IncomingValue(i, n)
                                if L.IncomingBlock(i, n) == b and L.ValueKind(v) in (0, 24):
                                    live.add(v)
                            i = L.NextInst(i)
                for i in reversed(ins):
                    live = set(live)
                    live.discard(i)
                    if L.OP[L.Opcode(i)] != "phi":
                        live |= set(ops(i))
                    before[i] = live
                # phis are defined at block entry: their own operands count for the predecessors
                if live != livein[b]:
                    livein[b] = live
                    ch = True
        self.livec[f] = before
        return before

    def mkloc(self, env, stack, ins):
        key = tuple(s[1] for s in stack[1:]) + (ins,)
        loc = self.locs.get(key)
        live = []
        for d, (f, call) in enumerate(stack):
            bf = self.live_after(f)
            at = stack[d + 1][1] if d + 1 < len(stack) else ins
            vs = set(bf[at])
            if d + 1 < len(stack):
                nx = L.NextInst(at)
                vs = (set(bf[nx]) if nx else set()) - {at}
            for v in vs:
                live.append((d, v))
        for k in env:
            if k[0] == "m":
                live.append(k)
        if loc is None:
            loc = Loc(key, ins, stack, None)
            loc.idx = len(self.order) + 2
            loc.live, loc.const, loc.width = [], {}, {}
            for k in sorted(live, key=str):
                x = env.get(k)
                if x is None:
                    continue
                if x.__class__ is tuple:
                    loc.const[k] = x
                else:
                    loc.live.append(k)
                    loc.width[k] = 1 if z3.is_bool(x) else x.size()
            self.nslots = max(self.nslots, len(loc.live))
            self.locs[key] = loc
            self.order.append(loc)
        else:
            for k, c in loc.const.items():
                if env.get(k) != c:
                    raise EngineError("pointer varies at a shared access")
        return loc

    def slot_env(self, loc, slots):
        env = dict(loc.const)
        for n, k in enumerate(loc.live):
            w = loc.width[k]
            env[k] = z3.Extract(0, 0, slots[n]) == 1 if w == 1 else z3.Extract(w - 1, 0, slots[n]) if w < 64 else slots[n]
        return env

    def pack(self, loc, env):
        out = []
        for k in loc.live:
            x = env[k]
            if z3.is_bool(x):
                x = z3.If(x, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
            elif x.size() < 64:
                x = z3.ZeroExt(64 - x.size(), x)
            out.append(z3.simplify(x))
        return out

    def addr(self, p):
        if p.__class__ is not tuple or p[0] != "p":
            raise EngineError("access through %r" % (p,))
        return p[1]

    # -- local execution ----------------------------------------------------------------
    def paths(self, env, stack, bb, prev, ins, cond=None, depth=0):
        """list of (condition, Loc or None for return, env)"""
        cond = cond if cond is not None else z3.BoolVal(True)
        env = dict(env)
        d = len(stack) - 1
        steps = 0
        while True:
            steps += 1
            if steps > 400 or depth > 60:
                return [(cond, "hang", env)]
            op = L.OP[L.Opcode(ins)]
            self.funcs.add(L.name(stack[-1][0]))
            nxt = L.NextInst(ins)
            if op == "phi":
                vals = []
                i = ins
                while L.OP[L.Opcode(i)] == "phi":
                    for n in range(L.CountIncoming(i)):
                        if L.IncomingBlock(i, n) == prev:
                            vals.append((i, self.val(env, d, L.IncomingValue(i, n))))
                    i = L.NextInst(i)
                for k, v in vals:
                    env[d, k] = v
                ins = i
                continue
            o = lambda n: self.val(env, d, L.GetOperand(ins, n))
            if op == "alloca":
                env[d, ins] = ("s", (d, ins), 0)
            elif op == "gep":
                p = o(0)
                off = 0
                ty = L.GEPType(ins)
                for i in range(1, L.NumOperands(ins)):
                    x = o(i)
                    x = z3.simplify(x)
                    if not z3.is_bv_value(x):
                        raise EngineError("computed address in concurrent code")
                    x = x.as_signed_long()
                    if i == 1:
                        off += x * L.SizeOf(self.mod.td, ty)
                    elif L.TK[L.TypeKind(ty)] == "struct":
                        off += L.OffsetOf(self.mod.td, ty, x)
                        ty = L.StructElem(ty, x)
                    else:
                        ty = L.ElemType(ty)
                        off += x * L.SizeOf(self.mod.td, ty)
                env[d, ins] = (p[0], p[1] + off) if p[0] == "p" else (p[0], p[1], p[2] + off)
            elif op in ("load", "store", "atomicrmw", "cmpxchg"):
                p = self.val(env, d, L.GetOperand(ins, 1 if op == "store" else 0))
                if p[0] == "s":
                    if op == "load":
                        env[d, ins] = env[("m", p[1], p[2])]
                    elif op == "store":
                        env["m", p[1], p[2]] = o(0)
                    else:
                        raise EngineError("atomic on a local")
                else:
                    return [(cond, self.mkloc(env, stack, ins), env)]
            elif op == "fence":
                return [(cond, self.mkloc(env, stack, ins), env)]
            elif op == "icmp":
                a, b = o(0), o(1)
                c = L.ICMP[L.ICmpPred(ins)]
                if a.__class__ is tuple:
                    r = z3.BoolVal((a == b) == (c == "eq"))
                else:
                    if z3.is_bool(a):
                        a, b = z3.If(a, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)), z3.If(b, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
                    r = {"eq": lambda: a == b, "ne": lambda: a != b, "ugt": lambda: z3.UGT(a, b), "uge": lambda: z3.UGE(a, b), "ult": lambda: z3.ULT(a, b),
                         "ule": lambda: z3.ULE(a, b), "sgt": lambda: a > b, "sge": lambda: a >= b, "slt": lambda: a < b, "sle": lambda: a <= b}[c]()
                env[d, ins] = z3.simplify(r)
            elif op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "srem", "urem", "sdiv", "udiv"):
                a, b = o(0), o(1)
                if z3.is_bool(a):
                    r = {"and": z3.And, "or": z3.Or, "xor": z3.Xor}[op](a, b)
                else:
                    r = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b,
                         "shl": lambda: a << b, "lshr": lambda: z3.LShR(a, b), "ashr": lambda: a >> b, "srem": lambda: z3.SRem(a, b), "urem": lambda: z3.URem(a, b),
                         "sdiv": lambda: a / b, "udiv": lambda: z3.UDiv(a, b)}[op]()
                env[d, ins] = z3.simplify(r)
            elif op in ("zext", "sext", "trunc"):
                a = o(0)
                w = bvw(L.TypeOf(ins))
                if z3.is_bool(a):
                    a = z3.If(a, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
                    if w == 1:
                        raise EngineError("cast")
                r = z3.ZeroExt(w - a.size(), a) if op == "zext" else z3.SignExt(w - a.size(), a) if op == "sext" else z3.Extract(w - 1, 0, a)
                env[d, ins] = z3.simplify(r == 1 if w == 1 else r)
            elif op == "freeze":
                env[d, ins] = o(0)
            elif op == "select":
                c, a, b = o(0), o(1), o(2)
                if a.__class__ is tuple:
                    if a != b:
                        raise EngineError("selected address")
                    env[d, ins] = a
                else:
                    env[d, ins] = z3.simplify(z3.If(c, a, b))
            elif op == "extractvalue":
                env[d, ins] = o(0)[1 + L.GetIndices(ins)[0]]
            elif op == "call":
                cv = L.CalledValue(ins)
                n = L.name(cv)
                if any(n.startswith(x) for x in NOOPS):
                    if n == "__kmpc_omp_taskyield":
                        env[d, ins] = z3.BitVecVal(0, 32)
                elif n == "omp_get_thread_num" or n not in self.m.defs and L.IsDeclaration(cv):
                    if "asm" in L.show(ins) and n == "":
                        pass
                    else:
                        raise EngineError("call of %s in concurrent code" % n)
                else:
                    g = cv if not L.IsDeclaration(cv) else self.m.defs[n][1]
                    if len(stack) > 4:
                        raise EngineError("deep calls")
                    for i in range(L.CountParams(g)):
                        env[d + 1, L.GetParam(g, i)] = o(i)
                    stack = stack + ((g, ins),)
                    d += 1
                    prev, bb = None, L.FirstBB(g)
                    ins = L.FirstInst(bb)
                    continue
            elif op == "br":
                if not L.IsConditional(ins):
                    prev, bb = bb, L.GetSucc(ins, 0)
                    ins = L.FirstInst(bb)
                    depth += 1
                    continue
                c = z3.simplify(self.val(env, d, L.GetCondition(ins)))
                t, e = L.GetSucc(ins, 0), L.GetSucc(ins, 1)
                if z3.is_true(c) or z3.is_false(c):
                    prev, bb = bb, t if z3.is_true(c) else e
                    ins = L.FirstInst(bb)
                    depth += 1
                    continue
                out = []
                for cc, x in ((c, t), (z3.Not(c), e)):
                    nc = z3.simplify(z3.And(cond, cc))
                    s = z3.Solver()
                    s.add(nc)
                    if s.check() == z3.unsat:
                        continue
                    out += self.paths(env, stack, x, bb, L.FirstInst(x), nc, depth + 1)
                return out
            elif op == "ret":
                if d == 0:
                    return [(cond, None, env)]
                call = stack[-1][1]
                rv = o(0) if L.NumOperands(ins) else None
                for k in [k for k in env if k[0] == d]:
                    del env[k]
                stack = stack[:-1]
                d -= 1
                if rv is not None:
                    env[d, call] = rv
                bb, prev = None, None
                b = L.FirstBB(stack[-1][0])
                while b:                      # block of the call
                    i = L.FirstInst(b)
                    while i and i != call:
                        i = L.NextInst(i)
                    if i:
                        bb = b
                        break
                    b = L.NextBB(b)
                ins = L.NextInst(call)
                continue
            else:
                raise EngineError("instruction %s in concurrent code" % op)
            ins = nxt

    def block_of(self, f, ins):
        b = L.FirstBB(f)
        while b:
            i = L.FirstInst(b)
            while i:
                if i == ins:
                    return b
                i = L.NextInst(i)
            b = L.NextBB(b)

    def cell(self, off, w):
        o = self.cells.setdefault(off, w)
        if o != w:
            raise EngineError("mixed access widths")
        return off

    def expand(self, loc):
        """symbolic step at loc: dict(kind, off, ...)"""
        ins = loc.ins
        op = L.OP[L.Opcode(ins)]
        slots = [z3.BitVec("slot%d" % n, 64) for n in range(len(loc.live))]
        env = self.slot_env(loc, slots)
        d = len(loc.stack) - 1
        st = dict(op=op, slots=slots)
        if op == "fence":
            st["off"] = None
            w = 0
        else:
            st["off"] = self.addr(self.val(env, d, L.GetOperand(ins, 1 if op == "store" else 0)))
            w = bvw(L.TypeOf(L.GetOperand(ins, 0)) if op == "store" else L.TypeOf(ins) if op == "load" else L.TypeOf(L.GetOperand(ins, 1)))
            self.cell(st["off"], w)
        mv = z3.BitVec("memval", max(w, 1))
        st["mv"] = mv
        st["new"] = None
        if op == "load":
            env[d, ins] = mv
        elif op == "store":
            st["new"] = self.val(env, d, L.GetOperand(ins, 0))
            st["sc"] = L.GetOrdering(ins) == 7
        elif op == "atomicrmw":
            a = self.val(env, d, L.GetOperand(ins, 1))
            k = L.RMWOp(ins)
            st["new"] = {0: lambda: a, 1: lambda: mv + a, 2: lambda: mv - a, 3: lambda: mv & a, 5: lambda: mv | a, 6: lambda: mv ^ a}[k]()
            env[d, ins] = mv
        elif op == "cmpxchg":
            e, n = self.val(env, d, L.GetOperand(ins, 1)), self.val(env, d, L.GetOperand(ins, 2))
            ok = mv == e
            st["new"] = z3.If(ok, n, mv)
            env[d, ins] = ("agg", mv, ok)
        nx = L.NextInst(ins)
        outs = self.paths(env, loc.stack, self.block_of(loc.stack[-1][0], ins), None, nx)
        st["outs"] = outs
        return st


class Model:
    """N threads calling the function G times each"""

    def __init__(self, prog, n, g, tso=False, init=None):
        self.p, self.n, self.g, self.tso = prog, n, g, tso
        self.init = init or {}
        self.cells = sorted(prog.cells)
        self.entry = prog.entry
        self.has_hang = False

    def var(self, k):
        s = {}
        for i in range(self.n):
            s["pc", i] = z3.BitVec("pc%d_%d" % (i, k), 6)
            s["in", i] = z3.BitVec("in%d_%d" % (i, k), 4)
            s["out", i] = z3.BitVec("out%d_%d" % (i, k), 4)
            for n in range(self.p.nslots):
                s["r", i, n] = z3.BitVec("r%d_%d_%d" % (i, n, k), 64)
            if self.tso:
                s["bo", i] = z3.BitVec("bo%d_%d" % (i, k), 6)     # 63: empty, else index of the cell
                s["bv", i] = z3.BitVec("bv%d_%d" % (i, k), 64)
        for c in self.cells:
            s["m", c] = z3.BitVec("m%d_%d" % (c, k), self.p.cells[c])
        return s

    def first(self):
        s = {}
        b = z3.BitVecVal
        for i in range(self.n):
            s["pc", i], regs = self.begin()
            s["in", i], s["out", i] = b(0, 4), b(0, 4)
            for n in range(self.p.nslots):
                s["r", i, n] = regs[n] if n < len(regs) else b(0, 64)
            if self.tso:
                s["bo", i], s["bv", i] = b(63, 6), b(0, 64)
        for c in self.cells:
            v = self.init.get(c, 0)
            s["m", c] = b(v, self.p.cells[c]) if v.__class__ is int else v
        return s

    def goto(self, s, i, outs, sub):
        """assign pc and registers of thread i according to the local paths"""
        new = {}
        pc = None
        regs = [None] * self.p.nslots
        outc = s["out", i]
        for cond, tgt, env in reversed(outs):
            c = sub(cond)
            if tgt is None or tgt == "hang":
                if tgt == "hang":
                    self.has_hang = True
                if tgt == "hang":
                    npc, nr, no = z3.BitVecVal(62, 6), [], s["out", i]
                else:
                    last = s["out", i] + 1 == self.g
                    npc, nr = self.begin()
                    npc = z3.If(last, z3.BitVecVal(DONE, 6), npc)
                    nr = [z3.If(last, z3.BitVecVal(0, 64), x) for x in nr]
                    no = s["out", i] + 1
            else:
                npc = z3.BitVecVal(tgt.idx, 6)
                nr = [sub(x) for x in self.p.pack(tgt, env)]
                no = s["out", i]
            nr = nr + [z3.BitVecVal(0, 64)] * (self.p.nslots - len(nr))
            if pc is None:
                pc, regs, outc = npc, nr, no
            else:
                pc = z3.If(c, npc, pc)
                regs = [z3.If(c, a, b) for a, b in zip(nr, regs)]
                outc = z3.If(c, no, outc)
        new["pc", i] = pc
        new["out", i] = outc
        for n in range(self.p.nslots):
            new["r", i, n] = regs[n]
        return new

    def begin(self):
        """pc and registers of a thread about to make its first shared access of a call (it counts as entered from that access on,
        which no other thread can tell from an earlier entry)"""
        if len(self.entry) != 1 or self.entry[0][1] in (None, "hang"):
            raise EngineError("no shared access at the start of the call")
        loc, env = self.entry[0][1:]
        r = self.p.pack(loc, env)
        return z3.BitVecVal(loc.idx, 6), r + [z3.BitVecVal(0, 64)] * (self.p.nslots - len(r))

    def step(self, s, i):
        """thread i takes one step (state dict -> dict of changed variables)"""
        p = self.p
        cur = {}
        alts = []
        for loc in p.order:
            t = p.trans[loc.key]
            off = t["off"]
            lock = t["op"] in ("atomicrmw", "cmpxchg", "fence") or t["op"] == "store" and t.get("sc")
            guard = s["pc", i] == loc.idx
            new = {}
            if off is not None:
                w = p.cells[off]
                ci = self.cells.index(off)
                mval = s["m", off]
                if self.tso and not lock:
                    mval = z3.If(s["bo", i] == ci, z3.Extract(w - 1, 0, s["bv", i]), mval)
            else:
                mval = z3.BitVecVal(0, 1)
            subs = [(t["mv"], mval)] + [(a, s["r", i, n]) for n, a in enumerate(t["slots"])]
            sub = lambda x, subs=subs: z3.substitute(x, *subs)
            new = self.goto(s, i, t["outs"], sub)
            if t["new"] is not None:
                nv = sub(t["new"])
                if self.tso and t["op"] == "store" and not lock:
                    new["bo", i] = z3.BitVecVal(ci, 6)
                    new["bv", i] = z3.ZeroExt(64 - w, nv) if w < 64 else nv
                else:
                    new["m", off] = nv
            if i:                                             # threads are alike: number them in the order of their first steps
                guard = z3.And(guard, z3.Or(s["in", i] != 0, s["in", i - 1] != 0))
            if self.tso and (lock or t["op"] == "store"):
                guard = z3.And(guard, s["bo", i] == 63)       # the buffer must have been drained
            new["in", i] = z3.If(s["in", i] == s["out", i], s["in", i] + 1, s["in", i])
            alts.append((guard, new))
        keys = set()
        for _, a in alts:
            keys |= set(a)
        for k in keys:
            v = s[k]
            for g, a in alts:
                if k in a:
                    v = z3.If(g, a[k], v)
            cur[k] = v
        return cur

    def flush(self, s, i):
        new = {("bo", i): z3.BitVecVal(63, 6), ("bv", i): z3.BitVecVal(0, 64)}
        for ci, c in enumerate(self.cells):
            w = self.p.cells[c]
            new["m", c] = z3.If(s["bo", i] == ci, z3.Extract(w - 1, 0, s["bv", i]), s["m", c])
        new["bo", i] = z3.BitVecVal(63, 6)
        return new

    def moves(self, s):
        r = [self.step(s, i) for i in range(self.n)]
        if self.tso:
            r += [self.flush(s, i) for i in range(self.n)]
        return r

    def effective(self, s, mv):
        return z3.Or([v != s[k] for k, v in mv.items()])

    def unsafe(self, s):
        return z3.Or([z3.UGT(s["out", i], s["in", j]) for i in range(self.n) for j in range(self.n) if i != j])

    def stuck(self, s, mvs):
        return z3.And(z3.Not(z3.And([s["pc", i] == DONE for i in range(self.n)])), *[z3.Not(self.effective(s, m)) for m in mvs])
