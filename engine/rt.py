"""OpenMP runtime model, libc model and happens-before bookkeeping for the symbolic executor."""
import threading
import mem
import poly
import sym
import machine
from machine import EXTERN, extern
from mem import load, store, Seg, CUR
from sym import Violation, EngineError, Stop, SymInt, Undef


class Task:
    __slots__ = ("id", "parent", "deps", "first", "last", "children", "depmap", "tid", "name", "node", "group", "desc",
                 "locks", "implicit", "prio", "done")

    def __init__(self, id, parent, name, tid):
        self.id = id
        self.parent = parent
        self.name = name
        self.tid = tid
        self.deps = []
        self.children = []      # direct children not yet waited for
        self.depmap = {}
        self.first = self.last = self.node = None
        self.group = None
        self.locks = frozenset()
        self.implicit = False


class Team:
    def __init__(self, n):
        self.n = n
        self.nodes = []         # last nodes of every task created in the region
        self.single_done = set()
        self.barriers = {}      # (tid) -> count
        self.bnode = {}
        self.single_cnt = {}
        self.tasks = []         # tasks of the region (coop mode)
        self.mem = []           # (thread, object) allocated by the threads of the region


class Runtime:
    def __init__(self):
        self.reset()

    def reset(self, nthreads=1, log=False, coop=False, call=None):
        self.T = nthreads
        self.log = log
        self.coop = coop
        self.call = call if call else getattr(self, "call", None)     # call(addr, *args)
        self.nodes = []         # list of Seg
        self.edges = []
        self.tasks = []
        self.ntask = 0
        self.team = None
        self.fork_depth = 0
        self.rr = 0
        self.rrmod = None       # number of task thread ids (default: the team size)
        self.taskmem = {}
        self.mallocs = []       # live heap objects allocated by the code under test
        self.malloc_count = 0
        self.malloc_fail = None  # callable(index) -> True to fail
        self.printed = []
        self.exited = None
        self.env = {}
        self.tasks_created = 0
        self.events = []
        self.defer = None       # schedule hook: list of deferred tasks
        root = self.new_task(None, "main", 0)
        root.implicit = True
        self.cur = root
        self.newnode(root)
        CUR[0] = self.nodes[root.node] if log else None
        self.maxthreads = None
        self.on_fork = None
        self.coops = None
        machine.SCHED[0] = None
        if coop:
            import coop as _c
            self.coops = machine.SCHED[0] = _c.Sched(self)

    # ---- nodes --------------------------------------------------------------------------
    def new_task(self, parent, name, tid):
        t = Task(self.ntask, parent, name, tid)
        self.ntask += 1
        if self.log:
            self.tasks.append(t)
        return t

    def newnode(self, task, preds=()):
        if not self.log:
            task.node = 0
            return 0
        k = len(self.nodes)
        s = Seg(task, k, task.name)
        if task.locks:
            s.label = ("locks", task.locks)
        self.nodes.append(s)
        for p in preds:
            if p is not None:
                self.edges.append((p, k))
        task.node = k
        if task.first is None:
            task.first = k
        return k

    def advance(self, extra=()):
        """start a new segment of the current task"""
        t = self.cur
        if not self.log:
            return
        old = t.node
        self.newnode(t, [old, *extra])
        CUR[0] = self.nodes[t.node]

    def dep_preds(self, parent, task):
        """tasks that must finish before this one starts (dependence map of the generating task)"""
        pre = []
        if mem.STR and any(a.__class__ is not int for a, k in task.deps):
            task.deps = [(a if a.__class__ is int else mem.straddr(a, 1, "dependence", True), k) for a, k in task.deps]
        for addr, kind in task.deps:
            ent = parent.depmap.get(addr)
            if ent is None:
                ent = parent.depmap[addr] = [[], [], "out"]     # writers, readers since, kind of writers
            outs, ins, wk = ent[:3]
            if kind == "in":
                pre += outs
            elif kind in ("set", "mtx") and wk == kind and not ins:
                # same set: ordered after what preceded the set
                pre += ent[3] if len(ent) > 3 else []
            else:
                pre += outs + ins
        return pre

    def dep_record(self, parent, task):
        done = {}
        for addr, kind in task.deps:
            # out dominates in on the same address
            if done.get(addr) == "out":
                continue
            done[addr] = "out" if kind == "out" else kind if done.get(addr) is None or kind == "out" else done[addr]
        for addr, kind in done.items():
            ent = parent.depmap[addr]
            if kind == "in":
                ent[1].append(task)
            elif kind in ("set", "mtx"):
                if ent[2] == kind and not ent[1] and ent[0]:
                    ent[0].append(task)
                else:
                    prev = ent[0] + ent[1]
                    parent.depmap[addr] = [[task], [], kind, prev]
            else:
                parent.depmap[addr] = [[task], [], "out"]

    # ---- tasks --------------------------------------------------------------------------
    def run_task(self, entry, tptr, deps, name, undeferred=False):
        parent = self.cur
        self.tasks_created += 1
        if self.T > 1:
            self.rr = (self.rr + 1) % (self.rrmod or self.T)
            tid = self.rr
        else:
            tid = 0
        t = self.new_task(parent, name, tid)
        t.deps = deps
        t.group = parent.group
        t.done = False
        team = self.team
        pre = self.dep_preds(parent, t) if self.log or self.coop else ()
        if self.log or self.coop:
            self.dep_record(parent, t)
        pn = parent.node

        def body():
            self.cur = t
            self.team = team
            if self.log:
                t.first = None
                self.newnode(t, [pn] + [p.last for p in pre])
                CUR[0] = self.nodes[t.node]
            self.call(entry, tid, tptr)
            t.last = t.node
            t.done = True
            if self.log and team is not None:
                team.nodes.append(t.last)
        if self.log or self.coop:
            parent.children.append(t)
            if t.group is not None:
                t.group.append(t)
        if self.coop:
            if team is not None:
                team.tasks.append(t)
            self.coops.spawn(body, name, (lambda: all(p.done for p in pre)) if not all(p.done for p in pre) else None)
            if self.log:
                self.advance()
            return
        try:
            body()
        finally:
            self.cur = parent
        if self.log:
            self.advance([t.last] if undeferred else ())

    def finish(self, ts):
        """wait for tasks"""
        if self.coop:
            self.coops.wait(lambda: all(c.done for c in ts))
        if self.log:
            self.advance([c.last for c in ts])

    def taskwait(self):
        ch = self.cur.children
        self.cur.children = []
        self.finish(ch)

    def fork(self, fn, args, n):
        if self.on_fork:
            self.on_fork()
        parent = self.cur
        oldteam = self.team
        team = self.team = Team(n)
        self.fork_depth += 1
        pre = parent.node
        lasts = []
        try:
            def member(tid):
                t = self.new_task(parent, "region-thread%d" % tid, tid)
                t.implicit = True
                self.newnode(t, [pre])
                self.cur = t
                CUR[0] = self.nodes[t.node] if self.log else None
                g, b = mem.alloc(4, "stack", "gtid"), mem.alloc(4, "stack", "btid")
                mem._put(g, 0, 4, tid)
                mem._put(b, 0, 4, 0)
                self.call(fn, g.addr, b.addr, *args)
                del mem.OBJS[g.id], mem.OBJS[b.id]
                lasts.append(t.node)
            if self.coop and n > 1:
                self.coops.run([lambda k=k: member(k) for k in range(n)], ["thread%d" % k for k in range(n)])
                self.cur, self.team = parent, team
                self.coops.wait(lambda: all(x.done for x in team.tasks))
            else:
                for tid in range(n):
                    member(tid)
        finally:
            self.fork_depth -= 1
            self.team = oldteam
            if n > 1 and len({k for k, _ in team.mem}) == n:
                # every thread allocated its own workspace
                for k, o in team.mem:
                    o.wt = k
            self.cur = parent
            if self.log:
                self.advance(lasts + team.nodes)
                if oldteam is not None:
                    oldteam.nodes.append(parent.node)
            CUR[0] = self.nodes[parent.node] if self.log else None

    def barrier(self):
        if self.team is None:
            return
        t = self.cur
        k = self.team.barriers.get(t.tid, 0)
        self.team.barriers[t.tid] = k + 1
        if self.log:
            self.blog(t, k)
        if self.coop and self.team.n > 1:
            team = self.team
            self.coops.progress()
            self.coops.wait(lambda: all(team.barriers.get(x, 0) > k for x in range(team.n)) and all(x.done for x in team.tasks))
        if self.log:
            self.advance([self.team.bnode[k]])

    def blog(self, t, k):
        b = self.team.bnode.get(k)
        if b is None:
            dummy = self.new_task(None, "barrier", 0)
            b = self.team.bnode[k] = self.newnode(dummy)
        for x in self.team.nodes:
            self.edges.append((x, b))
        self.edges.append((t.node, b))


RT = Runtime()


def sched_queries():
    pass


# ---- OpenMP entry points -------------------------------------------------------------------
@extern("__kmpc_global_thread_num", "omp_get_thread_num")
def _gtid(*a):
    return RT.cur.tid if RT.fork_depth else 0


@extern("omp_get_num_threads")
def _nthr():
    return RT.team.n if RT.team is not None else 1


@extern("omp_get_max_threads", "omp_get_num_procs", "omp_get_thread_limit")
def _maxthr():
    return RT.maxthreads if RT.maxthreads is not None else RT.T


@extern("omp_in_parallel")
def _inpar():
    if RT.env.get("in_parallel") is not None:
        return RT.env["in_parallel"]
    return 1 if RT.team is not None and RT.team.n > 1 else 0


@extern("omp_get_level", "omp_get_active_level")
def _lvl():
    return RT.fork_depth


@extern("omp_get_wtime", "omp_get_wtick")
def _wt():
    return 0


@extern("omp_get_nested", "omp_get_dynamic", "omp_get_max_active_levels", "omp_in_final", "omp_get_max_task_priority")
def _zero():
    return 0


@extern("omp_set_num_threads", "omp_set_nested", "omp_set_dynamic", "omp_set_max_active_levels")
def _set(*a):
    return None


@extern("__kmpc_fork_call")
def _fork(loc, argc, fn, *args):
    RT.fork(fn, args, RT.T)


@extern("__kmpc_push_num_threads", "__kmpc_push_proc_bind")
def _push(*a):
    return None


@extern("__kmpc_serialized_parallel", "__kmpc_end_serialized_parallel")
def _ser(*a):
    return None


@extern("__kmpc_master", "__kmpc_masked")
def _master(loc, gtid, *a):
    return 1 if RT.cur.tid == 0 else 0


@extern("__kmpc_end_master", "__kmpc_end_masked", "__kmpc_end_single")
def _endm(*a):
    return None


@extern("__kmpc_single")
def _single(loc, gtid):
    team = RT.team
    if team is None:
        return 1
    tid = RT.cur.tid
    k = team.single_cnt.get(tid, 0)
    team.single_cnt[tid] = k + 1
    if k in team.single_done:
        return 0
    team.single_done.add(k)
    return 1


@extern("__kmpc_barrier", "__kmpc_cancel_barrier")
def _barrier(*a):
    RT.barrier()
    return 0


@extern("__kmpc_flush")
def _flush(*a):
    if RT.coop:
        RT.coops.pause()


@extern("__kmpc_critical", "__kmpc_critical_with_hint")
def _crit(loc, gtid, lock, *h):
    if RT.coop:
        held = RT.env.setdefault("locks", {})
        me = RT.cur
        RT.coops.pause()
        RT.coops.wait(lambda: held.get(lock) is None)
        held[lock] = me
        RT.coops.progress()
    if RT.log:
        RT.cur.locks = RT.cur.locks | {lock}
        RT.advance()
        RT.nodes[RT.cur.node].label = ("locks", RT.cur.locks)


@extern("__kmpc_end_critical")
def _ecrit(loc, gtid, lock):
    if RT.coop:
        RT.env["locks"][lock] = None
        RT.coops.progress()
    if RT.log:
        RT.cur.locks = RT.cur.locks - {lock}
        RT.advance()
        if RT.cur.locks:
            RT.nodes[RT.cur.node].label = ("locks", RT.cur.locks)


@extern("omp_init_lock", "omp_destroy_lock", "omp_init_nest_lock", "omp_destroy_nest_lock")
def _il(*a):
    return None


@extern("omp_set_lock")
def _sl(l):
    _crit(0, 0, l)


@extern("omp_unset_lock")
def _ul(l):
    _ecrit(0, 0, l)


@extern("__kmpc_omp_task_alloc", "__kmpc_omp_target_task_alloc")
def _talloc(loc, gtid, flags, sz, shsz, entry, *dev):
    sz, shsz = int(sz), int(shsz)
    o = mem.alloc((sz + 15) // 16 * 16 + shsz, "task", "task")
    s = CUR[0]
    CUR[0] = None
    store(o.addr, 8, o.addr + (sz + 15) // 16 * 16 if shsz else 0)
    store(o.addr + 8, 8, entry)
    store(o.addr + 16, 4, 0)
    CUR[0] = s
    RT.taskmem[o.addr] = (entry, sz, shsz)
    return o.addr


def _deps(n, lst, n2=0, lst2=0):
    out = []
    s = CUR[0]
    CUR[0] = None
    for cnt, base in ((n, lst), (n2, lst2)):
        for i in range(int(cnt)):
            a = load(base + 24 * i, 8, "i")
            fl = load(base + 24 * i + 16, 1, "i")
            k = "in" if fl & 15 == 1 else "mtx" if fl & 15 == 4 else "set" if fl & 15 == 8 else "out"
            out.append((a, k))
    CUR[0] = s
    return out


def _fname(entry, loc=0):
    m = RT.machine
    if loc and (RT.log or RT.coop):
        s0 = CUR[0]
        CUR[0] = None
        try:
            p = load(loc + 16, 8, "i")
            b = []
            while len(b) < 300:
                c = load(p, 1, "i")
                if c == 0:
                    break
                b.append(chr(c))
                p += 1
            f = "".join(b).split(";")
            if len(f) > 3 and f[2] != "unknown":
                return "%s:%s" % (f[2], f[3])
        except Exception:
            pass
        finally:
            CUR[0] = s0
    return m.fname.get(entry, "?")


@extern("__kmpc_omp_task_with_deps")
def _twd(loc, gtid, t, n, lst, n2, lst2):
    entry = RT.taskmem[t][0]
    RT.run_task(entry, t, _deps(n, lst, n2, lst2), _fname(entry, loc))
    return 0


@extern("__kmpc_omp_task")
def _tk(loc, gtid, t):
    entry = RT.taskmem[t][0]
    RT.run_task(entry, t, [], _fname(entry, loc))
    return 0


@extern("__kmpc_omp_task_begin_if0", "__kmpc_omp_task_complete_if0")
def _if0(*a):
    return None


@extern("__kmpc_omp_wait_deps", "__kmpc_omp_taskwait_deps_51")
def _wdeps(loc, gtid, n, lst, n2=0, lst2=0, *r):
    if RT.log or RT.coop:
        t = Task(-1, RT.cur, "wait_deps", 0)
        t.deps = _deps(n, lst, n2, lst2)
        RT.finish(RT.dep_preds(RT.cur, t))


@extern("__kmpc_omp_taskwait")
def _tw(*a):
    RT.taskwait()
    return 0


@extern("__kmpc_omp_taskyield")
def _ty(*a):
    if RT.coop:
        RT.coops.pause()
    return 0


@extern("__kmpc_taskgroup")
def _tg(*a):
    g = []
    RT.events.append(("group", RT.cur.group))
    RT.cur.group = g


@extern("__kmpc_end_taskgroup")
def _etg(*a):
    g = RT.cur.group
    k, old = RT.events.pop()
    RT.cur.group = old
    RT.finish(g)
    if old is not None:
        old.extend(g)


@extern("__kmpc_taskloop", "__kmpc_taskloop_5")
def _tl(loc, gtid, t, ifv, lbp, ubp, st, nogroup, sched, grain, dup=0, *rest):
    entry, sz, shsz = RT.taskmem[t]
    if len(rest):
        dup = rest[0]
    if not nogroup:
        _tg()
    s = CUR[0]
    CUR[0] = None
    lb, ub = load(lbp, 8, "i"), load(ubp, 8, "i")
    lo, uo = lbp - t, ubp - t
    n = (ub - lb) // st + 1 if st > 0 else (lb - ub) // -st + 1
    copies = []
    for i in range(max(0, n)):
        o = mem.alloc((sz + 15) // 16 * 16 + shsz, "task", "taskloop")
        mem.memcpy(o.addr, t, mem.OBJS[t >> mem.SH].size)
        store(o.addr, 8, load(t, 8, "p"))      # shareds stay shared
        store(o.addr + lo, 8, lb + i * st)
        store(o.addr + uo, 8, lb + i * st)
        RT.taskmem[o.addr] = (entry, sz, shsz)
        copies.append(o.addr)
    CUR[0] = s
    for i, c in enumerate(copies):
        if dup:
            RT.call(dup, c, t, 1 if i == len(copies) - 1 else 0)
    for c in copies:
        RT.run_task(entry, c, [], _fname(entry))
    if not nogroup:
        _etg()


def _static_init(w, signed):
    def f(loc, gtid, sched, plast, plb, pub, pst, incr, chunk):
        n = w // 8
        lb, ub = load(plb, n, "i"), load(pub, n, "i")
        T = RT.team.n if RT.team else 1
        tid = RT.cur.tid if RT.team else 0
        incr = int(incr)
        cnt = (ub - lb) // incr + 1 if incr > 0 else (lb - ub) // -incr + 1
        cnt = max(0, int(cnt))
        if sched in (34,):       # static, no chunk
            base, ext = divmod(cnt, T)
            a = tid * base + min(tid, ext)
            b = a + base + (1 if tid < ext else 0)
            store(plb, n, lb + a * incr)
            store(pub, n, lb + (b - 1) * incr)
            store(pst, n, incr * max(cnt, 1))
            store(plast, 4, 1 if cnt and b == cnt and b > a else 0)
        elif sched == 33:        # static chunked
            chunk = max(1, int(chunk))
            store(pst, n, incr * chunk * T)
            store(plb, n, lb + tid * chunk * incr)
            store(pub, n, lb + (tid * chunk + chunk - 1) * incr)
            store(plast, 4, 1 if cnt and (cnt - 1) // chunk % T == tid else 0)
        else:
            raise EngineError("static schedule kind %r" % (sched,))
    return f


EXTERN["__kmpc_for_static_init_4"] = _static_init(32, True)
EXTERN["__kmpc_for_static_init_4u"] = _static_init(32, False)
EXTERN["__kmpc_for_static_init_8"] = _static_init(64, True)
EXTERN["__kmpc_for_static_init_8u"] = _static_init(64, False)


@extern("__kmpc_for_static_fini")
def _fini(*a):
    return None


_DISP = {}


def _disp_init(w):
    def f(loc, gtid, sched, lb, ub, st, chunk):
        key = (id(RT.team), RT.cur.tid)
        # one thread takes everything: a legal dynamic schedule
        _DISP[key] = (int(lb), int(ub), int(st)) if (RT.cur.tid == 0) else None
    return f


def _disp_next(w):
    n = w // 8

    def f(loc, gtid, plast, plb, pub, pst):
        key = (id(RT.team), RT.cur.tid)
        d = _DISP.pop(key, None)
        if d is None or (d[2] > 0 and d[0] > d[1]) or (d[2] < 0 and d[0] < d[1]):
            return 0
        store(plast, 4, 1)
        store(plb, n, d[0])
        store(pub, n, d[1])
        store(pst, n, d[2])
        return 1
    return f


for _s, _ww in (("4", 32), ("4u", 32), ("8", 64), ("8u", 64)):
    EXTERN["__kmpc_dispatch_init_" + _s] = _disp_init(_ww)
    EXTERN["__kmpc_dispatch_next_" + _s] = _disp_next(_ww)
    EXTERN["__kmpc_dispatch_fini_" + _s] = _fini


def _reduce(loc, gtid, n, sz, data, func, lock):
    return 1


EXTERN["__kmpc_reduce"] = EXTERN["__kmpc_reduce_nowait"] = _reduce
EXTERN["__kmpc_end_reduce"] = EXTERN["__kmpc_end_reduce_nowait"] = _fini


# ---- libc ----------------------------------------------------------------------------------
def _alloc(n, zero=False):
    if RT.env.get("on_malloc"):
        p = RT.env["on_malloc"](n)
        if p is not None:
            return p
    if n.__class__ is SymInt:
        n = int(n)
    k = RT.malloc_count
    RT.malloc_count += 1
    if RT.malloc_fail is not None and RT.malloc_fail(k):
        return 0
    if n < 0:
        return 0        # size_t beyond any memory
    if n > (1 << 38):
        return 0
    o = mem.alloc(n, "heap", "malloc%d" % k)
    RT.mallocs.append(o)
    if RT.log and RT.cur.implicit and RT.team is not None:
        RT.team.mem.append((RT.cur.tid, o))
    if zero and n:
        mem.memset(o.addr, 0, n)
    return o.addr


@extern("malloc")
def _malloc(n):
    return _alloc(n)


@extern("calloc")
def _calloc(a, b):
    return _alloc(a * b, True)


@extern("aligned_alloc", "memalign")
def _aalloc(al, n):
    return _alloc(n)


@extern("posix_memalign")
def _pm(pp, al, n):
    a = _alloc(n)
    if a == 0:
        return 12
    store(pp, 8, a)
    return 0


@extern("realloc")
def _realloc(p, n):
    a = _alloc(n)
    if a and p:
        o = mem.OBJS[p >> mem.SH]
        mem.memcpy(a, p, min(o.size, n))
        _free(p)
    return a


@extern("free")
def _free(p):
    if p.__class__ is Undef:
        raise Violation("uninit", "free of an uninitialised pointer")
    if p == 0:
        return
    o = mem.OBJS.get(p >> mem.SH)
    s = CUR[0]
    if s is not None and o is not None:
        a = o.addr
        s.wr.update(a + x for x in o.c)
    mem.free_(p)


@extern("memcpy", "memmove")
def _mc(d, s, n):
    mem.memcpy(d, s, n)
    return d


@extern("memset")
def _ms(d, c, n):
    mem.memset(d, c, n)
    return d


def cstr(p):
    out = []
    s = CUR[0]
    CUR[0] = None
    while True:
        c = load(p, 1, "i")
        if c == 0:
            break
        out.append(c & 255)
        p += 1
    CUR[0] = s
    return bytes(out).decode("latin1")


@extern("printf", "fprintf", "puts", "fputs", "fputc", "putchar", "fwrite", "fflush", "perror", "putc", "vfprintf",
        "__fprintf_chk", "__printf_chk", "vprintf")
def _pf(*a):
    return 0


@extern("snprintf", "sprintf")
def _sp(*a):
    return 0


@extern("exit", "abort", "_exit")
def _exit(*a):
    raise Violation("exit", "the library terminates the process (exit/abort)")


@extern("__assert_fail")
def _assert(*a):
    raise Violation("assert", "assertion failed: " + cstr(a[0]))


@extern("sched_yield")
def _sy():
    if RT.coop:
        RT.coops.pause()
    return 0


@extern("strlen")
def _sl2(p):
    return len(cstr(p))


@extern("strcmp")
def _sc(a, b):
    x, y = cstr(a), cstr(b)
    return (x > y) - (x < y)


@extern("getenv")
def _ge(p):
    return 0


@extern("luaL_newstate")
def _lua():
    return 0


@extern("lua_close", "luaL_openlibs", "lua_settop", "lua_pushstring", "lua_pushinteger")
def _lua2(*a):
    return 0


@extern("gettimeofday", "time", "clock", "usleep", "nanosleep")
def _tm(*a):
    return 0


@extern("cabs", "cabsf", "hypot", "hypotf")
def _cabs(a, b=None):
    if b is None and a.__class__ is tuple:
        a, b = a
    return poly.modulus(poly.join(a, b))


@extern("__muldc3", "__mulsc3")
def _mulc(a, b, c, d):
    z = poly.join(a, b) * poly.join(c, d)
    return poly.split(z)


@extern("__divdc3", "__divsc3")
def _divc(a, b, c, d):
    z = poly.div(poly.join(a, b), poly.join(c, d))
    return poly.split(z)


@extern("fabs", "fabsf")
def _fabs(a):
    return poly.fabs_(a)


@extern("sqrt", "sqrtf")
def _sqrt(a):
    return poly.sqrt_(a)


@extern("fmax", "fmaxf")
def _fmax(a, b):
    import machine
    return machine.fmax_(a, b)


@extern("fmin", "fminf")
def _fmin(a, b):
    import machine
    return -machine.fmax_(-a, -b)


@extern("ceil", "ceilf")
def _ceil(a):
    import machine
    return machine._round(a, "ceil")


@extern("floor", "floorf")
def _floor(a):
    import machine
    return machine._round(a, "floor")


@extern("log10", "log10f", "log2", "log2f", "log", "logf")
def _log(a):
    import machine
    return machine._flog(a, 10)


@extern("pow", "powf")
def _powf(a, b):
    import machine
    return machine._pow(a, b)
