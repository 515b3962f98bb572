"""Cooperative threads: threads of the code under test that wait for each other (spin loops on volatile data, barriers, locks)
run one at a time, switching at volatile/atomic loads and at runtime calls; the switching order is an input."""
import threading
import mem
import sym
from sym import Violation

threading.stack_size(256 << 20)
BUDGET = 4000


class Abort(BaseException):
    pass


class CT:
    def __init__(self, f, name):
        self.f, self.name = f, name
        self.sem = threading.Semaphore(0)
        self.done = False
        self.exc = None
        self.cond = None
        self.state = None
        self.parent = None
        self.th = None


class Sched:
    def __init__(self, rt, policy=None):
        self.rt = rt
        self.all = []
        self.cur = CT(None, "root")
        self.all.append(self.cur)
        self.idle = 0
        self.aborting = False
        self.policy = policy        # callable(list of runnable threads, current) -> thread
        self.switches = 0

    # state of a logical thread that lives in globals
    def save(self):
        r = self.rt
        self.cur.state = (r.cur, r.team, mem.CUR[0], r.fork_depth)

    def restore(self, t):
        r = self.rt
        r.cur, r.team, mem.CUR[0], r.fork_depth = t.state

    def progress(self):
        self.idle = 0

    def switch(self, must=False):
        """give the processor to another thread; must: the current one cannot continue"""
        if self.aborting and self.cur.f is not None:
            raise Abort()
        me = self.cur
        run = []
        k = self.all.index(me) if me in self.all else -1
        order = self.all[k + 1:] + self.all[:k + 1]
        for t in order:
            if t.done or (t is me and must and t.cond is None):
                continue
            if t.cond is not None and not t.cond():
                continue
            run.append(t)
        if not run:
            raise Violation("deadlock", "every thread waits: " + ", ".join(t.name for t in self.all if not t.done))
        nxt = self.policy(run, me) if self.policy else run[0]
        if nxt is me:
            me.cond = None
            return
        self.switches += 1
        self.save() if not me.done else None
        nxt.cond = None
        self.cur = nxt
        if nxt.state is not None:
            self.restore(nxt)
        nxt.sem.release()
        if me.done:
            return
        me.sem.acquire()
        if self.aborting:
            if me.f is not None:
                raise Abort()
            self.aborting = False
            self.all = [me]
            raise self.err

    def pause(self):
        """a point where another thread may run"""
        if len(self.all) == 1:
            self.idle += 1
            if self.idle > BUDGET:
                raise Violation("deadlock", "a thread waits for a change nobody is left to make")
            return
        self.idle += 1
        if self.idle > BUDGET * len(self.all):
            raise Violation("deadlock", "no thread makes progress: " + ", ".join(t.name for t in self.all if not t.done))
        self.switch()

    def wait(self, cond):
        if cond():
            return
        self.cur.cond = cond
        self.switch()

    def start(self, t):
        def body():
            t.sem.acquire()
            try:
                if not self.aborting:
                    t.f()
            except Abort:
                pass
            except BaseException as e:
                if not self.aborting:
                    self.err = e
                self.aborting = True
            t.done = True
            self.idle = 0
            if not self.aborting:
                self.all.remove(t)
                try:
                    self.leave(t)
                    return
                except Violation as e:
                    self.err = e
                    self.aborting = True
            self.handover(t)
        t.th = threading.Thread(target=body, daemon=True)
        t.th.start()

    def new(self, f, name, cond=None):
        r = self.rt
        t = CT(f, name)
        t.parent = self.cur
        t.cond = cond
        t.state = (r.cur, r.team, mem.CUR[0], r.fork_depth)
        self.start(t)
        return t

    def spawn(self, f, name, cond=None):
        """a task: it runs now if it can; the creator goes on when the task waits or ends"""
        t = self.new(f, name, cond)
        self.all.insert(self.all.index(self.cur) + 1, t)
        if cond is None:
            self.switch()

    def run(self, thunks, names):
        """run the thunks as threads; returns when all have finished.  Each thunk starts with the caller's globals."""
        kids = [self.new(f, n) for f, n in zip(thunks, names)]
        self.all += kids
        self.wait(lambda: all(k.done for k in kids))

    def leave(self, t):
        run = [x for x in self.all if not x.done and (x.cond is None or x.cond())]
        if not run:
            raise Violation("deadlock", "every remaining thread waits: " + ", ".join(x.name for x in self.all if not x.done))
        nxt = self.policy(run, t) if self.policy else run[0]
        nxt.cond = None
        self.cur = nxt
        if nxt.state is not None:
            self.restore(nxt)
        nxt.sem.release()

    def handover(self, t):
        """unwind: next not finished non-root thread, children before parents, the root last"""
        rest = [x for x in self.all if not x.done and x.f is not None]
        # innermost first
        def depth(x):
            d = 0
            while x is not None:
                d += 1
                x = x.parent
            return d
        rest.sort(key=depth, reverse=True)
        nxt = rest[0] if rest else [x for x in self.all if x.f is None][0]
        nxt.cond = None
        self.cur = nxt
        if nxt.state is not None:
            self.restore(nxt)
        nxt.sem.release()
