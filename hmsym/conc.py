"""Two or more threads inside the real code at once.  Scheduling points are lock acquisitions and releases and system calls; the schedule is a
symbolic choice, explored completely up to a bound on preemptions."""
import threading
from .machine import PathEnd, Hang, STACK_TOP


class Dead(BaseException):
    pass


class Sched:
    """runs bodies (functions of no arguments) as threads 0.. of the model; only the holder of the baton runs"""

    def __init__(self, c, bodies, tids=None, preempt=2, name="sched"):
        self.c, self.M, self.bodies, self.left, self.name = c, c.M, bodies, preempt, name
        self.tids = tids or list(range(len(bodies)))
        n = len(bodies)
        self.want = [None] * n
        self.done = [False] * n
        self.ctx = [dict(sp=STACK_TOP + t * 0x1000000 - 64 - 0x8000, draw_depth=0, draw_count=0, prefer0=0, raw=[], last_n=0, atomic=0, aord=0) for t in self.tids]
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.main = threading.Semaphore(0)
        self.exc = None
        self.cur = 0
        self.log = []

    # ---- context switches
    def save(self):
        x = self.ctx[self.cur]
        for k in x:
            x[k] = getattr(self.M, k)

    def load(self, t):
        for k, v in self.ctx[t].items():
            setattr(self.M, k, v)
        if self.M.tid != self.tids[t]:
            self.M.tid = self.tids[t]
            self.M.events.append(("thread", self.M.tid))
        self.cur = t

    def runnable(self):
        L = self.M.locks
        return [t for t in range(len(self.bodies)) if not self.done[t] and (self.want[t] is None or self.want[t] not in L)]

    def switch(self, t):
        me = self.cur
        self.save()
        self.load(t)
        self.sem[t].release()
        self.sem[me].acquire()
        if self.exc is not None:
            raise Dead()

    def point(self, M, want=None):
        me = self.cur
        self.want[me] = want
        opts = self.runnable()
        if not opts:
            raise Hang("deadlock: every thread waits for a lock")
        if me in opts:
            if self.left > 0 and len(opts) > 1:
                opts.remove(me)
                opts.insert(0, me)
                t = opts[self.c.pick(self.name, len(opts))]
                if t != me:
                    self.left -= 1
            else:
                t = me
        else:
            t = opts[self.c.pick(self.name, len(opts))]
        self.log.append(t)
        if t != me:
            self.switch(t)
        self.want[me] = None

    def lock(self, M, m):
        self.point(M, m)

    def unlocked(self, M, m):
        self.point(M)

    # ---- threads
    def thread(self, t):
        self.sem[t].acquire()
        if self.exc is None:
            try:
                self.bodies[t]()
            except Dead:
                pass
            except BaseException as e:
                if self.exc is None:
                    self.exc = e
        self.done[t] = True
        if self.exc is None:
            try:
                left = [i for i in range(len(self.bodies)) if not self.done[i]]
                if left:
                    opts = self.runnable()
                    if not opts:
                        raise Hang("deadlock: a lock is never released")
                    n = opts[self.c.pick(self.name, len(opts))]
                    self.log.append(n)
                    self.load(n)
                    self.sem[n].release()
                    return
            except BaseException as e:
                self.exc = e
        if self.exc is not None:
            # unwind the others
            for i in range(len(self.bodies)):
                if not self.done[i]:
                    self.sem[i].release()
                    return
        self.main.release()

    def run(self):
        M = self.M
        keep = dict(sp=M.sp, draw_depth=0, draw_count=0, prefer0=0, raw=[], last_n=0, atomic=0, aord=0)
        tid = M.tid
        threading.stack_size(512 << 20 if False else 64 << 20)
        ths = [threading.Thread(target=self.thread, args=(i,), daemon=True) for i in range(len(self.bodies))]
        for t in ths:
            t.start()
        M.sched = self
        try:
            first = self.c.pick(self.name, len(self.bodies))
            self.log.append(first)
            self.load(first)
            self.sem[first].release()
            self.main.acquire()
        except BaseException as e:
            if self.exc is None:
                self.exc = e
                for i in range(len(self.bodies)):
                    self.sem[i].release()
        for t in ths:
            t.join()
        M.sched = None
        for k, v in keep.items():
            setattr(M, k, v)
        if M.tid != tid:
            M.tid = tid
            M.events.append(("thread", tid))
        if self.exc is not None:
            raise self.exc
        return self.log
