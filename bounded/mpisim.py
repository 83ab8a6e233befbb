"""A simulated mpi4py: every process is a thread, one runs at a time, a random
scheduler picks who goes on at each communication call.  Channels are reliable
and ordered; a message becomes visible some time after it was sent."""
import sys, types, threading, pickle, random

class Deadlock(Exception): pass
class Stopped(BaseException): pass
ANY = -1
class Status:
    def __init__(self): self.source = self.tag = -7
    def Get_source(self): return self.source
    def Get_tag(self): return self.tag
class Request:
    def __init__(self, comm, msg): self.comm, self.msg = comm, msg
    def Cancel(self): self.comm.cancel(self.msg)
    def Wait(self, status=None): return None
    wait = Wait
    def cancel(self): self.Cancel()
    def Test(self): return (self.msg.got, None)
    test = Test
class Msg:
    def __init__(self, src, dst, tag, obj): self.src, self.dst, self.tag, self.data, self.seen, self.got = src, dst, tag, pickle.dumps(obj), False, False
class World:
    def __init__(self): self.sim = None
    def __getattr__(self, n): return getattr(self.sim, n)
class Sim:
    """one run: n processes"""
    def __init__(self, n, rng, sync=0.0, lag=0.5, cap=400000, stick=0.0):
        self.stick, self.last = stick, None
        self.n, self.rng, self.sync, self.lag, self.cap = n, rng, sync, lag, cap
        self.chan = {(a, b): [] for a in range(n) for b in range(n)}; self.sems = [threading.Semaphore(0) for _ in range(n)]; self.wait = [None] * n; self.done = [False] * n
        self.error = None; self.over = False; self.main = threading.Semaphore(0); self.local = threading.local(); self.steps = 0; self.trace = []
    # ---- scheduling
    def me(self): return self.local.rank
    def deliver(self):
        for c in self.chan.values():
            for m in c:
                if m.seen: continue
                if self.rng.random() < self.lag: break
                m.seen = True
    def pick(self):
        for _ in range(400):
            self.deliver()
            r = [i for i in range(self.n) if not self.done[i] and (self.wait[i] is None or self.wait[i]())]
            if r:
                if self.last not in r or self.rng.random() >= self.stick: self.last = self.rng.choice(r)
                return self.last
            if all(self.done): return None
            if all(m.seen for c in self.chan.values() for m in c): raise Deadlock("blocked for ever: processes %r" % [i for i in range(self.n) if not self.done[i]])
        for c in self.chan.values():
            for m in c: m.seen = True
        return self.pick()
    def switch(self, pred=None):
        i = self.me(); self.wait[i] = pred; self.steps += 1
        if self.steps > self.cap: self.fail(Deadlock("no end after %d communication steps" % self.cap)); raise Stopped()
        if self.over: raise Stopped()
        try: j = self.pick()
        except Deadlock as ex: self.fail(ex); raise Stopped()
        if j != i: self.sems[j].release(); self.sems[i].acquire()
        self.wait[i] = None
        if self.over: raise Stopped()
    def fail(self, ex):
        if self.error is None: self.error = ex
        self.over = True
        for s in self.sems: s.release()
        self.main.release()
    def run(self, funcs):
        def body(i):
            self.local.rank = i; self.sems[i].acquire()
            try:
                if not self.over: funcs[i]()
            except Stopped: pass
            except BaseException as ex: self.fail(ex)
            self.done[i] = True
            if self.over: return
            try: j = self.pick()
            except Deadlock as ex: self.fail(ex); return
            if j is None: self.main.release()
            else: self.sems[j].release()
        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts: t.start()
        self.sems[self.rng.randrange(self.n)].release(); self.main.acquire()
        for t in ts: t.join(5)
        if self.error is not None: raise self.error
    # ---- MPI
    def find(self, dst, source, tag):
        srcs = [source] if source != ANY else self.rng.sample(range(self.n), self.n)
        for s in srcs:
            for m in self.chan[(s, dst)]:
                if not m.seen: break
                if tag == ANY or m.tag == tag: return m
        return None
    def Get_rank(self): return self.me()
    def Get_size(self): return self.n
    def post(self, obj, dest, tag):
        m = Msg(self.me(), dest, tag, obj); self.chan[(m.src, dest)].append(m); self.trace.append((m.src, dest, tag)); return m
    def send(self, obj, dest, tag=0):
        m = self.post(obj, dest, tag)
        if self.rng.random() < self.sync: self.switch(lambda: m.got)
        else: self.switch()
    def ssend(self, obj, dest, tag=0): m = self.post(obj, dest, tag); self.switch(lambda: m.got)
    def isend(self, obj, dest, tag=0): m = self.post(obj, dest, tag); self.switch(); return Request(self, m)
    def cancel(self, m):
        if not m.got and not m.seen and m in self.chan[(m.src, m.dst)]: self.chan[(m.src, m.dst)].remove(m)
    def recv(self, buf=None, source=ANY, tag=ANY, status=None):
        i = self.me(); self.switch(lambda: self.find(i, source, tag) is not None); m = self.find(i, source, tag); m.got = True; self.chan[(m.src, i)].remove(m)
        if status is not None: status.source, status.tag = m.src, m.tag
        return pickle.loads(m.data)
    def Iprobe(self, source=ANY, tag=ANY, status=None):
        self.switch(); m = self.find(self.me(), source, tag)
        if m is not None and status is not None: status.source, status.tag = m.src, m.tag
        return m is not None
    iprobe = Iprobe
    def Probe(self, source=ANY, tag=ANY, status=None):
        i = self.me(); self.switch(lambda: self.find(i, source, tag) is not None)
        if status is not None: m = self.find(i, source, tag); status.source, status.tag = m.src, m.tag
        return True
    probe = Probe
WORLD = World()
class Boot:
    """what the module sees while it is imported"""
    def Get_rank(self): return 0
    def Get_size(self): return 2
WORLD.sim = Boot()
def install():
    MPI = types.ModuleType("mpi4py.MPI"); MPI.COMM_WORLD = WORLD; MPI.ANY_SOURCE = ANY; MPI.ANY_TAG = ANY; MPI.Status = Status; MPI.Request = Request
    pk = types.ModuleType("mpi4py"); pk.MPI = MPI; sys.modules["mpi4py"] = pk; sys.modules["mpi4py.MPI"] = MPI
class Clock:
    """time that runs at its own pace"""
    def __init__(self, rng, pace): self.rng, self.pace, self.t = rng, pace, 1000.0
    def time(self): self.t += self.rng.random() * self.pace; return self.t
    def __getattr__(self, n):
        import time; return getattr(time, n)
