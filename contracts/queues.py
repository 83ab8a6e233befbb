"""Contracts of Code/Work_Queue.py: LIFO / FIFO discipline, no loss, no duplication."""
import z3
from pyvc.engine import *
from pyvc.contract import *
M = "Work_Queue"; I = z3.IntSort()
JOB = z3.DeclareSort("Job")

def mk(E, name): f = E.func(name, I, JOB); return lambda i: f(i)

def mk_queue(E, cls):
    """The object the real constructor builds, its (only) container generalised
    to any number of waiting jobs; the bookkeeping counters are arbitrary."""
    o = E.construct(E.cls(M, cls), [], {})
    conts = [k for k, v in o.fields.items() if isinstance(v, PyList)]
    if len(conts) != 1: raise Unsupported("queue representation (containers: %r)" % conts)
    E.prove("a new queue is empty", len(o.fields[conts[0]].items) == 0)
    kind = o.fields[conts[0]].kind
    n = E.int("waiting"); E.assume(n >= 0)
    o.fields[conts[0]] = SymSeq(E, mk(E, "Q"), n, kind, mk=mk)
    for k, v in list(o.fields.items()):
        if k != conts[0]:
            if isinstance(v, int) and not isinstance(v, bool): o.fields[k] = E.int(k)
            else: raise Unsupported("queue representation (field %s)" % k)
    o.meta["c"] = conts[0]
    return o

def content(E, o):
    q = o.fields[o.meta["c"]]
    if isinstance(q, SymSeq): return q.get, zi(q.length)
    if isinstance(q, PyList): return E.getter(q), z3.IntVal(len(q.items))
    raise Unsupported("queue container")

class QC(Contract):
    module = M
    def old(self, E, a):
        g, n = content(E, a.self); return NS(g=g, n=n)
    def modifies(self, E, a):
        o = a.self
        return [(o, f) for f in o.fields] + [(o.fields[o.meta["c"]], "*"), (o.fields[o.meta["c"]], None)]
    def old_args(self): pass
    def same(self, E, old, a, what="queue unchanged"):
        g, n = content(E, a.self)
        return [(what + ": number of jobs", n == old.n), (what + ": every job", Forall([I], lambda i: Implies(And(0 <= i, i < old.n), E.truth_eq(g(i), old.g(i)))))]
    def verify_modifies(self, a): pass

def make(cls, lifo, extra):
    class Base(QC):
        def args_self(self, E):
            o = mk_queue(E, cls); self._c = o.fields[o.meta["c"]]; return o
        def modifies(self, E, a): return [(a.self, f) for f in a.self.fields] + [(self._c, "*"), (self._c, None)]
    class Pop(Base):
        qualname = cls + ".pop_job"; params = ["self"]
        def args(self, E): return NS(self=self.args_self(E))
        def post(self, E, old, a, r):
            g, n = content(E, a.self)
            if r is None:
                return [("None only when no job is left", old.n == 0)] + self.same(E, old, a)
            k = old.n - 1 if lifo else z3.IntVal(0)
            sh = (lambda i: i) if lifo else (lambda i: i + 1)
            return [("a job only when one is waiting", old.n > 0), ("the %s job" % ("newest" if lifo else "oldest"), E.truth_eq(r, old.g(k))), ("one job less", n == old.n - 1),
                    ("the other jobs stay, in order", Forall([I], lambda i: Implies(And(0 <= i, i < old.n - 1), E.truth_eq(g(i), old.g(sh(i))))))]
    class Push(Base):
        qualname = cls + ".push_job"; params = ["self", "job"]
        def args(self, E): return NS(self=self.args_self(E), job=E.fresh(JOB, "job"))
        def post(self, E, old, a, r):
            g, n = content(E, a.self)
            return [("one job more", n == old.n + 1), ("the earlier jobs stay, in order", Forall([I], lambda i: Implies(And(0 <= i, i < old.n), E.truth_eq(g(i), old.g(i))))),
                    ("the new job is last", E.truth_eq(g(old.n), a.job))]
    class PushMany(Base):
        qualname = cls + ".push_jobs"; params = ["self", "jobs"]
        def args(self, E):
            m = E.int("count"); E.assume(m >= 0)
            o = self.args_self(E)
            return NS(self=o, jobs=SymSeq(E, mk(E, "J"), m, "list", mk=mk))
        def old(self, E, a):
            r = QC.old(self, E, a); r.h, r.m = a.jobs.get, zi(a.jobs.length); return r
        def loops(self):
            def inv(E, env):
                raise Unsupported("push_jobs by a loop")
            return []
        def post(self, E, old, a, r):
            g, n = content(E, a.self)
            return [("all jobs added", n == old.n + old.m), ("the earlier jobs stay, in order", Forall([I], lambda i: Implies(And(0 <= i, i < old.n), E.truth_eq(g(i), old.g(i))))),
                    ("the new jobs follow in order, each once", Forall([I], lambda i: Implies(And(0 <= i, i < old.m), E.truth_eq(g(old.n + i), old.h(i))))),
                    ("the queue does not alias the caller's list", a.self.fields[a.self.meta["c"]] is not a.jobs)]
    out = [Pop(), Push(), PushMany()]
    for name in extra:
        class Stat(Base):
            qualname = cls + "." + name; params = ["self"]
            def args(self, E): return NS(self=self.args_self(E))
            def post(self, E, old, a, r): return self.same(E, old, a)
        out.append(Stat())
    return out

CONTRACTS = make("Basic_LIFO_Work_Queue", True, ["save_stats", "get_stats"]) + make("Basic_FIFO_Work_Queue", False, [])
for c in CONTRACTS:   # checked function by function, but callers inside the class see the bodies
    c.inline = True
