"""Contracts of Code/MPI_Work_Queue.py (C24).

Jobs are counted: a list of jobs is its length and, for one arbitrary watched
job, the number of its occurrences among the first i entries.  What is proved
for the watched job holds for every job.

The network is a ghost object.  Worker: `sent` / `got` count the watched job in
messages to / from the master, `waiting` says that it asked for work and has no
answer yet.  Master: S(r) -- worker r asked for work, the request was received
and not answered; P(r) -- the number of r's messages with jobs still on the way
(meaningful while S(r): a worker that waits sends nothing, so nothing is added);
fin(r) -- r was told that there is no work left.  Channels are reliable and
ordered: when a request for work has been received, the messages its sender
sent before it are there to be probed."""
import z3
from pyvc.engine import *
from pyvc.contract import *
M = "MPI_Work_Queue"; I = z3.IntSort(); B = z3.BoolSort()
# ---- lists of jobs ------------------------------------------------------------------
def jobs(E, name, n=None):
    c = E.func(name, I, I); n = E.int(name + "_len") if n is None else n; E.assume(And(n >= 0, c(0) == 0)); E.assume(Forall([I], lambda i: Implies(i >= 0, And(c(i) <= c(i + 1), c(i + 1) <= c(i) + 1)), patterns=lambda i: [c(i + 1)]))
    E.assume(And(c(n) >= 0, c(n) <= n)); return Obj(E, "Jobs", {"c": lambda i: c(i), "n": n})
def item(E, o, i): c = o.fields["c"]; v = c(i + 1) - c(i); E.assume(And(v >= 0, v <= 1)); return Obj(E, "Job", {"is": v})
def rep(E, v):
    """(prefix counts, length) of a list of jobs"""
    if isinstance(v, Obj) and v.cls == "Jobs": return v.fields["c"], zi(v.fields["n"])
    if isinstance(v, (PyList, tuple)):
        its = v.items if isinstance(v, PyList) else v
        if not all(isinstance(x, Obj) and x.cls == "Job" for x in its): raise Unsupported("list of jobs")
        def c(i):
            s = z3.IntVal(0)
            for k, x in enumerate(its): s = s + Ite(i > k, zi(x.fields["is"]), z3.IntVal(0))
            return s
        return c, z3.IntVal(len(its))
    raise Unsupported("list of jobs: %r" % (v,))
def total(E, v): c, n = rep(E, v); return c(n)
def write(E, o, c, n): E.setfield(o, "c", c); E.setfield(o, "n", n)
def cat(c, n, d, m): return (lambda i: Ite(i <= n, c(i), c(n) + d(i - n))), n + m
def bounds(E, n, s):
    if s.step is not None: raise Unsupported("slice step")
    def norm(x, d):
        if x is None: return d
        if isinstance(x, float): raise PyRaise("TypeError", "slice indices must be integers")
        x = zi(x); x = Ite(x < 0, Ite(x + n < 0, z3.IntVal(0), x + n), x); return Ite(x > n, n, x)
    lo, hi = norm(s.start, z3.IntVal(0)), norm(s.stop, n); return lo, Ite(hi > lo, hi - lo, z3.IntVal(0))
def j_getitem(E, o, k):
    c, n = rep(E, o)
    if isinstance(k, slice):
        lo, m = bounds(E, n, k); return Obj(E, "Jobs", {"c": lambda i: c(i + lo) - c(lo), "n": m})
    return item(E, o, zi(E.index_norm(k, n)))
def j_del(E, o, lo, m):
    c, n = rep(E, o); write(E, o, lambda i: Ite(i <= lo, c(i), c(i + m) - c(lo + m) + c(lo)), n - m)
def j_setitem(E, o, k, v):
    if not isinstance(k, slice): raise Unsupported("assignment to a list entry")
    c, n = rep(E, o); lo, m = bounds(E, n, k); d, q = rep(E, v); write(E, o, lambda i: Ite(i <= lo, c(i), Ite(i <= lo + q, c(lo) + d(i - lo), c(i - q + m) - c(lo + m) + c(lo) + d(q))), n - m + q); return True
def j_attr(E, o, name):
    def append(E, x): c, n = rep(E, o); v = zi(x.fields["is"]); write(E, o, lambda i: Ite(i <= n, c(i), c(n) + v), n + 1)
    def extend(E, x): iadd(E, o, x)
    def pop(E, k=-1):
        c, n = rep(E, o)
        if not E.branch(n > 0): raise PyRaise("IndexError")
        j = zi(E.index_norm(k, n)); x = item(E, o, j); j_del(E, o, j, z3.IntVal(1)); return x
    def clear(E): write(E, o, lambda i: z3.IntVal(0), z3.IntVal(0))
    def copy(E): c, n = rep(E, o); return Obj(E, "Jobs", {"c": c, "n": n})
    return {"append": append, "extend": extend, "pop": pop, "clear": clear, "copy": copy}.get(name, MISSING)
def j_delitem(E, o, k):
    c, n = rep(E, o)
    if isinstance(k, slice): j_del(E, o, *bounds(E, n, k))
    else: j_del(E, o, zi(E.index_norm(k, n)), z3.IntVal(1))
def iadd(E, o, x): c, n = rep(E, o); d, m = rep(E, x); f, k = cat(c, n, d, m); write(E, o, f, k); return o
def j_binop(E, op, a, b):
    import ast
    if not isinstance(op, ast.Add): raise Unsupported("operation on job lists")
    f, k = cat(*(rep(E, a) + rep(E, b))); return Obj(E, "Jobs", {"c": f, "n": k})
def j_havoc(E, o, field):
    if field not in ("c", "n"): return False
    x = jobs(E, "jobs"); o.fields["c"], o.fields["n"] = x.fields["c"], x.fields["n"]; return True
# ---- MPI -----------------------------------------------------------------------------
COMM = "mpi4py.MPI.COMM_WORLD."
TAGS = ["PUSH_JOBS", "WAITING_FOR_POP", "POP_JOBS", "REPORT_QUEUE_SIZE", "UPDATE_MAX_QUEUE_SIZE"]
def tag(E, t):
    m = E.P.module(M); vals = {}
    for n in TAGS:
        v = E.resolve_global(m, n)
        if not isinstance(v, int): raise Unsupported("tag " + n)
        if v in vals: E.prove("message tags are distinct", False)
        vals[v] = n
    if isinstance(t, External) and t.path.endswith("ANY_TAG"): return "ANY"
    if t not in vals: raise Unsupported("unknown message tag %r" % (t,))
    return vals[t]
def anysrc(s): return isinstance(s, External) and s.path.endswith("ANY_SOURCE")
def net(E): return E.ghost["net"]
def put(E, f, v): E.setfield(net(E), f, v)
def get(E, f): return net(E).fields[f]
# worker side
def w_send(E, obj, dest=None, tag=None):
    t = TAG(E, tag); g = E.ghost; E.prove("sends to the master", E.truth_eq(dest, g["q"].fields["master"])); E.prove("sends nothing while it waits for work", Not(get(E, "waiting")))
    if t == "PUSH_JOBS": put(E, "sent", get(E, "sent") + total(E, obj))
    elif t == "WAITING_FOR_POP": E.prove("asks for work only when it has none", rep(E, g["q"].fields["local_queue"])[1] == 0); put(E, "waiting", True); put(E, "stop", False)
    elif t != "REPORT_QUEUE_SIZE": E.prove("sends only what the master receives", False)
def w_recv(E, source=None, tag=None, status=None):
    t = TAG(E, tag); g = E.ghost; E.prove("receives from the master", E.truth_eq(source, g["q"].fields["master"]))
    if t == "POP_JOBS":
        E.prove("an answer is expected", get(E, "waiting")); put(E, "waiting", False); r = jobs(E, "answer"); put(E, "got", get(E, "got") + total(E, r)); put(E, "stop", zi(r.fields["n"]) == 0); return r
    if t == "UPDATE_MAX_QUEUE_SIZE": E.prove("receives only a message that is there", get(E, "there")); put(E, "there", False); v = E.int("size"); E.assume(v >= 2); return v
    E.prove("receives only what the master sends", False)
def w_iprobe(E, source=None, tag=None):
    t = TAG(E, tag); b = E.bool("probe")
    if t == "UPDATE_MAX_QUEUE_SIZE": put(E, "there", b)
    return b
TAG = tag
def times(E, o):
    for k, v in list(o.fields.items()):
        if isinstance(v, float) or isinstance(v, Opaque) or "time" in k or "interval" in k: o.fields[k] = Opaque(k)
def mk_worker(E):
    o = E.construct(E.cls(M, "MPI_Worker_Work_Queue"), [E.int("master")], {}); times(E, o); o.fields["pout"] = Opaque("pout")
    E.prove("a new queue is empty", rep(E, o.fields["local_queue"])[1] == 0); E.prove("a new queue's limits", And(zi(o.fields["target_queue_size"]) >= 1, zi(o.fields["max_queue_size"]) >= zi(o.fields["target_queue_size"])))
    o.fields["local_queue"] = jobs(E, "local"); mx, tg = E.int("max"), E.int("target"); o.fields["max_queue_size"], o.fields["target_queue_size"] = mx, tg; E.assume(And(tg >= 1, mx >= tg))
    for k in ("jobs_popped", "jobs_pushed"): o.fields[k] = E.int(k)
    E.ghost["q"] = o; E.ghost["lq0"] = o.fields["local_queue"]; E.ghost["net"] = Obj(E, "Net", {"sent": z3.IntVal(0), "got": z3.IntVal(0), "waiting": z3.BoolVal(False), "stop": z3.BoolVal(False), "there": z3.BoolVal(False)}); return o
def havoc_heap(E, fr, o, f):
    if isinstance(o, Obj) and f in ("master_queue", "local_queue"): o.fields[f] = jobs(E, f); return True
    if isinstance(o, Obj) and isinstance(o.fields.get(f), (float, Opaque)): o.fields[f] = Opaque(f); return True
    return False
def havoc_local(E, fr, n):
    v = fr.locals[n]
    if isinstance(v, Obj) and v.cls == "Jobs": return jobs(E, n)
    if isinstance(v, (Opaque, Obj, float, PyList)): return Opaque(n)
    return MISSING
def wok(E, a): q = a.self.fields; return [("the limits", And(zi(q["target_queue_size"]) >= 1, zi(q["max_queue_size"]) >= zi(q["target_queue_size"]))), ("not waiting", Not(get(E, "waiting")))]
class WC(Contract):
    module = M; inline = True
    def args(self, E): return NS(self=mk_worker(E), **self.more(E))
    def more(self, E): return {}
    def old(self, E, a): return NS(q=total(E, a.self.fields["local_queue"]), n=rep(E, a.self.fields["local_queue"])[1], lq=a.self.fields["local_queue"])
    def modifies(self, E, a): return [(a.self, f) for f in a.self.fields if f != "master"] + [(E.ghost["lq0"], x) for x in ("c", "n")] + [(net(E), f) for f in net(E).fields]
    def loops(self):
        inv = lambda E, env: wok(E, NS(self=E.ghost["q"])) + [("no job is gained or lost", total(E, E.ghost["q"].fields["local_queue"]) + get(E, "sent") == E.ghost["base"] + get(E, "got"))]
        def pre(E, env): E.ghost["base"] = total(E, E.ghost["q"].fields["local_queue"]) + get(E, "sent") - get(E, "got")
        return [Loop("messages", inv, pre=pre, havoc_heap=havoc_heap, havoc_local=havoc_local)]
    def bal(self, E, old, a, more=0): return [("no job is lost, duplicated or invented", total(E, a.self.fields["local_queue"]) + get(E, "sent") + more == old.q + get(E, "got"))]
class Pop(WC):
    qualname = "MPI_Worker_Work_Queue.pop_job"; params = ["self"]
    def post(self, E, old, a, r):
        if r is None: return [("no job only when the master says so, and none is held", And(get(E, "stop"), rep(E, a.self.fields["local_queue"])[1] == 0))] + self.bal(E, old, a) + wok(E, a)
        if not (isinstance(r, Obj) and r.cls == "Job"): return [("a job", False)]
        return self.bal(E, old, a, zi(r.fields["is"])) + wok(E, a)
class Push(WC):
    qualname = "MPI_Worker_Work_Queue.push_job"; params = ["self", "job"]
    def more(self, E): v = E.int("is"); E.assume(And(v >= 0, v <= 1)); return {"job": Obj(E, "Job", {"is": v})}
    def post(self, E, old, a, r): return self.bal(E, old, a, -zi(a.job.fields["is"])) + wok(E, a)
class PushMany(WC):
    qualname = "MPI_Worker_Work_Queue.push_jobs"; params = ["self", "jobs"]
    def more(self, E): return {"jobs": jobs(E, "new")}
    def old(self, E, a): r = WC.old(self, E, a); r.j = total(E, a.jobs); r.jn = zi(a.jobs.fields["n"]); return r
    def post(self, E, old, a, r): return self.bal(E, old, a, -old.j) + wok(E, a) + [("the caller's list is left alone", And(total(E, a.jobs) == old.j, zi(a.jobs.fields["n"]) == old.jn, a.self.fields["local_queue"] is not a.jobs))]
class Extra(WC):
    qualname = "MPI_Worker_Work_Queue._send_extra"; params = ["self"]
    def post(self, E, old, a, r): return self.bal(E, old, a) + wok(E, a)
class Update(Extra):
    qualname = "MPI_Worker_Work_Queue._update_max_queue_size"; params = ["self"]
class Report(Extra):
    qualname = "MPI_Worker_Work_Queue._report_queue_size"; params = ["self"]
# ---- master side ---------------------------------------------------------------------
def settled(E): return get(E, "S")
def m_probe(E, source=None, tag=None): return None
def m_iprobe(E, source=None, tag=None):
    t = TAG(E, tag); E.prove("probes for any worker", anysrc(source)); b = E.bool("probe"); put(E, "there", t)
    if not E.branch(b):
        if t == "PUSH_JOBS": S, P = get(E, "S"), get(E, "P"); E.assume(Forall([I], lambda r: Implies(S(r), P(r) == 0), patterns=lambda r: [S(r)] if uf(S(r)) else None))
        put(E, "there", None); return False
    return True
def uf(t): return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0
def np_(E): return E.ghost["NP"]
def m_recv(E, source=None, tag=None, status=None):
    t = TAG(E, tag); E.prove("receives from any worker", anysrc(source)); E.prove("receives only a message that is there", get(E, "there") == t); put(E, "there", None); r = E.int("source"); E.assume(And(r >= 1, r < np_(E)))
    if status is not None: E.setfield(status, "source", r)
    S, P, F = get(E, "S"), get(E, "P"), get(E, "fin"); E.assume(Not(F(r)))
    if t == "WAITING_FOR_POP":
        p = E.int("on the way"); E.assume(And(Not(S(r)), p >= 0)); put(E, "S", lambda x: Or(x == r, S(x))); put(E, "P", lambda x: Ite(x == r, p, P(x))); return None
    if t == "PUSH_JOBS": E.assume(Or(Not(S(r)), P(r) > 0)); put(E, "P", lambda x: Ite(And(x == r, S(r)), P(r) - 1, P(x))); L = jobs(E, "pushed"); put(E, "got", get(E, "got") + total(E, L)); return L
    if t == "REPORT_QUEUE_SIZE": v = E.int("reported"); E.assume(v >= 0); return v
    E.prove("receives only what workers send", False)
def m_send(E, obj, dest=None, tag=None):
    t = TAG(E, tag)
    if t != "POP_JOBS": E.prove("sends only what workers receive", False)
    c, n = rep(E, obj); d = zi(dest); S, P, F = get(E, "S"), get(E, "P"), get(E, "fin"); E.prove("answers a worker that waits for work, once", And(d >= 1, d < np_(E), S(d), Not(F(d)))); put(E, "S", lambda x: And(x != d, S(x)))
    if E.branch(n == 0):
        mq = E.ghost["m"].fields["master_queue"]
        E.prove("says there is no work only when the queue is empty", rep(E, mq)[1] == 0); E.prove("says there is no work only when every worker waits and nothing is on the way", Forall([I], lambda r: Implies(And(r >= 1, r < np_(E)), Or(F(r), And(S(r), P(r) == 0)))))
        put(E, "fin", lambda x: Or(x == d, F(x)))
    else: put(E, "out", get(E, "out") + c(n))
def m_isend(E, obj, dest=None, tag=None):
    E.prove("sends only what workers receive", TAG(E, tag) == "UPDATE_MAX_QUEUE_SIZE"); E.prove("a usable size, to a worker", And(zi(obj) >= 2, zi(dest) >= 1, zi(dest) < np_(E))); return Opaque("request")
CODE = {True: 1, False: 0, None: -1}
def listmul(E, l, n):
    if len(l.items) != 1: raise Unsupported("list repetition")
    v = l.items[0]; E.prove("one entry for each process", zi(n) == np_(E))
    if isinstance(v, bool): o = Obj(E, "Flags", {"f": lambda i: z3.IntVal(CODE[v]), "n": zi(n)}); E.ghost["ws"] = o; return o
    if isinstance(v, int): o = Obj(E, "Sizes", {"f": lambda i: z3.IntVal(v), "n": zi(n)}); E.ghost.setdefault("sizes", []).append(o); return o
    if v is None: return Obj(E, "Reqs", {"n": zi(n)})
    raise Unsupported("list repetition")
def arr_set(E, o, k, v):
    j = zi(E.index_norm(k, o.fields["n"])); f = o.fields["f"]
    if o.cls == "Flags":
        if not (v is None or isinstance(v, bool)): raise Unsupported("worker state")
        w = z3.IntVal(CODE[v])
    else: w = zi(v)
    E.setfield(o, "f", lambda i: Ite(i == j, w, f(i))); return True
def inr(o, i): return And(i >= 0, i < o.fields["n"])
def fl_contains(E, o, v):
    f = o.fields["f"]; i = z3.Int("i!in"); return z3.Exists([i], And(inr(o, i), f(i) == CODE[v]))
def fl_attr(E, o, name):
    f = o.fields["f"]
    def index(E, v):
        if not E.branch(fl_contains(E, o, v)): raise PyRaise("ValueError")
        r = E.int("first"); E.assume(And(inr(o, r), f(r) == CODE[v])); E.assume(Forall([I], lambda i: Implies(And(i >= 0, i < r), f(i) != CODE[v]))); return r
    def count(E, v): n = E.int("count"); E.assume(n >= 0); E.assume((n > 0) == fl_contains(E, o, v)); return n
    return {"index": index, "count": count}.get(name, MISSING)
def arr_havoc(E, o, field):
    if field != "f": return False
    g = E.func("arr", I, I); o.fields["f"] = lambda i: g(i); return True
def net_havoc(E, o, field):
    v = o.fields[field]
    if field in ("S", "fin"): g = E.func(field, I, B); o.fields[field] = lambda i: g(i)
    elif field == "P": g = E.func("P", I, I); o.fields[field] = lambda i: g(i)
    elif field == "there": o.fields[field] = None if not z3.is_expr(v) else E.bool("there")
    elif field in ("waiting", "stop"): o.fields[field] = E.bool(field)
    else: o.fields[field] = E.int(field)
    return True
def arr_get(E, o, k):
    if o.cls == "Reqs": E.index_norm(k, o.fields["n"]); return Opaque("request")
    j = zi(E.index_norm(k, o.fields["n"])); v = o.fields["f"](j)
    if o.cls == "Flags":
        if E.branch(v == 1): return True
        if E.branch(v == 0): return False
        return None
    return v
class Run(Contract):
    module = M; qualname = "Master.run_master"; params = ["self"]; feas_ms = 30; budget_s = 400
    def args(self, E):
        n = E.int("processes"); E.assume(n >= 2); E.ghost["NP"] = n
        o = E.construct(E.cls(M, "Master"), [], {}); E.prove("a new master has no jobs", rep(E, o.fields["master_queue"])[1] == 0); times(E, o); o.fields["pout"] = Opaque("pout"); o.fields["master_queue"] = jobs(E, "queue"); E.ghost["m"] = o
        E.ghost["net"] = Obj(E, "Net", {"S": lambda r: z3.BoolVal(False), "P": lambda r: z3.IntVal(0), "fin": lambda r: z3.BoolVal(False), "got": z3.IntVal(0), "out": z3.IntVal(0), "there": None})
        return NS(self=o)
    def old(self, E, a): E.ghost["q0"] = q = total(E, a.self.fields["master_queue"]); return NS(q=q)
    def modifies(self, E, a): return [(a.self, f) for f in a.self.fields] + [(a.self.fields["master_queue"], x) for x in ("c", "n")] + [(net(E), f) for f in net(E).fields]
    def balance(self, E): return ("no job is lost, duplicated or invented", total(E, E.ghost["m"].fields["master_queue"]) + get(E, "out") == E.ghost["q0"] + get(E, "got"))
    def loops(self):
        def inv(stopping):
            def f(E, env):
                S, P, F, ws, n = get(E, "S"), get(E, "P"), get(E, "fin"), E.ghost["ws"].fields["f"], np_(E)
                out = [self.balance(E), ("a worker counts as waiting exactly when it waits for an answer", Forall([I], lambda r: Implies(And(r >= 1, r < n), And(Or(ws(r) == 0, ws(r) == 1), (ws(r) == 0) == Or(S(r), F(r)))))), ("the master is no worker", ws(0) == -1), ("messages on the way", Forall([I], lambda r: P(r) >= 0)), ("never both", Forall([I], lambda r: Not(And(S(r), F(r)))))]
                if not stopping: return out + [("nobody has been told to stop", Forall([I], lambda r: Not(F(r))))]
                k = zi(env.extra["k"]); return out + [("the queue is empty", rep(E, E.ghost["m"].fields["master_queue"])[1] == 0), ("the first ones have been told", Forall([I], lambda r: Implies(And(r >= 1, r < n), F(r) == (r < 1 + k)))), ("every other worker waits", Forall([I], lambda r: Implies(And(r >= 1, r < n), Or(S(r), F(r))))), ("nothing is on the way", Forall([I], lambda r: Implies(And(r >= 1, r < n, S(r)), P(r) == 0)))]
            return f
        drained = lambda E, env: [("no message with jobs of a waiting worker is on the way", Forall([I], lambda r: Implies(And(r >= 1, r < np_(E), get(E, "S")(r)), get(E, "P")(r) == 0))), ("batch", And(zi(env.num_jobs_per_batch) >= 1) if env.has("num_jobs_per_batch") else True)]
        def fr_(E, fr): m = E.ghost["m"]; return [(net(E), f) for f in ("S", "P", "fin", "got", "out", "there")] + [(E.ghost["ws"], "f")] + [(x, "f") for x in E.ghost.get("sizes", [])] + [(m, f) for f, v in m.fields.items() if f == "master_queue" or isinstance(v, (Opaque, float))]
        import ast
        def mk(name, stop=False, match=None): return Loop(name, inv(stop), candidates=None if stop else drained, frame=fr_, havoc_heap=havoc_heap, havoc_local=havoc_local, match=match or (lambda E, s, fr: True), bind_unbound=lambda E, fr, n, k: MISSING)
        isstop = lambda E, s, fr: isinstance(s, ast.For) and "POP_JOBS" in ast.unparse(s)
        return [mk("telling the workers to stop", True, isstop)] + [mk("%d" % i, match=lambda E, s, fr: not isstop(E, s, fr)) for i in range(7)]
    def post(self, E, old, a, r): return [self.balance(E), ("stops only when the queue is empty", rep(E, a.self.fields["master_queue"])[1] == 0), ("stops only after telling every worker", Forall([I], lambda x: Implies(And(x >= 1, x < np_(E)), get(E, "fin")(x))))]
class MPush(Contract):
    module = M; qualname = "Master.push_job"; params = ["self", "job"]; inline = True
    def args(self, E):
        a = Run().args(E); v = E.int("is"); E.assume(And(v >= 0, v <= 1)); a.job = Obj(E, "Job", {"is": v}); return a
    def old(self, E, a): return NS(q=total(E, a.self.fields["master_queue"]))
    def modifies(self, E, a): return Run.modifies(self, E, a)
    def post(self, E, old, a, r): return [("the job is added", total(E, a.self.fields["master_queue"]) == old.q + zi(a.job.fields["is"]))]
def st_attr(E, o, name):
    if name == "Get_source": return lambda E: o.fields["source"]
    if name == "source": return o.fields["source"]
    return MISSING
def disp(w, m):
    def f(E, *a, **k): return (w if "q" in E.ghost else m)(E, *a, **k)
    return f
JX = {("Jobs", "getitem"): j_getitem, ("Jobs", "setitem"): j_setitem, ("Jobs", "attr"): j_attr, ("Jobs", "len"): lambda E, o: rep(E, o)[1], ("Jobs", "truth"): lambda E, o: rep(E, o)[1] > 0, ("binop", "Jobs"): j_binop, ("Jobs", "iadd"): iadd, ("Jobs", "delitem"): j_delitem, ("Jobs", "havoc"): j_havoc, ("Net", "havoc"): net_havoc,
      ("listmul", "*"): listmul, ("Flags", "setitem"): arr_set, ("Sizes", "setitem"): arr_set, ("Reqs", "setitem"): lambda E, o, k, v: (E.index_norm(k, o.fields["n"]), True)[1], ("Flags", "getitem"): arr_get, ("Sizes", "getitem"): arr_get, ("Reqs", "getitem"): arr_get, ("Flags", "contains"): fl_contains, ("Flags", "attr"): fl_attr, ("Flags", "havoc"): arr_havoc, ("Sizes", "havoc"): arr_havoc,
      ("Flags", "len"): lambda E, o: o.fields["n"], ("Sizes", "len"): lambda E, o: o.fields["n"], ("Reqs", "len"): lambda E, o: o.fields["n"], ("Status", "attr"): st_attr}
def b_sum(E, args, kw):
    if isinstance(args[0], Obj) and args[0].cls == "Sizes": return E.int("sum")
    return MISSING
EXTS = dict(JX); EXTS.update({("external", COMM + "send"): disp(w_send, m_send), ("external", COMM + "recv"): disp(w_recv, m_recv), ("external", COMM + "Iprobe"): disp(w_iprobe, m_iprobe), ("external", COMM + "Probe"): m_probe, ("external", COMM + "isend"): m_isend, ("external", COMM + "Get_size"): lambda E: np_(E), ("external", COMM + "Get_rank"): lambda E: E.int("rank"),
    ("external", "mpi4py.MPI.Status"): lambda E: Obj(E, "Status", {"source": E.int("unset")}), ("builtin", "sum"): b_sum})
CONTRACTS = [Pop(), Push(), PushMany(), Extra(), Update(), Report(), MPush(), Run()]
class Protocol(Lemma):
    """The two sides put together, seen from one arbitrary worker (all others
    are summed up in `rest`): counts of the watched job in the master's queue,
    on the way up and down, in the worker's hands, handed out."""
    name = "the contracts of both sides add up: every job exactly once, and none is left at the end"
    INTS = ["mq", "up", "down", "loc", "handed", "rest", "nloc", "nup", "ndown"]; BOOLS = ["waiting", "req", "ans", "busy", "fin"]
    def inv(self, s, tot):
        return [("each occurrence of the job is in one place", s.mq + s.up + s.down + s.loc + s.handed + s.rest == tot), ("counts", And(*[getattr(s, k) >= 0 for k in self.INTS])), ("no jobs in no messages", And(Implies(s.nup == 0, s.up == 0), Implies(s.nloc == 0, s.loc == 0), Implies(s.ndown == 0, s.down == 0))), ("a worker that waits holds nothing", Implies(s.waiting, And(s.nloc == 0, Not(s.busy)))),
                ("a request or an answer is on the way only to a waiting worker", And(Implies(s.req, s.waiting), Implies(s.ans, s.waiting), Not(And(s.req, s.ans)), Implies(Not(s.ans), s.ndown == 0))), ("a worker told to stop has nothing", Implies(s.fin, And(s.nloc == 0, s.nup == 0, Not(s.busy), Not(s.req), s.ndown == 0)))]
    def obligations(self, E):
        def st(): return NS(**{k: E.int(k) for k in self.INTS}, **{k: E.bool(k) for k in self.BOOLS})
        tot = E.int("total"); s = st(); E.assume([c for _, c in self.inv(s, tot)]); x, k = E.int("x"), E.int("k"); E.assume(And(x >= 0, k >= 0, Implies(k == 0, x == 0)))
        def up(**d): t = dict(vars(s)); t.update(d); return NS(**t)
        free = And(Not(s.waiting), Not(s.fin)); S = And(s.waiting, Not(s.req), Not(s.ans))
        acts = [("worker hands out a job it holds", And(free, s.nloc >= 1, x <= 1, x <= s.loc, Implies(s.nloc == 1, x == s.loc)), up(nloc=s.nloc - 1, loc=s.loc - x, handed=s.handed + x, busy=z3.BoolVal(True)), 0),
                ("worker pushes new jobs", free, up(nloc=s.nloc + k, loc=s.loc + x), x), ("worker sends jobs to the master", And(free, k <= s.nloc, x <= s.loc, Implies(k == s.nloc, x == s.loc)), up(nloc=s.nloc - k, loc=s.loc - x, nup=s.nup + 1, up=s.up + x), 0),
                ("worker finishes its job", s.busy, up(busy=z3.BoolVal(False)), 0), ("worker asks for work", And(free, s.nloc == 0, Not(s.busy)), up(waiting=z3.BoolVal(True), req=z3.BoolVal(True)), 0),
                ("worker receives its answer", And(s.ans, s.ndown > 0), up(waiting=z3.BoolVal(False), ans=z3.BoolVal(False), nloc=s.nloc + s.ndown, loc=s.loc + s.down, ndown=z3.IntVal(0), down=z3.IntVal(0)), 0),
                ("master receives jobs", And(s.nup >= 1, x <= s.up, Implies(s.nup == 1, x == s.up)), up(nup=s.nup - 1, up=s.up - x, mq=s.mq + x), 0), ("master receives the request", s.req, up(req=z3.BoolVal(False)), 0),
                ("master answers with jobs", And(S, Not(s.fin), k >= 1, x <= s.mq), up(ans=z3.BoolVal(True), ndown=k, down=x, mq=s.mq - x), 0), ("master says there is no work", And(S, s.nup == 0), up(ans=z3.BoolVal(True), fin=z3.BoolVal(True)), 0)]
        for name, guard, t, made in acts:
            for l, c in self.inv(t, tot + made): E.prove("%s: %s" % (name, l), Implies(guard, c))
        E.prove("while a worker waits it adds nothing on the way (the master may count on what it found drained)", And(*[Implies(And(g, s.waiting), t.nup <= s.nup) for n, g, t, _ in acts]))
        E.prove("only the master's answer ends the waiting the master knows of", And(*[Implies(And(g, S, Not(n.startswith("master answers") or n.startswith("master says"))), And(t.waiting, Not(t.req), Not(t.ans))) for n, g, t, _ in acts]))
        E.prove("when every worker waits, nothing is on the way and the queue is empty, every job has been handed out", Implies(And(S, s.nup == 0, s.mq == 0, s.rest == 0), s.handed == tot))
LEMMAS = ["Protocol"]
