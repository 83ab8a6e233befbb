"""In-process work queues against reference stack/queue."""
from bounded.lib import *
import Work_Queue as WQ
class J:
    def __init__(self, n): self.n = n
def one(rep, cls, lifo, ops):
    q = cls(); ref = []; n = 0
    for i, op in enumerate(ops):
        if op[0] == "push": j = J(n); n += 1; q.push_job(j); ref.append(j)
        elif op[0] == "many":
            js = [J(n + k) for k in range(op[1])]; n += op[1]
            ref += js
            arg = js if op[2] == 0 else (iter(js) if op[2] == 1 else tuple(js))
            q.push_jobs(arg)
            if op[2] == 0: js.append(J(-1)); js[0:0] = [J(-2)]      # the caller may go on using its list
        elif op[0] == "stats":
            if hasattr(q, "get_stats"): q.get_stats()
            q.print_stats()
        else:
            for _ in range(op[1]):
                want = (ref.pop() if lifo else ref.pop(0)) if ref else None
                got = q.pop_job()
                if not rep.check(got is want, "pop_job handed out the wrong job", queue=cls.__name__, ops=ops[:i + 1], got=getattr(got, "n", None), want=getattr(want, "n", None)): return
    while ref:
        want = ref.pop() if lifo else ref.pop(0)
        got = q.pop_job()
        if not rep.check(got is want, "job lost, duplicated or reordered", queue=cls.__name__, ops=ops, got=getattr(got, "n", None), want=want.n): return
    for _ in range(2):
        if not rep.check(q.pop_job() is None, "empty queue handed out a job", queue=cls.__name__, ops=ops): return
    rep.case((cls.__name__, ops), nontrivial=n > 0)
def run(ctx):
    rng = ctx.rng
    for i in range(8000 if not ctx.thorough else 80000):
        if not ctx.time_left() or ctx.rep.violations: break
        big = rng.random() < .02
        ops = []
        for _ in range(rng.randrange(1, 14)):
            k = rng.choice(["push", "many", "pop", "pop", "stats"])
            sz = rng.choice([0, 1, 2, 3, 5] + ([100, 1000, 5000] if big else []))
            ops.append([k] if k in ("push", "stats") else [k, sz, rng.randrange(3)])
        for cls, l in ((WQ.Basic_LIFO_Work_Queue, True), (WQ.Basic_FIFO_Work_Queue, False)): one(ctx.rep, cls, l, ops)
def replay(rep, d):
    v = d["violation"]["data"]; c = getattr(WQ, v["queue"]); one(rep, c, "LIFO" in v["queue"], v["ops"])
