"""The distributed work queue under random schedules of a simulated MPI."""
import io
from bounded import mpisim
mpisim.install()
from bounded.lib import *
import MPI_Work_Queue as Q

class Bad(Exception): pass
def one(rep, p):
    """p: parameters of one run"""
    rng = random.Random(p["seed"]); n = p["procs"]; sim = mpisim.Sim(n, rng, p["sync"], p["lag"], stick=p["stick"]); mpisim.WORLD.sim = sim
    Q.num_proc = n; Q.rank = 0; Q.time = mpisim.Clock(rng, p["pace"])
    handed, made, busy = {}, set(), set(); out = io.StringIO(); brng = random.Random(p["seed"] + 1)
    def new(job): made.add(job); return job
    def children(job):
        if p["burst"] and len(made) == p["start"]: return [new(len(made)) for _ in range(p["burst"])]
        if len(made) >= p["jobs"]: return []
        k = brng.choice(p["kids"]); return [new(len(made)) for i in range(k)]
    def master():
        m = Q.Master(pout=out)
        for i in range(p["start"]): m.push_job(new(len(made)))
        r = m.run_master()
        if m.master_queue: raise Bad("the master stopped with %d jobs in its queue" % len(m.master_queue))
        if len(handed) != len(made): raise Bad("the master stopped with %d jobs not handed out" % (len(made) - len(handed)))
        if busy: raise Bad("the master stopped while %d workers are at work" % len(busy))
    def worker(i):
        def f():
            q = Q.MPI_Worker_Work_Queue(master_proc_num=0, pout=out)
            while True:
                job = q.pop_job()
                if job is None: break
                if job not in made: raise Bad("a job was handed out that nobody pushed: %r" % (job,))
                if job in handed: raise Bad("job %r was handed out twice, to workers %d and %d" % (job, handed[job], i))
                handed[job] = i; busy.add(i)
                if brng.random() < .3: sim.switch()
                kids = children(job); keep = list(kids); mode = brng.random()
                if mode < .3 and len(kids) < 12:
                    for k in kids: q.push_job(k)
                elif mode < .9 or kids:
                    q.push_jobs(kids)
                    if kids != keep: raise Bad("push_jobs changed its caller's list")
                    kids[:] = ["not a job"]
                busy.discard(i)
            if q.local_queue: raise Bad("worker %d stopped with jobs in its queue" % i)
            if len(handed) != len(made) or busy: raise Bad("worker %d was told to stop while %d jobs are left and %d workers are at work" % (i, len(made) - len(handed), len(busy)))
        return f
    try: sim.run([master] + [worker(i) for i in range(1, n)])
    except (Bad, mpisim.Deadlock) as ex: rep.fail(str(ex), **p); return
    except Exception as ex: rep.fail("%s raised: %s" % (type(ex).__name__, ex), **p); return
    rep.check(len(handed) == len(made) and not busy, "not every job was handed out", jobs_left=len(made) - len(handed), **p)
    rep.count("pushed back to the master", sum(t[2] == Q.PUSH_JOBS for t in sim.trace)); rep.count("size updates", sum(t[2] == Q.UPDATE_MAX_QUEUE_SIZE for t in sim.trace)); rep.count("jobs", len(made))
    rep.case(tuple(sim.trace), nontrivial=len(made) > 1)
def run(ctx):
    rng = ctx.rng
    while ctx.time_left() and not ctx.rep.violations:
        one(ctx.rep, dict(burst=rng.choice([0, 0, 0, 31, 35, 60, 90]), seed=rng.randrange(1 << 40), procs=rng.choice([2, 2, 3, 3, 4, 5, 8]), sync=rng.choice([0, 0, .2, 1]), lag=rng.choice([0, .3, .6, .9]), stick=rng.choice([0, 0, .9, .98, .998]), pace=rng.choice([0, .5, 5, 50]), start=rng.choice([0, 1, 1, 3, 10, 11, 25, 40, 100, 300]), jobs=rng.choice([1, 5, 40, 120, 400, 900]), kids=rng.choice([[0, 1, 2], [0, 0, 3], [0, 1, 2, 40], [0, 5, 10], [0, 60], [1, 2], [0] * 30 + [40]])))
def replay(rep, d): one(rep, d["violation"]["data"])
