"""C04: in-memory claiming hands out the right job, once."""
from ..harness import *


def harness(h):
    ctx = h.ctx
    m = Mem(h)
    now = ctx.now()
    ex = h.fresh(STR, "executor")
    kind, r = h.callm(MEMB, "load_job_mark_as_executing_for_executor", [m.v, ex])
    h.prove("claiming does not panic", kind == "val")
    if kind != "val": return
    h.prove("claiming succeeds", h.isv(r, "Ok"))
    if r.conc() != 0: return
    def due(v):
        j = m.job(v).f
        return z3.And(j["executor"].t == ex.t, status_in(h, j["status"], "Scheduled", "Retryable"), j["scheduled_at"].t - now.t < 100 * 10**6)
    got = opt_cases(ctx, r.pay(0)["0"])
    if got is None:
        h.cover("nothing to claim")
        h.prove("nothing is claimed only if no job qualifies", m.forall(m.table0, lambda v: z3.Not(due(v))))
        h.eq("nothing changes when nothing is claimed", m.table, m.table0)
        return
    h.cover("a job is claimed")
    hit = m.find(m.table0, lambda v: m.id(v).t == got.f["id"].t)
    h.prove("the claimed job is a stored job", hit is not None)
    if hit is None: return
    node, v = hit
    h.prove("the claimed job qualifies", due(v))
    x = m.job(v).f
    def notbefore(e):
        j = m.job(e).f
        return z3.Implies(due(e), z3.Or(x["scheduled_at"].t < j["scheduled_at"].t,
                                        z3.And(x["scheduled_at"].t == j["scheduled_at"].t, x["priority"].t <= j["priority"].t)))
    h.prove("no qualifying job is earlier, or equally early with a smaller priority value", m.forall(m.table0, notbefore, node))
    new = lambda v: m.upd(v, status=h.enum(STATUS, "Executing"), attempt=IntV(m.job(v).f["attempt"].t + 1, "i32"), attempted_at=ctx.some(now, DT))
    want, _ = m.update(m.table0, got.f["id"].t, new)
    h.eq("exactly the claimed job changes, as prescribed", m.table, want)
    h.eq("the job is returned in its claimed state", got, m.job(new(v)))
    # a claimed job does not qualify again
    h.prove("a claimed job is not handed out again", z3.Not(due(new(v))))


def stream(h):
    """claiming as a stream does it: one round from any table"""
    from .c05 import opened
    ctx = h.ctx
    m = Mem(h)
    now = ctx.now()
    ex = h.fresh(Ty(R + "executor::ExecutorIdentifier"), "ex")
    o = opened(h, MEMB, m.v, ex, reg=False)
    if o is None: return
    kind, r = o
    now = TimeV(ctx.notes.get("round", now.t), "DateTime")
    if kind == "iter":
        h.cover("nothing to claim")
        h.eq("nothing changes while a stream waits", m.table, m.table0)
        return
    if kind != "val" or r.conc() != 0: return
    h.cover("a job is offered")
    got = ctx.deref(r.pay(0)["0"])
    hit = m.find(m.table0, lambda v: m.id(v).t == got.f["id"].t)
    h.prove("the job offered is a stored job", hit is not None)
    if hit is None: return
    node, v = hit
    def pending(v):
        j = m.job(v).f
        return z3.And(j["executor"].t == ctx.prim(ex), status_in(h, j["status"], "Scheduled", "Retryable"))
    h.prove("the job offered was pending for the executor", pending(v))
    x = m.job(v).f
    def notbefore(e):
        j = m.job(e).f
        return z3.Implies(pending(e), z3.Or(x["scheduled_at"].t < j["scheduled_at"].t,
                                            z3.And(x["scheduled_at"].t == j["scheduled_at"].t, x["priority"].t <= j["priority"].t)))
    h.prove("no pending job is earlier, or equally early with a smaller priority value", m.forall(m.table0, notbefore, node))
    new = lambda v: m.upd(v, status=h.enum(STATUS, "Executing"), attempt=IntV(m.job(v).f["attempt"].t + 1, "i32"), attempted_at=ctx.some(now, DT))
    want, _ = m.update(m.table0, got.f["id"].t, new)
    h.eq("exactly the job offered changes, as prescribed", m.table, want)
    h.eq("the job is offered in its claimed state", got, m.job(new(v)))


HARNESSES = [("claim", harness, {}), ("stream", stream, {})]
