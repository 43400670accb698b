"""C06: enqueuing without uniqueness stores the request verbatim under a new id."""
from ..harness import *


def new_entry(h, m, job, idt, key, now):
    """spec: the entry stored for a request"""
    ctx = h.ctx
    f = dict(id=IntV(idt, "i32"), status=h.enum(STATUS, "Scheduled"), executor=job.f["executor"], data=job.f["data"], metadata=job.f["metadata"],
             attempt=IntV(0, "i32"), max_attempts=IntV(job.f["max_attempts"].t, "i32"), priority=IntV(job.f["priority"].t, "i32"),
             tags=job.f["tags"], errors=SeqV([], JOBERR), inserted_at=now, scheduled_at=job.f["scheduled_at"],
             attempted_at=ctx.none(DT), completed_at=ctx.none(DT), cancelled_at=ctx.none(DT), discarded_at=ctx.none(DT))
    return m.entry(h.struct(JOB, **f), key)


def harness(h):
    ctx = h.ctx
    m = Mem(h)
    now = ctx.now()
    ctx.assume(m.counter.cell.v.t < 2**31 - 1)
    j = h.fresh(ENQ, "job")
    j = j.with_("uniqueness_criteria", ctx.none(UC))
    kind, r = h.callm(MEMB, "enqueue", [m.v, j], "Backend")
    h.prove("enqueuing does not panic", kind == "val")
    if kind != "val": return
    h.prove("enqueuing succeeds", h.isv(r, "Ok"))
    if r.conc() != 0: return
    h.cover("a job is enqueued")
    idt = ctx.prim(r.pay(0)["0"])
    h.prove("no stored job has the new id", m.forall(m.table0, lambda v: m.id(v).t != idt))
    want = SeqV(list(ctx.norm(m.table0).parts) + [One(ctx.newnode("new"), new_entry(h, m, j, idt, ctx.none(Ty("i64")), now))], m.ety)
    h.eq("one job is added, verbatim, and no other job changes", m.table, want)
    h.prove("later ids are new as well", z3.And(m.counter.cell.v.t > idt, m.counter.cell.v.t > ctx.const("counter", ("int", 0, 2**31 - 1))))


HARNESSES = [("enqueue", harness, {})]
