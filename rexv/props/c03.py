"""C03: in-memory lifecycle operations change exactly the addressed job."""
from ..harness import *


def ops(h, m, now, a):
    """operation -> (arguments after id, spec: fields changed on the addressed entry)"""
    ctx = h.ctx
    some_now = ctx.some(now, DT); none = ctx.none(DT)
    st = lambda n: h.enum(STATUS, n)
    def err(j):
        e = StructV(JOBERR, {})
        f = {"attempt": IntV(j["attempt"].t, "u16"), "error_type": a["error"].f["error_type"],
             "details": a["error"].f["message"], "recorded_at": now}
        e = StructV(JOBERR, {k: f[k] for k, _ in ctx.struct_fields(JOBERR)})
        es = ctx.norm(j["errors"])
        return SeqV(list(es.parts) + [One(ctx.newnode("err"), e)], es.ety)
    def again(j): return ctx.ite(j["attempt"].t == 1, st("Scheduled"), st("Retryable"))
    return {
        "mark_job_complete": ([], lambda j: dict(status=st("Complete"), completed_at=some_now)),
        "mark_job_retryable": ([a["at"], a["error"]], lambda j: dict(status=st("Retryable"), scheduled_at=a["at"], errors=err(j))),
        "mark_job_discarded": ([a["error"]], lambda j: dict(status=st("Discarded"), discarded_at=some_now, errors=err(j))),
        "mark_job_cancelled": ([a["error"]], lambda j: dict(status=st("Cancelled"), cancelled_at=some_now, errors=err(j))),
        "mark_job_snoozed": ([a["at"]], lambda j: dict(status=again(j), scheduled_at=a["at"], attempt=IntV(j["attempt"].t - 1, "i32"))),
        "rerun_job": ([], lambda j: dict(status=again(j), scheduled_at=now, max_attempts=IntV(j["max_attempts"].t + 1, "i32"),
                                         completed_at=none, discarded_at=none, cancelled_at=none)),
    }


def harness(op):
    def run(h):
        ctx = h.ctx
        m = Mem(h)
        now = ctx.now()
        a = {"at": h.fresh(DT, "at"), "error": h.fresh(EXECERR, "error")}
        idv = h.fresh(JOBID, "id")
        idt = ctx.prim(idv)
        if op == "update_job":
            j = h.fresh(JOB, "new")
            kind, r = h.callm(MEMB, op, [m.v, j], "Backend")
            idt = j.f["id"].t
            want, hit = m.update(m.table0, idt, lambda v: m.entry(j, m.key(v)))
        else:
            extra, spec = ops(h, m, now, a)[op]
            kind, r = h.callm(MEMB, op, [m.v, idv] + extra, "Backend")
            want, hit = m.update(m.table0, idt, lambda v: m.upd(v, **spec(m.job(v).f)))
        h.prove("the operation does not panic", kind == "val")
        if kind != "val": return
        h.eq("exactly the addressed job changes, as prescribed", m.table, want)
        if hit is None:
            h.cover("unknown id")
            h.prove("an unknown id is reported as not found", z3.And(h.isv(r, "Err"), h.isv(r.pay(1)["0"], "JobNotFound")) if r.conc() == 1 else h.isv(r, "Err"))
            if r.conc() == 1:
                e = ctx.deref(r.pay(1)["0"])
                if e.conc() is not None and ctx.variants(BERR)[e.conc()][0] == "JobNotFound":
                    h.prove("the error names the id", ctx.prim(next(iter(e.pay(e.conc()).values()))) == idt)
        else:
            h.cover("known id")
            h.prove("success is reported", h.isv(r, "Ok"))
    return run


OPS = ["mark_job_complete", "mark_job_retryable", "mark_job_discarded", "mark_job_cancelled", "mark_job_snoozed", "rerun_job", "update_job"]
HARNESSES = [(op, harness(op), {}) for op in OPS]
