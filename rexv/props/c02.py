"""C02: a job is retried only while it has attempts left."""
from ..harness import *
from . import c01


def runner(h):
    ctx = h.ctx
    kind = c01.start(h)
    if kind is None or kind == "panic": return
    ms = c01.events(h, "message")
    if not ms: fail("no message handled")
    m = ctx.deref(ms[0][1])
    calls = [e for e in c01.events(h, "call") if e[1] == "Backend"]
    if not ctx.decide(ctx.tagt(m) == 0): return
    job = m.pay(0)["0"].f
    out = job["attempt"].t >= job["max_attempts"].t
    for e in calls:
        if e[2] == "mark_job_discarded":
            h.cover("discarded")
            h.prove("a failing job is discarded only if its attempts have reached the permitted number", out)
        if e[2] == "mark_job_retryable":
            h.cover("retried")
            h.prove("a failing job is retried only while it has attempts left", z3.Not(out))
    failed = bool(c01.events(h, "elapsed")) or bool(ctx.notes.get("panicked"))
    for e in c01.events(h, "execute"):
        if not failed:
            res = ctx.fresh(c01.ERES, e[2])
            failed = ctx.must(ctx.tagt(res) == ctx.vidx(c01.ERES, "Error"))
    names = [e[2] for e in calls]
    if failed:
        h.prove("a failing job is made retryable or discarded", ("mark_job_retryable" in names) != ("mark_job_discarded" in names))


def counters(op):
    def run(h):
        ctx = h.ctx
        m = Mem(h)
        if op == "claim":
            ex = h.fresh(STR, "executor")
            kind, r = h.callm(MEMB, "load_job_mark_as_executing_for_executor", [m.v, ex])
            if kind != "val" or r.conc() != 0: h.prove("claiming succeeds", False); return
            got = opt_cases(ctx, r.pay(0)["0"])
            if got is None: return
            hit = m.find(m.table0, lambda v: m.id(v).t == got.f["id"].t)
            if hit is None: fail("claimed job not stored")
            h.cover("claimed")
            h.prove("being claimed uses one attempt", got.f["attempt"].t == m.job(hit[1]).f["attempt"].t + 1)
            h.prove("being claimed leaves the limit", got.f["max_attempts"].t == m.job(hit[1]).f["max_attempts"].t)
            return
        idv = h.fresh(JOBID, "id"); idt = ctx.prim(idv)
        args = {"mark_job_snoozed": [h.fresh(DT, "at")], "rerun_job": [], "mark_job_retryable": [h.fresh(DT, "at"), h.fresh(EXECERR, "error")],
                "mark_job_discarded": [h.fresh(EXECERR, "error")]}[op]
        kind, r = h.callm(MEMB, op, [m.v, idv] + args, "Backend")
        h.prove("the operation does not panic", kind == "val")
        if kind != "val": return
        before = m.find(m.table0, lambda v: m.id(v).t == idt)
        after = m.find(m.table, lambda v: m.id(v).t == idt)
        h.prove("the job stays stored", (before is None) == (after is None))
        if before is None or after is None: return
        h.cover("known job")
        b, a = m.job(before[1]).f, m.job(after[1]).f
        da = {"mark_job_snoozed": -1}.get(op, 0)
        dm = {"rerun_job": 1}.get(op, 0)
        h.prove("attempts used change as prescribed", a["attempt"].t == b["attempt"].t + da)
        h.prove("attempts permitted change as prescribed", a["max_attempts"].t == b["max_attempts"].t + dm)
        if op == "mark_job_retryable":
            h.prove("a retried job becomes claimable", status_in(h, a["status"], "Retryable", "Scheduled"))
        if op == "mark_job_discarded":
            h.prove("a discarded job is not claimable", z3.Not(status_in(h, a["status"], "Retryable", "Scheduled")))
    return run


def lemma(h):
    """From the contracts above: n runs of an always failing job with limit m >= 1 happen only for n <= m, and after fewer
    than m runs it is claimable again. Invariant: attempt = runs, and claimable => runs < m."""
    ctx = h.ctx
    n, a, mx = (ctx.const(x, ("int", 0, 65535)) for x in ("runs", "attempt", "limit"))
    cl = ctx.const("claimable", ("bool",)); cl2 = ctx.const("claimable_after", ("bool",))
    a2 = a + 1                        # claim
    inv = z3.And(mx >= 1, a == n, cl == (n < mx))
    step = z3.And(cl, cl2 == z3.Not(a2 >= mx))   # failure: discarded iff attempt >= limit, else retryable
    h.prove("a new job satisfies the invariant", z3.Implies(z3.And(mx >= 1, a == 0, n == 0, cl), inv))
    h.prove("each failing run keeps the invariant", z3.Implies(z3.And(inv, step), z3.And(a2 == n + 1, cl2 == (n + 1 < mx))))
    h.prove("a job is never run more often than permitted", z3.Implies(z3.And(inv, step), n + 1 <= mx))
    h.prove("a job that is not claimable has been run as often as permitted", z3.Implies(z3.And(inv, z3.Not(cl), n <= mx), n == mx))


HARNESSES = [("runner", runner, {}), ("counting", lemma, {})] + \
            [(o, counters(o), {}) for o in ("claim", "mark_job_snoozed", "rerun_job", "mark_job_retryable", "mark_job_discarded")]
ASSUMPTIONS = c01.ASSUMPTIONS + ["the Postgres statements have the same arithmetic by C20"]
