"""C23: each in-memory operation takes effect in one critical section.

The contracts of the operations (C03, C04, C06, C07, C08, C12) are discharged again under interference:
whenever the operation takes the table lock, the table is replaced by an arbitrary one, and the id counter
may have moved. The effect has to be the specified one on the table of the last critical section."""
from ..harness import *
from . import c03, c04, c06, c07, c12, c09


def conc(h): h.concurrent = True


def unique_replace(h):
    """unique enqueue with a replacement of the scheduled time: the duplicate found is the one rewritten"""
    ctx = h.ctx
    m, now, j, uc = c07.setup(h)
    rep = h.fresh(REPL, "rep")
    for f in ("data", "metadata", "priority", "max_attempts"): rep = rep.with_(f, BoolV(False))
    rep = rep.with_("scheduled_at", BoolV(True))
    uc = uc.with_("on_conflict", h.enum(RESOL, "Replace", rep))
    j = j.with_("uniqueness_criteria", ctx.some(uc, UC))
    kind, r = h.callm(MEMB, "enqueue", [m.v, j], "Backend")
    h.prove("enqueuing does not panic", kind == "val")
    if kind != "val" or r.conc() != 0: return
    idt = ctx.prim(r.pay(0)["0"])
    hit = m.find(m.table0, c07.dup(h, m, j, uc, now))
    if hit is None:
        want = SeqV(list(ctx.norm(m.table0).parts) + [One(ctx.newnode("new"), c06.new_entry(h, m, j, idt, uc.f["key"], now))], m.ety)
        h.eq("without a duplicate in the table written to, the job is added", m.table, want)
        return
    st = m.job(hit[1]).f["status"]
    applies = z3.Or([z3.And(h.isv(st, n), c07.L_mem(ctx, rep.f["for_statuses"], i)) for i, (n, _) in enumerate(ctx.variants(STATUS))])
    new = lambda v: m.upd(v, scheduled_at=TimeV(z3.If(applies, j.f["scheduled_at"].t, m.job(v).f["scheduled_at"].t), "DateTime"))
    want, _ = m.update(m.table0, m.id(hit[1]).t, new)
    h.prove("the id of the duplicate is returned", idt == m.id(hit[1]).t)
    h.eq("with a duplicate in the table written to, nothing is added and only it is rewritten", m.table, want)


HARNESSES = [("concurrent " + op, c03.harness(op), {"setup": conc}) for op in c03.OPS] + \
            [("concurrent claim", c04.harness, {"setup": conc}), ("concurrent enqueue", c06.harness, {"setup": conc}),
             ("concurrent unique enqueue", c07.harness, {"setup": conc}), ("concurrent unique replace", unique_replace, {"setup": conc}),
             ("concurrent prune by age", c12.age, {"setup": conc}), ("concurrent prune by length", c12.length, {"setup": conc}),
             ("concurrent query", c09.query, {"setup": conc})]
ASSUMPTIONS = ["std::sync::RwLock gives exclusive access to writers; interference by other threads only happens through the lock and the atomics"]
