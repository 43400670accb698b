"""C07: in-memory uniqueness detects exactly the duplicates the criteria describe."""
from ..harness import *
from .c06 import new_entry


def dup(h, m, job, uc, now):
    """spec: v is a duplicate of the request under its criteria"""
    ctx = h.ctx
    def f(v):
        j = m.job(v).f; key = m.key(v)
        u = uc.f
        c = [z3.Or(h.isv(u["key"], "None"), z3.And(h.isv(key, "Some"), u["key"].pay(1)["0"].t == key.pay(1)["0"].t)),
             z3.Implies(u["executor"].t, j["executor"].t == job.f["executor"].t),
             z3.Or([z3.And(h.isv(j["status"], n), L_mem(ctx, u["statuses"], i)) for i, (n, _) in enumerate(ctx.variants(STATUS))])]
        d = u["duration"]
        diff = j["scheduled_at"].t - now.t
        c.append(z3.Implies(h.isv(d, "Some"), z3.If(diff >= 0, diff, -diff) < d.pay(1)["0"].t))
        return z3.And(c)
    return f


def L_mem(ctx, seq, i):
    """status number i is in the list"""
    seq = ctx.norm(ctx.deref(seq))
    return z3.Or([z3.BoolVal(False)] + [ctx.tagt(ctx.deref(p.v)) == i if isinstance(p, One) else MEM(p.leaf.memroot, z3.IntVal(i)) for p in seq.parts])


def setup(h):
    ctx = h.ctx
    m = Mem(h)
    now = ctx.now()
    ctx.assume(m.counter.cell.v.t < 2**31 - 1)
    j = h.fresh(ENQ, "job")
    uc = h.fresh(UC, "uc")
    j = j.with_("uniqueness_criteria", ctx.some(uc, UC))
    return m, now, j, uc


def harness(h):
    ctx = h.ctx
    m, now, j, uc = setup(h)
    # (conflict resolution is C08: here only detection, so the resolution is to do nothing)
    uc = uc.with_("on_conflict", h.enum(RESOL, "DoNothing"))
    j = j.with_("uniqueness_criteria", ctx.some(uc, UC))
    kind, r = h.callm(MEMB, "enqueue", [m.v, j], "Backend")
    h.prove("enqueuing does not panic", kind == "val")
    if kind != "val": return
    h.prove("enqueuing succeeds", h.isv(r, "Ok"))
    if r.conc() != 0: return
    idt = ctx.prim(r.pay(0)["0"])
    hit = m.find(m.table0, dup(h, m, j, uc, now))
    if hit is None:
        h.cover("no duplicate")
        h.prove("no stored job has the new id", m.forall(m.table0, lambda v: m.id(v).t != idt))
        want = SeqV(list(ctx.norm(m.table0).parts) + [One(ctx.newnode("new"), new_entry(h, m, j, idt, uc.f["key"], now))], m.ety)
        h.eq("without a duplicate the job is stored with its key", m.table, want)
    else:
        h.cover("a duplicate")
        h.prove("the id of the first duplicate is returned", idt == m.id(hit[1]).t)
        h.eq("with a duplicate nothing is added or changed", m.table, m.table0)


HARNESSES = [("enqueue_unique", harness, {})]
