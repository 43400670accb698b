"""C25: an executor never runs more jobs at once than its concurrency limit."""
from ..harness import *
from . import c01, c16, c21
from .c21 import rexecutor, REX, PB, PE


def harness(h):
    ctx = h.ctx
    ctx.now()
    rex = rexecutor(h)
    fi = h.fn(ty=REX, name="with_executor")
    kind, r = h.run(lambda: h.it.call(fi, [rex], None, self_ty=rex.ty, targs=[PE]))
    h.prove("registering an executor does not panic", kind == "val")
    if kind != "val": return
    h.prove("registering an executor starts one runner", len(h.lib.spawned) == 1)
    if len(h.lib.spawned) != 1: return
    task = h.lib.spawned[0]; h.lib.spawned = []
    c01.limits(h)
    kind, r = h.run(lambda: h.lib.await_(task.d["fut"]))
    h.prove("no outcome stops the runner", kind != "panic")
    if kind == "panic": return
    subs = [e for e in ctx.trace if e[0] == "call" and e[2] == "subscribe_ready_jobs"]
    h.prove("one subscription", len(subs) == 1)
    if len(subs) == 1:
        h.prove("on the Rexecutor's backend", ctx.deref(subs[0][3][0]).t == c16.backend(h).t)
        h.prove("for the executor's own jobs", ctx.prim(subs[0][3][1]) == ctx.fresh(STR, "E::NAME").t)
    fe = [e for e in ctx.trace if e[0] == "for_each"]
    h.prove("ready jobs are taken at one place", len(fe) == 1 and bool(subs) and fe[0][3] == ("subscribe_ready_jobs", subs[0][3]))
    if len(fe) != 1: return
    l = ctx.deref(fe[0][1])
    m = ctx.fresh(OPT(Ty("usize")), "E::MAX_CONCURRENCY")
    n, k = ctx.tagt(l), ctx.tagt(m)
    pl = l.pay(1)["0"].t if l.conc() != 0 else z3.IntVal(0)
    pm = m.pay(1)["0"].t
    h.prove("never more jobs at once than the limit", z3.Implies(z3.And(k == 1, pm > 0), z3.And(n == 1, pl <= pm, pl > 0)))
    h.prove("without a limit there is no bound", z3.Implies(k == 0, z3.Or(n == 0, pl == 0)))
    h.prove("the limit is used in full", z3.Implies(z3.And(k == 1, pm > 0), z3.And(n == 1, pl == pm)))
    ms = [i for i, e in enumerate(ctx.trace) if e[0] == "message"]
    done = [i for i, e in enumerate(ctx.trace) if e[0] == "message_done"]
    h.prove("handling of a ready job ends", len(ms) == 1 and len(done) == 1)
    if len(ms) != 1 or len(done) != 1: return
    ex = [i for i, e in enumerate(ctx.trace) if e[0] == "execute"]
    h.prove("a job is executed within its slot", all(ms[0] < i < done[0] for i in ex))
    h.prove("the slot is kept until the execution has ended", all(t.d["state"].get("awaited") and t.d["state"].get("ended") for t in h.lib.spawned))
    msg = ctx.deref(ctx.trace[ms[0]][1])
    if not ctx.decide(ctx.tagt(msg) == 0):
        h.prove("nothing is executed without a job", not ex); return
    job = msg.pay(0)["0"].f
    if not ex:
        h.cover("undecodable job")
        h.prove("every decodable job is executed", z3.Not(c01.decodable(h, job)))
        return
    h.cover("executed")
    h.prove("every ready job is executed exactly once", len(ex) == 1)
    h.prove("the job executed is the one offered", ctx.prim(ctx.deref(ctx.trace[ex[0]][1]).f["id"]) == job["id"].t)


def defaults(h):
    v = executor_default(h, "MAX_CONCURRENCY")
    if v is not None: h.prove("no limit unless the executor sets one", h.isv(v, "None"))


HARNESSES = [("runner", harness, {}), ("defaults", defaults, {})]
ASSUMPTIONS = ["futures for_each_concurrent(limit) has at most `limit` bodies in progress and runs the body once per item; a limit of 0 means no limit there",
               "a job whose timeout has elapsed counts as ended when its future is dropped (blocking code in an executor may go on)"] + c01.ASSUMPTIONS
