"""C21: each cron tick requests exactly one job, deduplicated per tick."""
from ..harness import *
from ..lib import ENC
from . import c01, c14, c16

REX = Ty(R + "Rexecutor"); GU = Ty(R + "GlobalUnset")
PB, PE, PZ = (Ty("param", (Ty(x),)) for x in ("B", "E", "Z"))
DATA = Ty("assoc", (PE, Ty("Data")))


def rexecutor(h):
    ctx = h.ctx
    f = {}
    for k, t in ctx.struct_fields(REX):
        f[k] = c16.backend(h) if t.n == "param" and t.a[0].n == "B" else \
            ObjV("CancellationToken", id="shutdown") if "CancellationToken" in t.n else UNITV
    return StructV(Ty(REX.n, (PB, Ty("param", (Ty("State"),)))), f)


def register(h, zone):
    """-> the cron task's first round: (schedule, data, zone, kind)"""
    ctx = h.ctx
    h.t0 = ctx.now().t
    rex = rexecutor(h)
    sched = OpV(ctx.const("schedule", ("id",)), "cron::Schedule")
    data = h.fresh(DATA, "data")
    tz = OpV(ctx.const("zone", ("id",)), repr(PZ), PZ)
    if zone: kind, r = h.callm(REX, "with_cron_executor_for_timezone", [rex, sched, data, tz], self_ty=rex.ty)
    else: kind, r = h.callm(REX, "with_cron_executor", [rex, sched, data], self_ty=rex.ty)
    h.prove("registering does not panic", kind == "val")
    if kind != "val": return None
    tasks = list(h.lib.spawned); h.lib.spawned = []
    h.prove("a cron task and a job runner are started", len(tasks) == 2)
    if len(tasks) != 2: return None
    k = ctx.choose(2, "task")
    ctx.notes["stream_loop"] = True
    c01.limits(h)
    kind, r = h.run(lambda: h.lib.await_(tasks[k].d["fut"]))
    return sched, data, tz, kind


def cron(zone):
    def run(h):
        ctx = h.ctx
        s = register(h, zone)
        if s is None: return
        sched, data, tz, kind = s
        ticks = [e for e in ctx.trace if e[0] == "tick"]
        if not ticks: return                      # the job runner: C01
        h.prove("no round of the cron runner panics", kind != "panic")
        if kind == "panic": return
        calls = [e for e in ctx.trace if e[0] == "call" and e[1] == "Backend"]
        if any(e[0] == "cancelled" or e[0] == "is_cancelled" and ctx.must(e[2]) for e in ctx.trace):
            h.cover("shut down")
            h.prove("no request after shutdown", not calls)
            h.prove("the cron runner ends on shutdown", kind == "val")
            return
        h.cover("a tick")
        h.prove("a tick does not end the cron runner, whatever the backend says", kind == "iter")
        h.prove("the ticks are those of the schedule", ticks[0][1] == sched.t)
        if zone: h.prove("the schedule is read in the given time zone", isinstance(ticks[0][3], OpV) and ctx.must(ticks[0][3].t == tz.t))
        tick = ticks[0][2]
        first = [i for i, e in enumerate(ctx.trace) if e[0] == "call" and e[1] == "Backend"]
        c14.timing(h, first[0] if first else len(ctx.trace))
        h.prove("the cron runner waits for its schedule", any(e[0] == "sleep" for e in ctx.trace))
        if not calls:
            h.cover("unencodable data")
            from ..lib import ENC_OK
            h.prove("a request is missing only if the data cannot be encoded", z3.Not(ENC_OK(h.lib.term(data))))
            return
        h.prove("one enqueue request per tick", len(calls) == 1 and calls[0][2] == "enqueue")
        if len(calls) != 1 or calls[0][2] != "enqueue": return
        job = ctx.deref(calls[0][3][1]).f
        h.prove("for the executor", job["executor"].t == ctx.fresh(STR, "E::NAME").t)
        h.prove("with the registered data", job["data"].t == ENC(h.lib.term(data)))
        h.prove("scheduled exactly at the tick", job["scheduled_at"].t == tick)
        u = ctx.deref(job["uniqueness_criteria"])
        h.prove("the request has uniqueness criteria", h.isv(u, "Some"))
        if u.conc() != 1: return
        c = ctx.deref(u.pay(1)["0"]).f
        h.prove("unique for the executor", ctx.deref(c["executor"]).t)
        dur = ctx.deref(c["duration"])
        h.prove("unique within a zero-width window", z3.And(h.isv(dur, "Some"), ctx.deref(dur.pay(1)["0"]).t == 0) if dur.conc() == 1 else False)
        key = ctx.deref(c["key"])
        h.prove("unique for the data", h.isv(key, "Some"))
        if key.conc() == 1:
            consts = set()
            def walk(e):
                if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED: consts.add(e.decl().name())
                for x in e.children(): walk(x)
            walk(ctx.deref(key.pay(1)["0"]).t)
            h.prove("the key is a function of the data alone", consts == {"data"})
        h.prove("an existing job is left alone", h.isv(c["on_conflict"], "DoNothing"))
        sts = ctx.norm(ctx.deref(c["statuses"]))
        h.prove("a job waiting for the tick counts as the same job", z3.Or([h.isv(p.v, "Scheduled") for p in sts.parts if isinstance(p, One)] + [z3.BoolVal(False)]))
    return run


HARNESSES = [("cron runner", cron(False), {}), ("cron runner in a time zone", cron(True), {})]
ASSUMPTIONS = ["cron schedules have a next tick", "the registered data encodes (otherwise no request is possible)"] + c16.ASSUMPTIONS
