"""C01: every execution outcome is recorded once, with the matching transition."""
from ..harness import *
from ..lib import SHOW, SHOWD, F, I

RUNNER = Ty(R + "job::runner::JobRunner")
ERES = Ty(R + "executor::ExecutionResult")
TJOB = Ty(R + "job::Job")
PB, PE = Ty("param", (Ty("B"),)), Ty("param", (Ty("E"),))
LIFE = ("mark_job_complete", "mark_job_retryable", "mark_job_discarded", "mark_job_cancelled", "mark_job_snoozed")


def start(h):
    """the runner's task, up to the end of the handling of one arbitrary message"""
    ctx = h.ctx
    ctx.now()
    f = {}
    for k, t in ctx.struct_fields(RUNNER):
        f[k] = OpV(ctx.const("backend", ("id",)), repr(PB), PB) if t.n == "param" else UNITV
    run = StructV(Ty(RUNNER.n, (PB, PE)), f)
    tok = ObjV("CancellationToken", id="shutdown")
    kind, r = h.callm(RUNNER, "spawn", [run, tok], self_ty=run.ty)
    h.prove("starting a runner does not panic", kind == "val")
    h.prove("the runner is one task", len(h.lib.spawned) == 1)
    if kind != "val" or len(h.lib.spawned) != 1: return None
    task = h.lib.spawned[0]
    h.it.lib.spawned = []
    limits(h)
    kind, r = h.run(lambda: h.lib.await_(task.d["fut"]))
    return kind


def limits(h):
    """representation invariant of stored jobs: counters and priority within the range the API can give"""
    ctx = h.ctx
    def f(m):
        m = ctx.deref(m)
        if m.conc() == 1: return
        j = m.pay(0)["0"].f
        for k in ("attempt", "max_attempts", "priority"): ctx.assume(z3.And(j[k].t >= 0, j[k].t <= 65535))
    ctx.notes["on_message"] = f


def events(h, *k): return [e for e in h.ctx.trace if e[0] in k]


def mentions_term(t, x):
    seen = set()
    def walk(e):
        if e.get_id() in seen: return False
        seen.add(e.get_id())
        return e.eq(x) or any(walk(c) for c in e.children())
    return walk(t)


def harness(h):
    ctx = h.ctx
    kind = start(h)
    if kind is None: return
    h.prove("no outcome stops the runner", kind != "panic")
    if kind == "panic": return
    ms = events(h, "message")
    if not ms: fail("no message handled")
    m = ctx.deref(ms[0][1])
    calls = [e for e in events(h, "call") if e[1] == "Backend" and e[2] != "subscribe_ready_jobs"]
    exes = events(h, "execute")
    if not ctx.decide(ctx.tagt(m) == 0):
        h.cover("the stream reports an error")
        h.prove("an error of the stream records nothing", not calls and not exes)
        return
    job = m.pay(0)["0"].f
    if not exes:
        h.cover("undecodable job")
        dec = [f for f in (ctx.consts) if False]
        h.prove("a job that is not executed is not reported", not calls)
        # only an undecodable job is not executed
        h.prove("every decodable job is executed", z3.Not(decodable(h, job)))
        return
    h.prove("a job is executed once", len(exes) == 1)
    x = ctx.deref(exes[0][1]).f
    h.prove("the job executed is the one offered", ctx.prim(x["id"]) == job["id"].t)
    h.prove("a blocking executor's job runs on a thread for blocking work, any other on the runtime", ctx.fresh(Ty("bool"), "E::BLOCKING").t == z3.BoolVal(exes[0][3]))
    h.prove("exactly one transition is reported", len(calls) == 1 and calls[0][2] in LIFE)
    if len(calls) != 1 or calls[0][2] not in LIFE: return
    name, args = calls[0][2], [ctx.deref(a) for a in calls[0][3]][1:]
    h.prove("the transition is for the job's id", ctx.prim(args[0]) == job["id"].t)
    now = ctx.now().t
    n = exes[0][2]
    el = events(h, "elapsed")
    touts = [e for e in events(h, "call") if e[1] == "Executor" and e[2] == "timeout"]
    for e in touts: h.eq("the timeout is that for the job", ctx.deref(e[3][0]), ctx.deref(exes[0][1]))
    tv = ctx.fresh(OPT(Ty("Duration")), touts[0][4]) if touts else None
    boffs = [e for e in events(h, "call") if e[1] == "Executor" and e[2] == "backoff"]
    what = h.outcome if hasattr(h, "outcome") else None
    def sat(d):
        t = now + d
        return z3.And(t >= DT_MIN, t <= DT_MAX), t
    def failure(etype, check):
        h.prove("a failing job is retried or discarded", name in ("mark_job_retryable", "mark_job_discarded"))
        if name not in ("mark_job_retryable", "mark_job_discarded"): return
        err = args[-1].f
        et = ctx.deref(err["error_type"])
        h.prove("the recorded error type", h.isv(et, etype))
        check(et, ctx.deref(err["message"]))
        if name == "mark_job_retryable":
            h.cover("retried after " + etype)
            h.prove("the backoff of that job is asked for", len(boffs) >= 1)
            if not boffs: return
            for b in boffs: h.eq("the backoff is computed for the job", ctx.deref(b[3][0]), ctx.deref(exes[0][1]))
            ok = []
            for b in boffs:
                inr, t = sat(ctx.fresh(TD, b[4]).t)
                ok.append(z3.Implies(inr, args[1].t == t))
            h.prove("retried at the time of reporting plus the backoff", z3.Or(ok))
        else: h.cover("discarded after " + etype)
    # what happened: the last execution event decides
    last = [e for e in ctx.trace if e[0] in ("execute", "elapsed")]
    if el:
        h.prove("a timeout only where the job has one", tv is not None and ctx.must(ctx.tagt(tv) == 1))
        if tv is None: return
        d = tv.pay(1)["0"].t
        h.prove("the job runs for its timeout before it is stopped", el[0][1].t == d)
        failure("Timeout", lambda et, msg: h.prove("the message names the timeout", mentions_term(msg.t, d)))
        return
    if tv is not None:
        # a job with a timeout is run under it
        under = ctx.notes.get("timeouts", [])
        h.prove("a job with a timeout is run under it", z3.Implies(ctx.tagt(tv) == 1, z3.BoolVal(len(under) == 1) if not under else under[0].t == tv.pay(1)["0"].t))
    pan = [k for k in ctx.consts if k.startswith("panic#") and k.endswith(".show")]
    if n in ctx.notes.get("panicked", set()):
        pn = ctx.notes["panicname"]
        def pm(et, msg):
            k = ctx.const(pn + ".payload", ("int", 0, 2))
            h.prove("the message is that of the panic", z3.And(z3.Implies(k == 0, msg.t == ctx.const(pn + ".text0", ("id",))),
                                                               z3.Implies(k == 1, msg.t == ctx.const(pn + ".text1", ("id",)))))
        failure("Panic", pm)
        return
    res = ctx.fresh(ERES, n)
    i = ctx.decide_variant(res)
    v = ctx.variants(ERES)[i][0]
    pay = {k: ctx.deref(p) for k, p in res.pay(i).items()}
    h.cover("result " + v)
    if v == "Done": h.prove("a finished job is marked complete", name == "mark_job_complete")
    elif v == "Cancel":
        h.prove("a cancelled job is marked cancelled", name == "mark_job_cancelled")
        if name == "mark_job_cancelled":
            err = args[-1].f
            h.prove("the recorded error type is cancelled", h.isv(err["error_type"], "Cancelled"))
            h.prove("the recorded message is the reason", ctx.deref(err["message"]).t == SHOW(pay["reason"].t))
    elif v == "Snooze":
        h.prove("a snoozed job is marked snoozed", name == "mark_job_snoozed")
        if name == "mark_job_snoozed":
            inr, t = sat(pay["delay"].t)
            h.prove("snoozed until the time of reporting plus the delay", z3.Implies(inr, args[1].t == t))
    elif v == "Error":
        def om(et, msg):
            h.prove("the recorded error type is the executor's", ctx.deref(et.pay(ctx.vidx(ETYPE, "Other"))["0"]).t == F("error_type", I, I)(pay["error"].t))
            h.prove("the recorded message is the executor's", msg.t == SHOW(pay["error"].t))
        failure("Other", om)
    else: fail("result " + v)


def decodable(h, job):
    """data and metadata decode at the executor's types"""
    from ..lib import DEC_OK
    fs = [c for c in h.ctx.notes.get("decodes", [])]
    return z3.And(fs + [z3.BoolVal(True)]) if fs else z3.BoolVal(False)


def defaults(h):
    ctx = h.ctx
    v = executor_default(h, "BLOCKING")
    if v is not None: h.prove("not blocking unless the executor says so", z3.Not(v.t))
    job = h.fresh(Ty(TJOB.n, (Ty("assoc", (PE, Ty("Data"))), Ty("assoc", (PE, Ty("Metadata"))))), "job")
    fi = ctx.prog.traits[R + "executor::Executor"][0]["_fns"].get("timeout")
    if fi is None or fi.body is None: fail("no default timeout")
    h.it.opaque_methods = set(h.it.opaque_methods) - {"timeout"}
    k, r = h.run(lambda: h.it.call(fi, [job], None, self_ty=PE))
    h.prove("no timeout unless the executor sets one", k == "val" and ctx.must(h.isv(r, "None")))


HARNESSES = [("runner", harness, {}), ("defaults", defaults, {})]
ASSUMPTIONS = ["the executor's backoff and timeout functions do not panic", "stored counters and priorities are in 0..65535",
               "tokio runs spawned tasks; a task that panics gives a JoinError with the panic payload"]
