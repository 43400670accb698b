"""C26: after shutdown no runner starts new work."""
from ..harness import *
from . import c01, c14, c16, c21
from .c21 import rexecutor, REX, PB, PE

TOK = "shutdown"


def token(h, rex):
    """the tokens a Rexecutor holds"""
    return [v for v in (h.ctx.deref(x) for x in rex.f.values()) if isinstance(v, ObjV) and v.kind == "CancellationToken"]


def same(h, r, what):
    r = h.ctx.deref(r)
    h.prove(what, isinstance(r, StructV) and [t.d["id"] for t in token(h, r)] == [TOK])


def waits_on(i): return i.get("kind") == "cancelled" and (i.get("id") == TOK or str(i.get("id")).startswith(TOK + "/"))


def not_requested(h, i, what):
    """when event i happens, no shutdown had been requested at the last time the task was resumed"""
    ctx = h.ctx
    tr = ctx.trace[:i]
    last = max([n for n, e in enumerate(tr) if e[0] == "sleep"] + [-1])
    ok = z3.BoolVal(False)
    for n, e in enumerate(tr):
        if e[0] == "select" and n < last:
            between = [x for x in tr[n + 1:last] if x[0] in ("sleep", "call", "foreach")]
            if not between and e[2] and any(waits_on(x) for x in e[1][:e[3]]): ok = z3.BoolVal(True)
        if e[0] == "is_cancelled" and n > last and (e[1] == TOK or e[1].startswith(TOK + "/")): ok = z3.Or(ok, z3.Not(e[2]))
    h.prove(what, ok)


def stops(h, kind, first, what):
    """a periodic task: ends on shutdown without a call, and does not start a run once shutdown was requested"""
    ctx = h.ctx
    h.prove(f"no round of the {what} panics", kind != "panic")
    if kind == "panic": return
    sel = [e for e in ctx.trace if e[0] in ("select", "is_cancelled")]
    h.prove(f"the {what} looks for the shutdown request in every round", any((e[0] == "select" and any(waits_on(x) for x in e[1])) or e[0] == "is_cancelled" for e in sel))
    stopped = [n for n, e in enumerate(ctx.trace) if e[0] == "cancelled"]
    if stopped:
        h.cover("shut down")
        h.prove(f"the {what} reacts to its own Rexecutor's shutdown", all(e[1] == TOK or e[1].startswith(TOK + "/") for e in ctx.trace if e[0] == "cancelled"))
        h.prove(f"no call of the {what} after shutdown", not first or first[0] < stopped[0])
        h.prove(f"the {what} ends on shutdown", kind == "val")
        return
    for n in first[:1]: not_requested(h, n, f"no run of the {what} starts once shutdown was requested")
    # waiting is interruptible: every wait of a second or more is given up on shutdown
    for n, e in enumerate(ctx.trace):
        if e[0] != "sleep": continue
        prev = [x for x in ctx.trace[:n] if x[0] in ("select", "sleep", "call", "foreach")]
        if prev and prev[-1][0] == "select" and any(waits_on(x) for x in prev[-1][1]): continue
        h.prove(f"a wait of the {what} that shutdown does not interrupt is short", e[1].t <= NS)


def cron(zone):
    def run(h):
        ctx = h.ctx
        h.t0 = ctx.now().t
        s = c21.register(h, zone)
        if s is None: return
        if not any(e[0] == "tick" for e in ctx.trace):
            if not any(e[0] == "for_each" for e in ctx.trace) and any(e[0] == "is_cancelled" and ctx.must(e[2]) for e in ctx.trace): stops(h, s[3], [], "cron runner")
            else: jobs(h, s[3])
            return
        stops(h, s[3], [i for i, e in enumerate(ctx.trace) if e[0] == "call" and e[1] == "Backend"], "cron runner")
    return run


def pruner(h):
    ctx = h.ctx
    ctx.now()
    rex = rexecutor(h)
    cfg = h.fresh(c14.CFG, "cfg")
    kind, r = h.callm(REX, "with_job_pruner", [rex, cfg], self_ty=rex.ty)
    h.prove("registering a pruner does not panic", kind == "val")
    if kind != "val": return
    same(h, r, "the registered Rexecutor keeps its shutdown token")
    h.prove("the pruner is one task", len(h.lib.spawned) == 1)
    if len(h.lib.spawned) != 1: return
    task = h.lib.spawned[0]; h.lib.spawned = []
    ctx.notes["stream_loop"] = True
    kind, r = h.run(lambda: h.lib.await_(task.d["fut"]))
    stops(h, kind, [i for i, e in enumerate(ctx.trace) if e[0] == "foreach" and any(x[0] == "call" for x in e[3]) or e[0] == "call" and e[1] == "Backend"], "pruner")


def jobs(h, kind):
    """the job runner's task, after the handling of one message"""
    ctx = h.ctx
    h.prove("no outcome stops the runner", kind != "panic")
    fe = [e for e in ctx.trace if e[0] == "for_each"]
    h.prove("ready jobs are taken at one place", len(fe) == 1)
    if len(fe) != 1: return
    u = fe[0][2]
    h.prove("no job is taken once shutdown was requested", isinstance(u, FutV) and waits_on(u.info))
    h.prove("shutdown does not interrupt a job being executed or recorded",
            not any(e[0] == "abort" or e[0] == "select" and any(x.get("kind") in ("cancelled", "for_each") for x in e[1]) for e in ctx.trace))
    h.prove("the runner ends when no job is taken any more", kind == "val")


def runner(h):
    ctx = h.ctx
    ctx.now()
    rex = rexecutor(h)
    fi = h.fn(ty=REX, name="with_executor")
    kind, r = h.run(lambda: h.it.call(fi, [rex], None, self_ty=rex.ty, targs=[PE]))
    h.prove("registering an executor does not panic", kind == "val")
    if kind != "val": return
    same(h, r, "the registered Rexecutor keeps its shutdown token")
    h.prove("the runner is one task", len(h.lib.spawned) == 1)
    if len(h.lib.spawned) != 1: return
    task = h.lib.spawned[0]; h.lib.spawned = []
    c01.limits(h)
    kind, r = h.run(lambda: h.lib.await_(task.d["fut"]))
    jobs(h, kind)


def shutdown(h):
    ctx = h.ctx
    kind, r = h.callm(REX, "graceful_shutdown", [rexecutor(h)], self_ty=rexecutor(h).ty)
    h.prove("shutting down does not panic", kind == "val")
    h.prove("graceful shutdown requests the shutdown", [e for e in ctx.trace if e[0] == "cancel"] == [("cancel", TOK)])


def guard(h):
    ctx = h.ctx
    kind, r = h.callm(REX, "drop_guard", [rexecutor(h)], self_ty=rexecutor(h).ty)
    h.prove("making a drop guard does not panic", kind == "val")
    if kind != "val": return
    h.prove("making a drop guard does not shut down yet", not [e for e in ctx.trace if e[0] == "cancel"])
    found = []
    def walk(v):
        v = ctx.deref(v)
        if isinstance(v, ObjV) and v.kind == "TokenDropGuard": found.append(v.d["id"])
        elif isinstance(v, StructV):
            if ("Drop", v.ty.n) in {(t.split("::")[-1], n) for t, n in ctx.prog.trait_impls}: fail("a drop guard of its own kind")
            for x in v.f.values(): walk(x)
        elif isinstance(v, EnumV) and v.conc() is not None:
            for x in v.pay(v.conc()).values(): walk(x)
    walk(r)
    h.prove("dropping the guard requests the shutdown", found == [TOK])


def global_(h):
    ctx = h.ctx
    from . import c22
    rex = rexecutor(h)
    rex = StructV(Ty(REX.n, (PB, c21.GU)), rex.f)
    kind, r = h.callm(REX, "set_global_backend", [rex], self_ty=rex.ty)
    h.prove("setting the global backend does not panic", kind == "val")
    if kind != "val": return
    if ctx.decide(ctx.tagt(r) == 0): same(h, r.pay(0)["0"], "setting the global backend keeps the shutdown token")
    h.prove("and does not shut down", not [e for e in ctx.trace if e[0] == "cancel"])


def fresh(h):
    kind, r = h.callm(REX, "new", [c16.backend(h)], self_ty=Ty(REX.n, (PB, c21.GU)))
    h.prove("a new Rexecutor is made", kind == "val")
    if kind != "val": return
    h.prove("a new Rexecutor is not shut down", len(token(h, r)) == 1 and not [e for e in h.ctx.trace if e[0] == "cancel"])


HARNESSES = [("job runner", runner, {}), ("cron runner", cron(False), {}), ("cron runner in a time zone", cron(True), {}), ("pruner", pruner, {}),
             ("graceful shutdown", shutdown, {}), ("drop guard", guard, {}), ("global backend", global_, {}), ("new", fresh, {})]
ASSUMPTIONS = ["a cancelled CancellationToken completes cancelled() at once; tokio_util's DropGuard cancels its token when dropped",
               "futures take_until looks at its future before the stream on every poll; a biased select! polls its branches in order",
               "cron schedules have a next tick"] + c01.ASSUMPTIONS
