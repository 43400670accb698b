"""C16: the job builder enqueues exactly what was configured."""
from ..harness import *
from ..lib import ENC, ENC_OK
from .c10 import trait_call

JB = Ty(R + "job::builder::JobBuilder")
PE = Ty("param", (Ty("E"),)); PB = Ty("param", (Ty("B"),))
ND, WD = Ty(R + "job::builder::NoData"), Ty(R + "job::builder::WithData")
DATA, META = Ty("assoc", (PE, Ty("Data"))), Ty("assoc", (PE, Ty("Metadata")))


def backend(h): return OpV(h.ctx.const("backend", ("id",)), repr(PB), PB)


def enqueue(h, b, state):
    """-> (kind, result, the requests made)"""
    ctx = h.ctx
    n = len(ctx.trace)
    fs = [f for f in ctx.prog.methods.get((JB.n, "enqueue_to_backend"), [])]
    own = [f for f in fs if len(f.impl.self_ty.a) > 1 and f.impl.self_ty.a[-1].n == state.n] or fs
    if not own: fail("no enqueue_to_backend")
    kind, r = h.run(lambda: h.it.call(own[0], [b, backend(h)], None, self_ty=Ty(JB.n, (PE, state))))
    return kind, r, [e for e in ctx.trace[n:] if e[0] == "call" and e[1] == "Backend"]


def req(h, b, state, what):
    """the request a builder makes, or None when encoding fails"""
    ctx = h.ctx
    kind, r, calls = enqueue(h, b, state)
    h.prove("enqueuing does not panic", kind == "val")
    if kind != "val": return None
    if not calls:
        h.prove("nothing is requested only if encoding fails", ctx.tagt(r) == 1)
        return None
    h.prove("exactly one enqueue request is made", len(calls) == 1 and calls[0][2] == "enqueue")
    if len(calls) != 1 or calls[0][2] != "enqueue": return None
    return ctx.deref(calls[0][3][1]).f


def builder(h, state=WD): return h.fresh(Ty(JB.n, (PE, state)), "b")


def setter(name):
    def run(h):
        ctx = h.ctx
        now = ctx.now().t
        b = builder(h)
        r0 = req(h, b, WD, "before")
        if r0 is None: return
        arg = {"with_data": lambda: h.fresh(DATA, "x"), "with_metadata": lambda: h.fresh(META, "x"), "with_max_attempts": lambda: h.fresh(Ty("u16"), "x"),
               "with_priority": lambda: h.fresh(Ty("u16"), "x"), "schedule_at": lambda: h.fresh(DT, "x"), "schedule_in": lambda: h.fresh(TD, "x"),
               "add_tag": lambda: h.fresh(STR, "x"), "with_tags": lambda: h.fresh(VEC(STR), "x"), "unique": lambda: h.fresh(UC, "x")}[name]()
        if name == "schedule_in":
            p = [p for p in h.fn(ty=JB, name=name).sig["in"] if not p.get("self")][0]
            t = ctx.prog.ty(p["ty"], h.fn(ty=JB, name=name).module, {})
            if t.n in ("Duration", "TimeDelta"): arg = h.fresh(t, "x")
            ctx.assume(z3.And(now + arg.t >= DT_MIN, now + arg.t <= DT_MAX))
        kind, b2 = h.callm(JB, name, [b, arg], self_ty=Ty(JB.n, (PE, WD)))
        h.prove("the call does not panic", kind == "val")
        if kind != "val": return
        r = req(h, b2, WD, "after")
        if r is None:
            h.prove("encoding fails only for an unencodable value", name in ("with_data", "with_metadata")); return
        h.cover("enqueued")
        want = dict(r0)
        if name == "with_data": want["data"] = OpV(ENC(h.lib.term(arg)), "Json")
        elif name == "with_metadata": want["metadata"] = OpV(ENC(h.lib.term(arg)), "Json")
        elif name == "with_max_attempts": want["max_attempts"] = arg
        elif name == "with_priority": want["priority"] = arg
        elif name == "schedule_at": want["scheduled_at"] = arg
        elif name == "schedule_in": want["scheduled_at"] = TimeV(now + arg.t, "DateTime")
        elif name == "add_tag":
            old = ctx.norm(r0["tags"])
            want["tags"] = SeqV(list(old.parts) + [One(ctx.newnode("tag"), arg)], STR)
        elif name == "with_tags": want["tags"] = arg
        elif name == "unique": want["uniqueness_criteria"] = ctx.some(arg, UC)
        for k in want: h.eq(f"the request carries the right {k}", r[k], want[k])
    return run


def fresh_builder(h):
    ctx = h.ctx
    now = ctx.now()
    kind, b = trait_builder(h)
    h.prove("making a builder does not panic", kind == "val")
    if kind != "val": return
    r = req(h, b, ND, "new")
    if r is None: h.prove("a new builder can be enqueued", False); return
    null = ctx.deref(h.lib.encode(ctx.none(DATA)).pay(0)["0"])
    want = {"executor": ctx.fresh(STR, "E::NAME"), "data": null, "metadata": null, "max_attempts": ctx.fresh(Ty("u16"), "E::MAX_ATTEMPTS"),
            "scheduled_at": now, "tags": SeqV([], STR), "priority": IntV(0, "u16"), "uniqueness_criteria": ctx.fresh(OPT(UC), "E::UNIQUENESS_CRITERIA")}
    for k in want: h.eq(f"the default {k}", r[k], want[k])


def trait_builder(h):
    fi = h.ctx.prog.traits[R + "executor::Executor"][0]["_fns"].get("builder")
    if fi is None: fail("Executor::builder")
    return h.run(lambda: h.it.call(fi, [], None, self_ty=PE))


def outcome(state):
    def run(h):
        """what enqueuing returns, for any builder"""
        ctx = h.ctx
        b = builder(h, state)
        kind, r, calls = enqueue(h, b, state)
        h.prove("enqueuing does not panic", kind == "val")
        if kind != "val": return
        h.prove("at most one request is made", len(calls) <= 1 and all(c[2] == "enqueue" for c in calls))
        if not calls:
            h.cover("encoding error")
            h.prove("without a request an encoding error is returned", h.isv(r, "Err"))
            if r.conc() == 1:
                e = ctx.deref(r.pay(1)["0"])
                h.prove("the encoding error is passed on", isinstance(e, EnumV) and e.conc() is not None and ctx.variants(e.ty)[e.conc()][0] == "EncodeError")
            return
        job = ctx.deref(calls[0][3][1]).f
        h.prove("the executor's name", job["executor"].t == ctx.fresh(STR, "E::NAME").t)
        res = ctx.fresh(RES(JOBID, BERR), calls[0][4])
        if ctx.decide(ctx.tagt(res) == 0):
            h.cover("accepted")
            h.prove("the id the backend returns is returned", z3.And(h.isv(r, "Ok"), ctx.prim(r.pay(0)["0"]) == ctx.prim(res.pay(0)["0"])) if r.conc() == 0 else False)
        else:
            h.cover("refused")
            h.prove("a backend error is passed on", h.isv(r, "Err"))
            if r.conc() == 1:
                e = ctx.deref(r.pay(1)["0"])
                ok = isinstance(e, EnumV) and e.conc() is not None and ctx.variants(e.ty)[e.conc()][0] == "BackendError"
                h.prove("as a backend error", ok)
                if ok: h.eq("the backend's own error", e.pay(e.conc())["0"], res.pay(1)["0"])
    return run


def defaults(h):
    """an executor that sets nothing"""
    v = executor_default(h, "MAX_ATTEMPTS")
    if v is not None: h.prove("five attempts unless the executor says otherwise", v.t == 5)
    v = executor_default(h, "UNIQUENESS_CRITERIA")
    if v is not None: h.prove("no uniqueness criteria unless the executor says otherwise", h.isv(v, "None"))


SETTERS = ["with_data", "with_metadata", "with_max_attempts", "with_priority", "schedule_at", "schedule_in", "add_tag", "with_tags", "unique"]
HARNESSES = [(s, setter(s), {}) for s in SETTERS] + [("defaults", defaults, {}), ("new builder", fresh_builder, {}), ("enqueue with data", outcome(WD), {}), ("enqueue without data", outcome(ND), {})]
ASSUMPTIONS = ["the time added by schedule_in stays in the range of dates"]
