"""C22: management calls reach the right backend exactly once and unchanged."""
from ..harness import *
from ..lib import SHOW
from . import c10, c16, c17, c21

PS = Ty("param", (Ty("Self"),))
RXERR = Ty(R + "RexecutorError")


def back(h, name):
    p = Ty("param", (Ty("B"),))
    return OpV(h.ctx.const(name, ("id",)), repr(p), p)


def setg(h, name):
    ctx = h.ctx
    rex = c21.rexecutor(h)
    f = {k: back(h, name) if isinstance(v, OpV) else v for k, v in rex.f.items()}
    rex = StructV(rex.ty, f)
    kind, r = h.callm(c21.REX, "set_global_backend", [rex], self_ty=rex.ty)
    h.prove("setting the global backend does not panic", kind == "val")
    return r if kind == "val" else None


def is_global_error(h, r):
    ctx = h.ctx
    if r is None or not isinstance(r, EnumV) or r.conc() != 1: return False
    e = ctx.deref(r.pay(1)["0"])
    return isinstance(e, EnumV) and e.conc() is not None and ctx.variants(e.ty)[e.conc()][0] == "GlobalBackend"


TJ = Ty(R + "job::Job", (Ty("assoc", (PS, Ty("Data"))), Ty("assoc", (PS, Ty("Metadata")))))


def args_of(h, op):
    ctx = h.ctx
    if op == "cancel_job": return [h.fresh(JOBID, "id"), OpV(ctx.const("reason", ("id",)), "dyn<CancellationReason>", Ty("dyn", (Ty(R + "executor::CancellationReason"),)))]
    if op == "rerun_job": return [h.fresh(JOBID, "id")]
    if op == "update_job": return [h.fresh(TJ, "job")]
    if op == "query_jobs": return [StructV(Ty(c10.WHERE.n, (c10.D_, c10.M_)), {"0": c10.tq(h, None)})]
    if op == "enqueue": return [c16.builder(h)]
    fail(op)


def call(h, op, args, backend):
    """run the operation on the given backend, or through the global one -> (kind, result, backend calls)"""
    ctx = h.ctx
    n = len(ctx.trace)
    if op == "enqueue":
        fs = [f for f in ctx.prog.methods.get((c16.JB.n, "enqueue_to_backend" if backend is not None else "enqueue"), [])]
        own = [f for f in fs if len(f.impl.self_ty.a) > 1 and f.impl.self_ty.a[-1].n == c16.WD.n] or fs
        kind, r = h.run(lambda: h.it.call(own[0], args + ([backend] if backend is not None else []), None, self_ty=Ty(c16.JB.n, (c16.PE, c16.WD))))
    else:
        kind, r = c10.trait_call(h, op + ("_on_backend" if backend is not None else ""), args + ([backend] if backend is not None else []))
    return kind, r, [e for e in ctx.trace[n:] if e[0] == "call" and e[1] == "Backend"]


NAMES = {"cancel_job": "mark_job_cancelled", "rerun_job": "rerun_job", "update_job": "update_job", "query_jobs": "query", "enqueue": "enqueue"}
RET = {"cancel_job": UNIT, "rerun_job": UNIT, "update_job": UNIT, "query_jobs": VEC(JOB), "enqueue": JOBID}


def prep(h, op):
    ctx = h.ctx
    if op == "query_jobs":
        h.it.hook = c10.hyp(h, False)
        def opaque(it, tr, name, args, ret, n):
            if tr != "Backend" or name != "query": return None
            ctx.emit(("call", tr, name, args, n))
            res = ctx.fresh(ret, n)
            for p in res.pay(0)["0"].parts:
                if isinstance(p, Seg): p.leaf.facts += c10.wf(ctx.deref(p.tmpl))
                else:
                    for c in c10.wf(ctx.deref(p.v)): ctx.assume(c)
            return res
        ctx.notes["opaque"] = opaque


def passed_on(h, op, r, c, args):
    """one call, unchanged arguments, the result handed back"""
    ctx = h.ctx
    h.prove("it is the right backend operation", c[2] == NAMES[op])
    if c[2] != NAMES[op]: return
    a = [ctx.deref(x) for x in c[3]][1:]
    if op == "cancel_job":
        h.eq("with the given id", a[0], args[0])
        h.prove("as a cancellation", h.isv(a[1].f["error_type"], "Cancelled"))
        h.prove("with the given reason", ctx.deref(a[1].f["message"]).t == SHOW(args[1].t))
    elif op == "rerun_job": h.eq("with the given id", a[0], args[0])
    elif op == "update_job":
        t = args[0]
        j = a[0].f
        h.prove("with the given job: id", j["id"].t == ctx.prim(t.f["id"]))
        h.eq("with the given job: status", j["status"], t.f["status"])
        for k in ("attempt", "max_attempts", "priority"): h.prove("with the given job: " + k, t.f[k].t == j[k].t)
        for k in c17.SAME: h.eq("with the given job: " + k, j[k], t.f[k])
    res = ctx.fresh(RES(RET[op], BERR), c[4])
    if ctx.decide(ctx.tagt(res) == 1):
        h.cover("backend error")
        h.prove("a backend error is passed on", h.isv(r, "Err"))
        if r.conc() == 1:
            e = ctx.deref(r.pay(1)["0"])
            ok = isinstance(e, EnumV) and e.conc() is not None and ctx.variants(e.ty)[e.conc()][0] == "BackendError"
            h.prove("as a backend error", ok)
            if ok: h.eq("the backend's own error", e.pay(e.conc())["0"], res.pay(1)["0"])
    elif op != "query_jobs":
        h.cover("success")
        h.prove("success is passed on", h.isv(r, "Ok"))
        if op == "enqueue" and r.conc() == 0: h.eq("with the backend's id", r.pay(0)["0"], res.pay(0)["0"])


def explicit(op):
    def run(h):
        ctx = h.ctx
        prep(h, op)
        args = args_of(h, op)
        G = back(h, "G")
        kind, r, calls = call(h, op, args, G)
        h.prove("the call does not panic", kind == "val")
        if kind != "val": return
        if not calls:
            h.prove("without a backend call the call fails, for encoding", z3.And(h.isv(r, "Err"), z3.BoolVal(op in ("update_job", "query_jobs", "enqueue"))))
            return
        h.prove("exactly one backend call", len(calls) == 1)
        if len(calls) != 1: return
        h.prove("on the given backend", ctx.deref(calls[0][3][0]).t == G.t)
        passed_on(h, op, r, calls[0], args)
    return run


def globally(op):
    def run(h):
        ctx = h.ctx
        prep(h, op)
        args = args_of(h, op)
        kind, r, calls = call(h, op, args, None)
        h.prove("using the global backend before it is set does not panic", kind == "val")
        h.prove("and fails with the global backend error, without a backend call", kind == "val" and is_global_error(h, r) and not calls)
        g = setg(h, "G")
        h.prove("the global backend can be set", g is not None and g.conc() == 0)
        g2 = setg(h, "H")
        h.prove("it can be set only once", is_global_error(h, g2))
        G = back(h, "G")
        kind, r, calls = call(h, op, args, None)
        h.prove("the call does not panic", kind == "val")
        if kind != "val": return
        if not calls:
            h.prove("without a backend call the call fails, for encoding", z3.And(h.isv(r, "Err"), z3.BoolVal(op in ("update_job", "query_jobs", "enqueue"))))
            return
        h.prove("exactly one backend call", len(calls) == 1)
        if len(calls) != 1: return
        h.prove("on the backend that was set first", ctx.deref(calls[0][3][0]).t == G.t)
        k2, r2, c2 = call(h, op, args, G)
        h.prove("the same call on the backend given explicitly", k2 == "val" and len(c2) == 1 and c2[0][2] == calls[0][2])
        if k2 != "val" or len(c2) != 1: return
        if op != "query_jobs":
            for x, y in zip(calls[0][3][1:], c2[0][3][1:]): h.eq("with the same arguments", x, y)
        else:
            j = h.fresh(JOB, "job")
            h.prove("with the same arguments", c10.sem(h, calls[0][3][1], j) == c10.sem(h, c2[0][3][1], j))
        passed_on(h, op, r, calls[0], args)
    return run


OPS = list(NAMES)
HARNESSES = [(o + " on a backend", explicit(o), {}) for o in OPS] + [(o + " globally", globally(o), {}) for o in OPS]
ASSUMPTIONS = c10.ASSUMPTIONS
