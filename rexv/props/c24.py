"""C24: a backend behind a pointer behaves like the backend itself."""
from ..harness import *

BK = R + "backend::Backend"


def blanket(h):
    """the implementation of Backend for pointers: for a type parameter that dereferences to a backend"""
    out = [im for im in h.ctx.prog.blanket if im.trait and im.trait.split("::")[-1] == "Backend"]
    if len(out) != 1: fail(f"{len(out)} blanket implementations of Backend")
    return out[0]


def behind(im):
    """name of the type parameter the pointer dereferences to"""
    out = [g for g in im.gparams if g != im.self_ty.a[0].n]
    if len(out) != 1: fail("type parameters of the pointer implementation")
    return out[0]


def harness(op):
    def run(h):
        ctx = h.ctx
        im = blanket(h)
        tf = ctx.prog.traits[BK][0]["_fns"]
        S = im.self_ty
        fi = im.fns.get(op)
        if fi is None:
            if tf[op].body is None: fail(f"pointers do not implement {op}")
            fi = tf[op]
        ptr = OpV(ctx.const("pointer", ("id",)), repr(S), S)
        inner = OpV(ctx.const("pointee", ("id",)), "backend", Ty("param", (Ty(behind(im)),)))
        ctx.assume(inner.t != ptr.t)
        ctx.notes["pointee"] = lambda v: inner if v.t is ptr.t else v
        args = []
        for p in fi.sig["in"]:
            if p.get("self"): continue
            args.append(h.fresh(ctx.prog.ty(p["ty"], fi.module, {}), f"arg{len(args)}"))
        kind, r = h.run(lambda: h.it.call(fi, [RefV(Cell(ptr, S, "self"))] + args, None, self_ty=S))
        h.prove("the call does not panic", kind == "val")
        if kind != "val": return
        calls = [e for e in ctx.trace if e[0] == "call"]
        h.prove("exactly one call is made", len(calls) == 1)
        if len(calls) != 1: return
        c = calls[0]
        h.prove("of the same operation", c[1] == "Backend" and c[2] == op)
        if c[2] != op: return
        recv = ctx.deref(c[3][0])
        h.prove("on the backend behind the pointer", recv.t == inner.t)
        for n, (x, y) in enumerate(zip(c[3][1:], args)): h.eq(f"with the given argument {n + 1}", x, y)
        if isinstance(r, ObjV) and r.kind == "Stream": h.prove("its stream is returned", r.d.get("source") == (op, c[3]))
        else: h.eq("its result is returned", r, ctx.fresh(r.ty if r.ty is not None else UNIT, c[4]))
    return run


OPS = ["subscribe_ready_jobs", "enqueue", "mark_job_complete", "mark_job_retryable", "mark_job_discarded", "mark_job_cancelled", "mark_job_snoozed",
       "prune_jobs", "rerun_job", "update_job", "query"]
HARNESSES = [(o + " behind a pointer", harness(o), {}) for o in OPS]


def complete(h):
    fs = set(h.ctx.prog.traits[BK][0]["_fns"])
    h.prove("every backend operation is covered", fs <= set(OPS)) if fs <= set(OPS) else fail(f"operations without a contract: {sorted(fs - set(OPS))}")


HARNESSES.append(("all operations", complete, {}))
ASSUMPTIONS = ["Deref::deref of the pointer types in use (&, Box, Arc, ...) gives the pointee"]
