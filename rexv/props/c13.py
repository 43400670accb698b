"""C13: Postgres pruning deletes exactly what the specification says."""
from ..harness import *
from .. import sql
from .c09 import member
from .c11 import PG, backend, statements, parsed, meaning


def prune(variant):
    def run(h):
        ctx = h.ctx
        now = ctx.now()
        spec = h.fresh(PSPEC, "spec")
        i = ctx.vidx(PBY, variant)
        by = ctx.deref(spec.f["prune_by"])
        ctx.assume(by.tag == i)
        spec = spec.with_("prune_by", EnumV(PBY, i, {i: by.pay(i)}))
        d = ctx.deref(by.pay(i)["0"])
        if variant == "MaxAge":
            # now ± d has to be representable (chrono panics otherwise)
            ctx.assume(z3.And(now.t - d.t >= DT_MIN, now.t - d.t <= DT_MAX, now.t + d.t >= DT_MIN, now.t + d.t <= DT_MAX))
        kind, r = h.callm(PG, "prune_jobs", [backend(h), spec], "Backend")
        h.prove("pruning does not panic", kind == "val")
        if kind != "val": return
        ss = statements(h)
        h.prove("one statement is sent", len(ss) == 1)
        if len(ss) != 1: return
        h.prove("a database error is reported, and only that", h.isv(r, "Ok") == z3.BoolVal(ss[0]["ok"]))
        h.prove("the statement is executed", ss[0]["mode"] == "execute")
        s = parsed(h, ss[0])
        if s is None: return
        h.prove("the statement deletes from the job table", s["k"] == "delete" and s["table"] == "rexecutor_jobs")
        if s["k"] != "delete": return
        w = s["where"]
        order, offset, limit = [], None, None
        if w is not None and w[0] == "insel":
            sel = w[2]
            ok = w[1] == ("col", "id") and [x[0] for x in sel["cols"]] == [("col", "id")] and sel["table"] == "rexecutor_jobs"
            h.prove("jobs are identified by their id", ok)
            if not ok: return
            w, order, offset, limit = sel["where"], sel["order"], sel["offset"], sel["limit"]
            h.prove("rows locked by others are not skipped", sel["lock"] is None)
        job = h.fresh(JOB, "job"); j = job.f
        m = sql.Meaning(h, sql.row_of(h, job), dbnow=ctx.const("dbnow", ("int", DT_MIN, DT_MAX)))
        b = meaning(h, m, w, "the condition is well-formed")
        if b is None: return
        ex = ctx.deref(spec.f["executors"])
        listed = lambda n: member(h, ex.pay(ctx.vidx(SPEC, n))["0"], j["executor"].t)[0]
        chosen = z3.And(ctx.tagt(j["status"]) == ctx.tagt(spec.f["status"]), z3.If(h.isv(ex, "Only"), listed("Only"), z3.Not(listed("Except"))))
        done = status_in(h, spec.f["status"], "Complete", "Cancelled", "Discarded")
        h.prove("no limit", limit is None)
        if variant == "MaxAge":
            at = j["scheduled_at"].t
            want = z3.And(chosen, z3.If(done, at < now.t - d.t, at > now.t + d.t))
            h.cover("deleted", want); h.cover("kept", z3.Not(want))
            h.prove("exactly the selected jobs beyond that age are deleted", b.t == want)
            h.prove("none of them is skipped", offset is None)
            return
        h.cover("selected", chosen); h.cover("not selected", z3.Not(chosen))
        h.prove("exactly the selected jobs are counted", b.t == chosen)
        h.prove("the given number of them is kept", offset is not None)
        if offset is None: return
        n = m.val(offset).v
        h.prove("the given number of them is kept, not another", n.t == d.t)
        ok = len(order) >= 1 and order[0][0] == ("col", "scheduled_at")
        h.prove("they are ordered by scheduled time", ok)
        if ok: h.prove("the most recent of the finished and the soonest of the unfinished are kept", done if order[0][1] == "desc" else z3.Not(done))
    return run


HARNESSES = [("prune by age", prune("MaxAge"), {}), ("prune by length", prune("MaxLength"), {})]
ASSUMPTIONS = ["now ± the maximal age is a representable time (chrono panics otherwise)", "job columns compared are not NULL (schema)"]
