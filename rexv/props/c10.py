"""C10: the typed query API is scoped to its executor and keeps its meaning."""
from ..harness import *
from ..lib import ENC
from ..sql import over
from .c09 import member

TQ = Ty(R + "job::query::Query"); WHERE = Ty(R + "job::query::Where")
D_, M_ = Ty("param", (Ty("D"),)), Ty("param", (Ty("M"),))
EXEC = Ty(R + "executor::Executor")


def sem(h, q, job):
    """the meaning of a (typed or stored) query for a job, as a formula. Sub-queries that were not looked
    into are known by one truth value each; a typed query and its conversion share it."""
    ctx = h.ctx
    q = ctx.deref(q)
    if isinstance(q, StructV) and q.ty.n == WHERE.n: q = ctx.deref(next(iter(q.f.values())))
    if not isinstance(q, EnumV): fail(f"query {q!r}"[:80])
    i = q.conc()
    if i is None:
        for k in range(len(ctx.variants(q.ty))):
            if ctx.must(ctx.tagt(q) == k): i = k
    if i is None:
        if q.origin is None: fail("query of unknown shape")
        return ctx.const(q.origin[1].replace("~stored", "") + ".sat", ("bool",))
    name = ctx.variants(q.ty)[i][0]
    x = ctx.deref(q.pay(i)["0"])
    f = job.f
    typed = q.ty.n == TQ.n
    def every(seq, fn, tag): return over(ctx, tag, seq, fn)
    if name == "Not": return z3.Not(sem(h, x, job))
    if name == "And": return z3.And(every(x, lambda v: sem(h, v, job), "and") + [z3.BoolVal(True)])
    if name == "Or": return z3.Or(every(x, lambda v: sem(h, v, job), "or") + [z3.BoolVal(False)])
    if name == "ExecutorEqual": return f["executor"].t == x.t
    if name == "DataEquals": return f["data"].t == (ENC(h.lib.term(x)) if typed else x.t)
    if name == "MetadataEquals": return f["metadata"].t == (ENC(h.lib.term(x)) if typed else x.t)
    if name == "IdEquals": return f["id"].t == ctx.prim(x)
    if name == "IdIn": return member(h, x, f["id"].t)[0]
    if name == "StatusEqual": return ctx.tagt(f["status"]) == ctx.tagt(x)
    if name in ("TagsAllOf", "TagsOneOf"):
        return z3.And(every(x, lambda v: member(h, f["tags"], ctx.prim(v))[0], "and")) if name == "TagsAllOf" else \
               z3.Or(every(x, lambda v: member(h, f["tags"], ctx.prim(v))[0], "or"))
    if name == "ScheduledAtBefore": return f["scheduled_at"].t < x.t
    if name == "ScheduledAtAfter": return f["scheduled_at"].t > x.t
    if name == "ScheduledAtEqual": return f["scheduled_at"].t == x.t
    fail(f"no meaning given for the query {name}")


def hyp(h, strict):
    """conversion by its contract: fails, or gives a stored query with the same meaning"""
    ctx = h.ctx
    def hook(it, fi, args, hint):
        if len(args) != 1: return NotImplemented
        q = ctx.deref(args[0])
        if not (isinstance(q, EnumV) and q.ty.n == TQ.n and q.origin and q.conc() is None): return NotImplemented
        if fi.name != "try_from" or fi.impl is None or fi.impl.self_ty.n != QUERY.n: return NotImplemented
        if strict and q.origin[1] == "q": return NotImplemented
        n = q.origin[1]
        ctx.stats.assumed["contract:" + fi.qual + " on sub-queries (structural induction)"] = 1
        if not ctx.decide(ctx.const(n + ".encodes", ("bool",))):
            return ctx.err(OpV(ctx.const(n + ".error", ("id",)), "serde_json::Error"))
        return ctx.ok(ctx.fresh(QUERY, n + "~stored"))
    return hook


def tq(h, variant=None, name="q"):
    ctx = h.ctx
    q = h.fresh(Ty(TQ.n, (D_, M_)), name)
    if variant is None: return q
    i = ctx.vidx(TQ, variant)
    ctx.assume(q.tag == i)
    return EnumV(q.ty, i, {i: q.pay(i)})


def convert(variant):
    def run(h):
        ctx = h.ctx
        q = tq(h, variant)
        h.it.hook = hyp(h, True)
        fs = [f for f in h.ctx.prog.methods.get((QUERY.n, "try_from"), [])]
        if not fs: fail("no conversion of queries")
        kind, r = h.run(lambda: h.it.call(fs[0], [q], None, self_ty=QUERY))
        h.prove("converting a query does not panic", kind == "val")
        if kind != "val": return
        if ctx.decide(ctx.tagt(r) == 1):
            h.prove("only encoding can fail", variant in ("Not", "And", "Or", "DataEquals", "MetadataEquals"))
            return
        h.cover("converted")
        job = h.fresh(JOB, "job")
        h.prove("the stored query means what the typed query means", sem(h, r.pay(0)["0"], job) == sem(h, q, job))
    return run


def combine(op):
    def run(h):
        ctx = h.ctx
        job = h.fresh(JOB, "job")
        a, b = tq(h, None, "a"), tq(h, None, "b")
        W = lambda q: StructV(Ty(WHERE.n, (D_, M_)), {"0": q})
        wa, wb = W(a), W(b)
        if op == "not": kind, r = h.callm(WHERE, "not", [wa])
        else: kind, r = h.callm(WHERE, op, [wa, wb])
        h.prove("combining queries does not panic", kind == "val")
        if kind != "val": return
        sa, sb = sem(h, a, job), sem(h, b, job)
        want = {"not": z3.Not(sa), "and": z3.And(sa, sb), "or": z3.Or(sa, sb)}[op]
        h.prove(f"{op} means {op}", sem(h, r, job) == want)
    return run


def constructors(h):
    ctx = h.ctx
    job = h.fresh(JOB, "job").f
    now = ctx.now().t
    J = h.fresh(JOB, "job")
    d, m = h.fresh(D_, "d"), h.fresh(M_, "m")
    i, s = h.fresh(JOBID, "i"), h.fresh(STATUS, "s")
    ids, tags = h.fresh(VEC(JOBID), "ids"), h.fresh(VEC(STR), "tags")
    at, td = h.fresh(DT, "at"), h.fresh(TD, "td")
    ctx.assume(z3.And(now - td.t >= DT_MIN, now - td.t <= DT_MAX))
    def q(v, x): return sem(h, EnumV(Ty(TQ.n, (D_, M_)), ctx.vidx(TQ, v), {ctx.vidx(TQ, v): {"0": x}}), J)
    T = job["scheduled_at"].t
    table = [("data_equals", d, lambda: q("DataEquals", d)), ("metadata_equals", m, lambda: q("MetadataEquals", m)),
             ("id_equals", i, lambda: q("IdEquals", i)), ("id_in", ids, lambda: q("IdIn", ids)),
             ("status_equals", s, lambda: q("StatusEqual", s)), ("tagged_by_all_of", tags, lambda: q("TagsAllOf", tags)),
             ("tagged_by_one_of", tags, lambda: q("TagsOneOf", tags)),
             ("scheduled_at_equals", at, lambda: T == at.t), ("scheduled_at_before", at, lambda: T < at.t), ("scheduled_at_after", at, lambda: T > at.t),
             ("scheduled_at_older_than", td, lambda: T < now - td.t), ("scheduled_at_within_the_last", td, lambda: T > now - td.t)]
    for name, arg, want in table:
        kind, r = h.callm(WHERE, name, [arg], self_ty=Ty(WHERE.n, (D_, M_)))
        h.prove(f"{name} does not panic", kind == "val")
        if kind == "val": h.prove(f"{name} means what it says", sem(h, r, J) == want())


def call(h):
    """the whole call through an executor; the conversion of queries by its contract"""
    ctx = h.ctx
    pe = Ty("param", (Ty("Self"),))
    q = tq(h, None)
    h.it.hook = hyp(h, False)
    back = OpV(ctx.const("backend", ("id",)), "backend", Ty("param", (Ty("B"),)))
    def opaque(it, tr, name, args, ret, n):
        if tr != "Backend" or name != "query": return None
        ctx.emit(("call", tr, name, args, n))
        res = ctx.fresh(ret, n)
        for p in res.pay(0)["0"].parts:
            if isinstance(p, Seg): p.leaf.facts += wf(ctx.deref(p.tmpl))
            else:
                for c in wf(ctx.deref(p.v)): ctx.assume(c)
        return res
    ctx.notes["opaque"] = opaque
    kind, r = trait_call(h, "query_jobs_on_backend", [StructV(Ty(WHERE.n, (D_, M_)), {"0": q}), back])
    h.prove("querying does not panic", kind == "val")
    if kind != "val": return
    calls = [e for e in ctx.trace if e[0] == "call" and e[1] == "Backend"]
    if not ctx.decide(ctx.const("q.encodes", ("bool",))):
        h.cover("encoding fails")
        h.prove("a query that cannot be encoded is not sent", not calls)
        h.prove("and the query fails", h.isv(r, "Err"))
        return
    h.prove("the backend is asked exactly once", len(calls) == 1 and calls[0][2] == "query")
    if len(calls) != 1 or calls[0][2] != "query": return
    job = h.fresh(JOB, "job")
    name = ctx.fresh(STR, "Self::NAME")
    stored = ctx.fresh(QUERY, "q~stored")
    got = calls[0][3][1]
    h.prove("the formula is the user's, restricted to jobs of the executor", sem(h, got, job) == z3.And(job.f["executor"].t == name.t, sem(h, stored, job)))
    res = ctx.fresh(RES(VEC(JOB), BERR), calls[0][4])
    if ctx.decide(ctx.tagt(res) == 1):
        h.cover("backend error")
        h.prove("a backend error makes the query fail", h.isv(r, "Err")); return
    if ctx.decide(ctx.tagt(r) == 1):
        h.cover("undecodable job")
        return
    h.cover("decoded")
    want = res.pay(0)["0"]
    # every returned job, in the backend's order
    gp, wp = ctx.norm(ctx.deref(r.pay(0)["0"])).parts, ctx.norm(want).parts
    h.prove("as many jobs are returned as the backend gave", len(gp) == len(wp))
    if len(gp) != len(wp): return
    for g, w in zip(gp, wp):
        h.prove("the jobs are returned in the backend's order", type(g) is type(w) and (g.leaf is w.leaf if isinstance(g, Seg) else g.node is w.node))
        if type(g) is not type(w): return
        if isinstance(g, Seg):
            h.prove("every job is returned", z3.Implies(z3.And(g.leaf.facts + [z3.BoolVal(True)]), g.guard == w.guard))
            a, b = ctx.deref(g.tmpl), ctx.deref(w.tmpl)
        else: a, b = ctx.deref(g.v), ctx.deref(w.v)
        h.prove("the returned job is the backend's job", ctx.prim(a.f["id"]) == b.f["id"].t)


def wf(j):
    """stored counters are in the range the API can give them"""
    return [z3.And(j.f[k].t >= 0, j.f[k].t <= 65535) for k in ("attempt", "max_attempts", "priority")]


def trait_call(h, name, args):
    fi = h.ctx.prog.traits[EXEC.n][0]["_fns"].get(name)
    if fi is None: fail(f"no function {name} of Executor")
    return h.run(lambda: h.it.call(fi, args, None, self_ty=Ty("param", (Ty("Self"),))))


VARIANTS = ["Not", "And", "Or", "DataEquals", "MetadataEquals", "IdEquals", "IdIn", "StatusEqual", "TagsAllOf", "TagsOneOf",
            "ScheduledAtBefore", "ScheduledAtAfter", "ScheduledAtEqual"]
HARNESSES = [("convert " + v, convert(v), {}) for v in VARIANTS] + [("combine " + o, combine(o), {}) for o in ("and", "or", "not")] + \
            [("constructors", constructors, {}), ("query through an executor", call, {})]
ASSUMPTIONS = ["stored counters and priorities are in 0..65535", "equal data values encode to equal json"]
