"""C11: Postgres queries mean the same formula as the query."""
from ..harness import *
from .. import sql, sqllib
from .c10 import sem

PG = Ty("rexecutor_sqlx::RexecutorPgBackend"); PJOB = Ty("rexecutor_sqlx::types::Job")
VARIANTS = ["Not", "And", "Or", "DataEquals", "MetadataEquals", "ExecutorEqual", "IdEquals", "IdIn", "StatusEqual", "TagsAllOf", "TagsOneOf",
            "ScheduledAtBefore", "ScheduledAtAfter", "ScheduledAtEqual"]


def backend(h):
    """a Postgres backend with any connection pool"""
    ctx = h.ctx
    f = {}
    for k, t in ctx.struct_fields(PG):
        if "Pool" in t.n: f[k] = OpV(ctx.const("pool", ("id",)), "sqlx::PgPool")
        elif t.n.endswith("RwLock") or t.n.endswith("Mutex"): f[k] = LockV(Cell(MapV("subs", t.a[0].a[1]), t.a[0], "subs"), k, t.n)
        else: fail(f"backend field {k}: {t}")
    return StructV(PG, f)


def statements(h): return [e[1] for e in h.ctx.trace if e[0] == "sql"]


def parsed(h, st, what="the statement is well-formed"):
    """the statement, or None (and a failed obligation) if it certainly is not one"""
    try:
        s = sql.parse(st["stmt"].d["parts"], st["stmt"].d["args"])
    except sql.BadSql as e:
        h.prove(f"{what}: {e}"[:150], False)
        return None
    h.prove(what, True)
    return s


def meaning(h, m, e, what):
    """truth of a condition; certain nonsense is a failed obligation"""
    try: return m.truth(e) if e is not None else sql.B3(True)
    except sql.BadSql as x:
        h.prove(f"{what}: {x}"[:150], False)
        return None


COPIED = ["id", "executor", "attempt", "max_attempts", "priority", "tags", "inserted_at", "scheduled_at", "attempted_at", "completed_at",
          "cancelled_at", "discarded_at"]


def convert_row(h, v):
    """contract of the conversion of a row to a job: it fails, or copies the columns"""
    ctx = h.ctx
    n = str(v.f["id"].t).removesuffix(".id") + ".~job"
    ctx.stats.assumed["contract: conversion of a row (discharged by the harness `conversion of a row`)"] = 1
    f = {k: (v.f[k] if k in COPIED else ctx.fresh(t, f"{n}.{k}")) for k, t in ctx.struct_fields(JOB)}
    tag = ctx.const(n + ".tag", ("int", 0, 1))
    return EnumV(RES(JOB, BERR), tag, {0: {"0": StructV(JOB, f)}, 1: {"0": ctx.fresh(BERR, n + ".error")}})


def conversion(h):
    """one row to one job"""
    ctx = h.ctx
    v = h.fresh(PJOB, "row")
    fs = [f for f in ctx.prog.methods.get((JOB.n, "try_from"), []) if f.module.path[0] == "rexecutor_sqlx"]
    if not fs: fail("no conversion of rows")
    kind, r = h.run(lambda: h.it.call(fs[0], [v], None, self_ty=JOB))
    h.prove("converting a row does not panic", kind == "val")
    if kind != "val": return
    if ctx.decide(ctx.tagt(r) == 1):
        h.cover("a row that cannot be read")
        h.prove("only undecodable errors make a row unreadable", len(ctx.norm(v.f["errors"]).parts) > 0)
        return
    h.cover("a readable row")
    j = ctx.deref(r.pay(0)["0"])
    for k in COPIED: h.eq(f"{k} is taken from its column", j.f[k], v.f[k])
    st = v.f["status"]
    h.prove("the status is the row's", z3.And([z3.Implies(ctx.tagt(st) == i, h.isv(j.f["status"], [n for n, _ in ctx.variants(STATUS) if n.lower() == sql.label(ctx.prog, st.ty, i)][0]))
                                               for i in range(len(ctx.variants(st.ty)))]))
    h.prove("data and metadata are the row's", z3.And(j.f["data"].t == v.f["data"].t, j.f["metadata"].t == v.f["metadata"].t))


def subs(h):
    """induction hypothesis: applied to a strict sub-query, a function taking a builder and a query appends a
    condition (with no loose AND or OR) that means the sub-query, starting with a blank"""
    ctx = h.ctx
    def hook(it, fi, args, hint):
        vs = [ctx.deref(a) for a in args]
        if fi.name == "try_from" and len(vs) == 1 and isinstance(vs[0], StructV) and vs[0].ty.n == PJOB.n: return convert_row(h, vs[0])
        q = [a for a in vs if isinstance(a, EnumV) and a.ty.n == QUERY.n and a.origin and a.origin[1] != "q" and a.conc() is None]
        b = [a for a in vs if isinstance(a, ObjV) and a.kind == "QueryBuilder"]
        if len(q) != 1 or len(b) != 1 or len(vs) != 2: return NotImplemented
        if fi.sig["out"] is not None: return NotImplemented
        ctx.stats.assumed["contract:" + fi.qual + " on sub-queries (structural induction)"] = 1
        ctx.emit(("qb", b[0].d["id"], ("sub", q[0])))
        return UNITV
    return hook


def condition(variant):
    """the condition appended for a query of this form, sub-queries by the contract"""
    def run(h):
        ctx = h.ctx
        q = h.fresh(QUERY, "q")
        i = ctx.vidx(QUERY, variant)
        ctx.assume(q.tag == i)
        q = EnumV(QUERY, i, {i: q.pay(i)}, None, (QUERY, "q"))
        h.it.hook = subs(h)
        kind, r = h.callm(PG, "query", [backend(h), q], "Backend")
        h.prove("querying does not panic", kind == "val")
        if kind != "val": return
        ss = statements(h)
        h.prove("one statement is sent", len(ss) == 1)
        if len(ss) != 1: return
        s = parsed(h, ss[0])
        if s is None: return
        h.prove("the statement is a SELECT on the job table", s["k"] == "select" and s["table"] == "rexecutor_jobs")
        h.prove("no limit or offset", s.get("limit") is None and s.get("offset") is None)
        h.prove("rows locked by others are not skipped", s.get("lock") is None)
        cols = set()
        for e, al in s["cols"]:
            if e == "*": cols |= {n for n, _ in ctx.struct_fields(PJOB)}
            elif e[0] == "col" and (al is None or al == e[1]): cols.add(e[1])
        h.prove("all columns of a job are selected", {n for n, _ in ctx.struct_fields(PJOB)} <= cols)
        job = h.fresh(JOB, "job")
        m = sql.Meaning(h, sql.row_of(h, job), sub=lambda x: sem(h, x, job), dbnow=ctx.const("dbnow", ("int", DT_MIN, DT_MAX)))
        b = meaning(h, m, s["where"], "the condition is well-formed")
        if b is None: return
        want = sem(h, q, job)
        h.cover("satisfied", want); h.cover("not satisfied", z3.Not(want))
        h.prove("exactly the jobs satisfying the query are selected", b.t == want)
        name = ss[0]["name"]
        h.prove("a database error is reported", z3.Implies(z3.BoolVal(not ss[0]["ok"]), h.isv(r, "Err")))
        if ss[0]["ok"] and ctx.decide(h.isv(r, "Ok")):
            got, rows = ctx.norm(ctx.deref(r.pay(0)["0"])).parts, ctx.norm(ctx.fresh(VEC(PJOB), name)).parts
            same = len(got) == len(rows) and all(type(a) is type(b) and (not isinstance(a, Seg) or a.leaf is b.leaf) for a, b in zip(got, rows))
            h.prove("the rows found are returned, in order", same)
            if same:
                for a, b in zip(got, rows):
                    x, y = (a.tmpl, b.tmpl) if isinstance(a, Seg) else (a.v, b.v)
                    if isinstance(a, Seg): h.prove("every row is returned", z3.Implies(z3.And(a.leaf.facts + [z3.BoolVal(True)]), a.guard))
                    h.prove("each as the job it is", ctx.prim(ctx.deref(x).f["id"]) == ctx.deref(y).f["id"].t)
        # the contract used for sub-queries: a condition that can be negated, and joined, as it stands
        w = s["where"]
        h.prove("the condition can be part of a larger one", w is not None and w[0] not in ("each",))
        ps = ss[0]["stmt"].d["parts"]
        h.prove("the condition can be put after NOT, AND and OR as it stands", standalone(h, q, ps))
        h.prove("outside of the condition nothing depends on the query", all(p[0] != "raw" for p in ps))
    return run


def standalone(h, q, ps):
    """the text of the condition alone has no loose AND / OR and starts with a blank or parenthesis"""
    ctx = h.ctx
    fs = [f for f in ctx.prog.fns.values() if f.module.path[0] == "rexecutor_sqlx" and len(f.sig["in"]) == 2 and f.sig["out"] is None]
    fs = [f for f in fs if "QueryBuilder" in repr(h.ctx.prog.ty(f.sig["in"][0]["ty"], f.module, {})) and QUERY.n in repr(ctx.prog.ty(f.sig["in"][1]["ty"], f.module, {}))]
    if not fs: fail("no recursive function writes conditions")
    for f in fs:
        b = sqllib.builder(h.lib, ctx.lit_str(""))
        h.run(lambda: h.it.call(f, [RefV(Cell(b, None, "builder")), q], None))
        ps = sqllib.parts(ctx.trace, b.d["id"])
        ps = [p for p in ps if p != ("text", "")]
        if not ps or ps[0][0] not in ("text", "sub") or (ps[0][0] == "text" and ps[0][1][:1] not in (" ", "(", "\n")): return False
        try:
            p = sql.Parser(sql.lex(ps))
            p.notx()
            if p.peek()[0] != "end": return False
        except sql.BadSql: return False
    return True


HARNESSES = [("conversion of a row", conversion, {})] + [("condition of " + v, condition(v), {}) for v in VARIANTS]
ASSUMPTIONS = ["the job columns compared are not NULL (schema)", "equal json documents are equal jsonb"]
