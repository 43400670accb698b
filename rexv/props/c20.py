"""C20: Postgres lifecycle statements change exactly the addressed job."""
from ..harness import *
from .. import sql, schema
from .c03 import ops, OPS
from .c11 import PG, PJOB, backend, statements, parsed, meaning, convert_row
from ..lib import F, I

UPDATED = ["data", "metadata", "max_attempts", "scheduled_at", "priority", "tags"]


def same(h, m, got, want, what):
    """the value a statement gives a column is the prescribed one"""
    ctx = h.ctx
    want = m.wrap(want)
    if got.v is None or want.v is None:
        h.prove(what, got.v is None and want.v is None); return
    h.prove(what + " (not null)", got.null == want.null)
    g, w = got.v, want.v
    if isinstance(g, tuple) and g[0] == "case": g = ("status", m.case_status(g)) if isinstance(w, tuple) and w[0] == "status" else g
    if isinstance(g, SeqV) and isinstance(w, SeqV): h.prove(what, ctx.eq(g, w, pos=True)); return
    if isinstance(g, tuple) and g[0] == "append": h.prove(what, False); return
    a, b, _ = m.comparable(g, w)
    h.prove(what, a == b)


def appended(h, m, got, old, new, what):
    """got: errors with the recorded error appended (new: the prescribed JobError)"""
    ctx = h.ctx
    ok = isinstance(got.v, tuple) and got.v[0] == "append" and isinstance(got.v[2], tuple) and got.v[2][0] == "object"
    h.prove(what + ": an object is appended to the errors", ok)
    if not ok: return
    h.prove(what + ": the earlier errors are kept", ctx.eq(got.v[1], old, pos=True))
    d = got.v[2][1]
    h.prove(what + ": with the fields of a recorded error", set(d) == {"attempt", "error_type", "details", "recorded_at"})
    if set(d) != {"attempt", "error_type", "details", "recorded_at"}: return
    h.prove(what + ": the attempt", d["attempt"].v.t == new.f["attempt"].t)
    h.prove(what + ": the message", d["details"].v.t == new.f["details"].t)
    h.prove(what + ": the time", d["recorded_at"].v.t == new.f["recorded_at"].t)
    et = ctx.deref(new.f["error_type"])
    v = d["error_type"].v
    if not isinstance(v, StrV): fail("recorded error type")
    cs = []
    for i, (n, fs) in enumerate(ctx.variants(ETYPE)):
        t = ctx.deref(et.pay(i)["0"]).t if fs else ctx.lit_str(n.lower()).t
        cs.append(z3.Implies(ctx.tagt(et) == i, v.t == t))
    h.prove(what + ": the kind of error", z3.And(cs))


def result(h, r, st, idt):
    """one affected row means success, none not found, anything else an error"""
    ctx = h.ctx
    if not st["ok"]:
        h.cover("database error")
        h.prove("a database error is reported", h.isv(r, "Err")); return
    rows = ctx.const(st["name"] + ".rows", ("int", 0, 2**64 - 1))
    h.prove("success exactly if one row was affected", h.isv(r, "Ok") == (rows == 1))
    if ctx.decide(rows == 0):
        h.cover("no row affected")
        e = ctx.deref(r.pay(1)["0"])
        h.prove("no affected row is reported as not found", h.isv(e, "JobNotFound"))
        i = ctx.vidx(BERR, "JobNotFound")
        if ctx.must(ctx.tagt(e) == i): h.prove("the error names the id", ctx.prim(next(iter(e.pay(i).values()))) == idt)
    elif ctx.decide(rows != 1):
        h.cover("several rows affected")
        h.prove("several affected rows are not reported as not found", z3.Not(h.isv(ctx.deref(r.pay(1)["0"]), "JobNotFound")))


def one(h):
    ss = statements(h)
    h.prove("exactly one statement is sent", len(ss) == 1)
    return ss[0] if len(ss) == 1 else None


def lifecycle(op):
    def run(h):
        ctx = h.ctx
        now = ctx.now()
        a = {"at": h.fresh(DT, "at"), "error": h.fresh(EXECERR, "error")}
        idv = h.fresh(JOBID, "id"); idt = ctx.prim(idv)
        if op == "update_job":
            j = h.fresh(JOB, "new"); idt = j.f["id"].t
            kind, r = h.callm(PG, op, [backend(h), j], "Backend")
        else: kind, r = h.callm(PG, op, [backend(h), idv] + ops(h, None, now, a)[op][0], "Backend")
        h.prove("the operation does not panic", kind == "val")
        if kind != "val": return
        st = one(h)
        if st is None: return
        left = st["on"][0] == "tx" and not any(e[0] == "commit" and e[1] == st["on"][1] for e in ctx.trace)
        h.prove("the statement is executed, and not left in a transaction when success is reported", z3.Or(st["mode"] == "execute" and not left, z3.And(st["mode"] == "execute", h.isv(r, "Err"))))
        result(h, r, st, idt)
        s = parsed(h, st)
        if s is None: return
        h.prove("the statement updates the job table", s["k"] == "update" and s["table"] == "rexecutor_jobs")
        if s["k"] != "update": return
        row = h.fresh(JOB, "row")
        ctx.assume(z3.And([z3.And(row.f[k].t >= 0, row.f[k].t <= 65535) for k in ("attempt", "max_attempts", "priority")]))
        m = sql.Meaning(h, sql.row_of(h, row), dbnow=now.t)
        b = meaning(h, m, s["where"], "the condition is well-formed")
        if b is None: return
        h.prove("only the job with that id is addressed", b.t == (row.f["id"].t == idt))
        want = {k: j.f[k] for k in UPDATED} if op == "update_job" else ops(h, None, now, a)[op][1](row.f)
        cols = [c for c, _ in s["set"]]
        h.prove("exactly the columns the operation is about are set", sorted(cols) == sorted(want))
        try:
            for c, e in s["set"]:
                if c not in want: continue
                if c == "errors": appended(h, m, m.val(e), row.f["errors"], want[c].parts[-1].v, "errors")
                else: same(h, m, assigned(m, e, row.f[c]), want[c], f"{c} is set as prescribed")
        except sql.BadSql as x: h.prove(f"the values are well-formed: {x}"[:150], False)
    return run


def assigned(m, e, like):
    """the value of an expression assigned to a column like this one"""
    v = m.val(e)
    l = m.wrap(like)
    if isinstance(v.v, tuple) and v.v[0] == "lit": return sql.N(m.lit_as(v.v[1], l.v), v.null)
    return v


def inserted(h, m, s, j, key=None):
    """the row inserted is a new job with the request verbatim: columns given, and defaults of the schema"""
    ctx = h.ctx
    want = {k: j.f[k] for k in ("executor", "data", "metadata", "max_attempts", "scheduled_at", "priority", "tags")}
    want["uniqueness_key"] = key if key is not None else ctx.none(Ty("i64"))
    fresh = {"status": h.enum(STATUS, "Scheduled"), "attempt": IntV(0, "i32"), "inserted_at": ctx.now(), "errors": SeqV([], JSON)}
    for k in ("attempted_at", "completed_at", "cancelled_at", "discarded_at"): fresh[k] = ctx.none(DT)
    cols = dict(zip(s["cols"], s["vals"]))
    dfl = schema.defaults()
    try:
        for c, v in list(want.items()) + list(fresh.items()):
            what = f"{c} is stored as requested" if c in want else f"{c} is that of a new job"
            if c in cols: e = cols[c]
            else:
                d = dfl.get(c)
                e = ("null",) if d is None else sql.Parser(sql.lex([("text", d)])).expr()
            if c in want and c not in cols and not (c == "uniqueness_key" and key is None): h.prove(what, False); continue
            if c == "inserted_at" and c in cols: fail("inserted_at given")
            if c == "errors":
                while e[0] == "cast": e = e[1]
                h.prove(what, e == ("array", []) or e == ("lit", "{}")); continue
            same(h, m, assigned(m, e, v), v, what)
        for c in cols:
            if c not in want and c not in fresh: fail(f"column {c} given")
    except sql.BadSql as x: h.prove(f"the values are well-formed: {x}"[:150], False)


def enqueue(h):
    ctx = h.ctx
    j = h.fresh(ENQ, "job").with_("uniqueness_criteria", ctx.none(UC))
    kind, r = h.callm(PG, "enqueue", [backend(h), j], "Backend")
    h.prove("enqueuing does not panic", kind == "val")
    if kind != "val": return
    st = one(h)
    if st is None: return
    h.prove("a database error is reported, and only that", h.isv(r, "Ok") == z3.BoolVal(st["ok"]))
    s = parsed(h, st)
    if s is None: return
    h.prove("the statement inserts one row into the job table", s["k"] == "insert" and s["table"] == "rexecutor_jobs")
    if s["k"] != "insert": return
    m = sql.Meaning(h, {}, dbnow=ctx.now().t)
    inserted(h, m, s, j)
    if st["ok"]: h.prove("the id of the new row is returned", ctx.prim(r.pay(0)["0"]) == ctx.const(st["name"] + ".id", ("int", -2**31, 2**31 - 1)))


def claim(h):
    """the statement claiming a job, sent by a stream that finds one due"""
    from .c05 import pg_round
    ctx = h.ctx
    kind, r, ext = pg_round(h)
    if kind is None: return
    h.prove("claiming does not panic", kind != "panic")
    cs = []
    for st in statements(h):
        s = parsed(h, st)
        if s is None: return
        if s["k"] != "select": cs.append(st)
    h.prove("at most one job is claimed at a time", len(cs) <= 1)
    if not cs: return
    check_claim(h, cs[0], ext)
    if not cs[0]["ok"]:
        h.prove("a database error is reported", h.isv(r, "Err") if kind == "val" else False); return
    found = ctx.const(cs[0]["name"] + ".tag", ("int", 0, 1)) == 1
    h.prove("a claimed job is offered", found == z3.BoolVal(kind == "val"))


def check_claim(h, st, ext):
    ctx = h.ctx
    now = ctx.now()
    s = parsed(h, st)
    if s is None: return
    w = s.get("where")
    ok = s["k"] == "update" and s["table"] == "rexecutor_jobs" and w is not None and (w[0] == "insel" or (w[0] == "cmp" and w[1] == "=" and w[3][0] == "scalar"))
    h.prove("the statement updates the job table where the id is that of a chosen job", ok)
    if not ok: return
    sel = w[2] if w[0] == "insel" else w[3][1]
    idcol = w[1] if w[0] == "insel" else w[2]
    h.prove("jobs are identified by their id", idcol == ("col", "id") and [x[0] for x in sel["cols"]] == [("col", "id")] and sel["table"] == "rexecutor_jobs")
    h.prove("one job is claimed", sel["limit"] == ("num", 1) and sel["offset"] is None)
    h.prove("rows locked by others are skipped, chosen rows are locked", sel["lock"] == "skip locked")
    row = h.fresh(JOB, "row")
    m = sql.Meaning(h, sql.row_of(h, row), dbnow=now.t)
    b = meaning(h, m, sel["where"], "the condition is well-formed")
    if b is None: return
    j = row.f
    pend = z3.And(j["executor"].t == ext, status_in(h, j["status"], "Scheduled", "Retryable"))
    h.prove("only pending jobs of that executor are claimed", z3.Implies(b.t, pend))
    h.prove("only due jobs are claimed (at most 100 milliseconds early)", z3.Implies(b.t, j["scheduled_at"].t - now.t < 10**8))
    h.prove("every due pending job of the executor can be claimed", z3.Implies(z3.And(pend, j["scheduled_at"].t <= now.t + 15 * 10**6), b.t))
    want = {"status": h.enum(STATUS, "Executing"), "attempted_at": ctx.some(now, DT), "attempt": IntV(j["attempt"].t + 1, "i32")}
    h.prove("exactly status, attempt count and attempt time are set", sorted(c for c, _ in s["set"]) == sorted(want))
    try:
        for c, e in s["set"]:
            if c in want: same(h, m, assigned(m, e, j[c]), want[c], f"{c} is set as prescribed")
    except sql.BadSql as x: h.prove(f"the values are well-formed: {x}"[:150], False)
    cols = set()
    for e, al in s["returning"] or []:
        if e == "*": cols |= {n for n, _ in ctx.struct_fields(PJOB)}
        elif e[0] == "col": cols.add((al or e[1]).split(":")[0].strip("!?") if (al or e[1]).split(":")[0].strip("!?") == e[1] else "?")
    h.prove("the claimed job is returned with all its columns", {n for n, _ in ctx.struct_fields(PJOB)} <= cols)


HARNESSES = [(op, lifecycle(op), {}) for op in OPS] + [("enqueue", enqueue, {}), ("claim", claim, {})]
ASSUMPTIONS = ["Postgres executes the statement as written, its clock agrees with the program's, its time zone is UTC",
               "stored counters and priorities are in 0..65535"]
