"""C08: conflict resolution replaces only the selected fields of the duplicate."""
from ..harness import *
from .. import sql, sqllib
from .c07 import dup, L_mem, setup
from .c11 import meaning
from .c19 import request, run_request
from .c20 import same, assigned

PSTATUS = Ty("rexecutor_sqlx::types::JobStatus")

FIELDS = ["scheduled_at", "data", "metadata", "priority", "max_attempts"]


def status_mem(h, seq, status):
    ctx = h.ctx
    return z3.Or([z3.And(h.isv(status, n), L_mem(ctx, seq, i)) for i, (n, _) in enumerate(ctx.variants(STATUS))])


def harness(h):
    ctx = h.ctx
    m, now, j, uc = setup(h)
    kind, r = h.callm(MEMB, "enqueue", [m.v, j], "Backend")
    h.prove("enqueuing does not panic", kind == "val")
    if kind != "val": return
    h.prove("enqueuing succeeds", h.isv(r, "Ok"))
    if r.conc() != 0: return
    hit = m.find(m.table0, dup(h, m, j, uc, now))
    if hit is None: return
    node, v = hit
    h.prove("the id of the duplicate is returned", ctx.prim(r.pay(0)["0"]) == m.id(v).t)
    oc = uc.f["on_conflict"]
    x = m.job(v).f
    want = v
    if ctx.decide(h.isv(oc, "Replace")):
        rep = ctx.deref(oc.pay(ctx.vidx(RESOL, "Replace"))["0"]).f
        cond = status_mem(h, rep["for_statuses"], x["status"])
        h.cover("replacement applies", cond)
        h.cover("replacement does not apply", z3.Not(cond))
        ch = {}
        for f in FIELDS:
            new = j.f[f]
            if isinstance(new, IntV): new = IntV(new.t, "i32")
            ch[f] = ctx.ite(z3.And(cond, rep[f].t), new, x[f])
        want = m.upd(v, **ch)
    else: h.cover("do nothing")
    exp, _ = m.update(m.table0, m.id(v).t, lambda _: want)
    h.eq("only the selected fields of the duplicate change", m.table, exp)


def lookup_fn(h):
    """the function that builds the lookup, if it is there under its name"""
    fs = [f for f in h.ctx.prog.methods.get((UC.n, "query"), []) if f.module.path[0] == "rexecutor_sqlx"]
    return fs[0] if len(fs) == 1 else None


def any_criteria(h):
    """for all criteria at once, against the contract of the lookup (its condition is the business of C19)"""
    q = lookup_fn(h)
    if q is None: return          # then the harnesses below go through all shapes of criteria
    ctx = h.ctx
    def hook(it, fi, args, hint):
        if fi.name == "unique_identifier" and fi.module is q.module:
            ctx.stats.assumed["contract: the lock of a request is some number (its choice is the business of C19)"] = 1
            return h.fresh(Ty("i64"), "lock")
        if fi is not q: return NotImplemented
        ctx.stats.assumed["contract: the lookup selects id and status of a job (discharged by C19)"] = 1
        return sqllib.builder(h.lib, ctx.lit_str("SELECT id, status FROM rexecutor_jobs LIMIT 1"))
    h.it.hook = hook
    j, uc = request(h)
    _postgres(h, j, uc)


def postgres(key, executor, duration):
    def run(h):
        if lookup_fn(h) is not None and not (key and executor and duration): return
        j, uc = request(h)
        h.ctx.assume(z3.And(h.isv(uc.f["key"], "Some") == key, uc.f["executor"].t == executor, h.isv(uc.f["duration"], "Some") == duration))
        _postgres(h, j, uc)
    return run


def _postgres(h, j, uc):
    ctx = h.ctx
    x = run_request(h, j)
    if x is None: return
    kind, r, evs = x
    sel = [(e, s) for k, e, s in evs if k == "select"]
    if not sel or not sel[0][0]["ok"]: return
    e, s = sel[0]
    if not ctx.decide(ctx.const(e["name"] + ".tag", ("int", 0, 1)) == 1): return
    order = [k for k, _, _ in evs]
    wr = [(k, e, s) for k, e, s in evs if k in ("insert", "update", "delete", "bad")]
    ok = h.isv(r, "Ok")
    fid = ctx.const(e["name"] + ".id", ("int", -2**31, 2**31 - 1))
    if ctx.decide(ok): h.prove("the id of the duplicate is returned", ctx.prim(r.pay(0)["0"]) == fid)
    oc = uc.f["on_conflict"]
    st = h.fresh(STATUS, "found.status")
    raw = ctx.fresh(PSTATUS, e["name"] + ".status")
    # the status read from the database is the stored one, variants by name
    ctx.assume(z3.And([z3.And(ctx.tagt(raw) == i) == h.isv(st, n) for i, (n, _) in enumerate(ctx.variants(PSTATUS))]))
    if not ctx.decide(h.isv(oc, "Replace")):
        h.cover("do nothing")
        h.prove("a found duplicate is left alone", not wr); return
    rep = ctx.deref(oc.pay(ctx.vidx(RESOL, "Replace"))["0"]).f
    if not ctx.decide(status_mem(h, rep["for_statuses"], st)):
        h.cover("replacement does not apply")
        h.prove("a duplicate in another status is left alone", not wr); return
    chosen = [f for f in FIELDS if ctx.decide(rep[f].t)]
    h.cover("replacement applies")
    if not chosen:
        # an UPDATE that sets nothing is refused by the database
        h.prove("without a selected field nothing changes", all(k == "bad" or (k == "update" and not s["set"]) for k, _, s in wr)); return
    h.prove("one update is sent", [k for k, _, _ in wr] == ["update"])
    if [k for k, _, _ in wr] != ["update"]: return
    u, s = wr[0][1], wr[0][2]
    h.prove("the job table is updated in the transaction of the lookup", s["table"] == "rexecutor_jobs" and u["on"] == e["on"])
    h.prove("success is reported only after a commit", z3.Implies(ok, z3.BoolVal("commit" in order and order.index("commit") > order.index("update") and u["ok"])))
    h.prove("an update that was committed is reported as success", z3.Implies(z3.BoolVal("commit" in order), ok))
    h.prove("the update happens unless the database fails", u["ok"] is False or "commit" in order or "commit_failed" in order)
    row = h.fresh(JOB, "row")
    m = sql.Meaning(h, sql.row_of(h, row), dbnow=ctx.now().t)
    b = meaning(h, m, s["where"], "the condition is well-formed")
    if b is None: return
    h.prove("only the duplicate is updated", b.t == (row.f["id"].t == fid))
    h.prove("exactly the selected fields are set", sorted(c for c, _ in s["set"]) == sorted(chosen))
    try:
        for c, x in s["set"]:
            if c not in chosen: continue
            new = j.f[c]
            if isinstance(new, IntV): new = IntV(new.t, "i32")
            same(h, m, assigned(m, x, row.f[c]), new, f"{c} is that of the request")
    except sql.BadSql as x: h.prove(f"the values are well-formed: {x}"[:150], False)


HARNESSES = [("enqueue_conflict (in-memory)", harness, {}), ("insert_unique_job (Postgres; any criteria)", any_criteria, {})] + [
    (f"insert_unique_job (Postgres; key {k}, executor {e}, window {d})", postgres(k, e, d), {}) for k in (False, True) for e in (False, True) for d in (False, True)]
ASSUMPTIONS = ["Postgres executes the statement as written, and refuses an UPDATE without assignments"]
