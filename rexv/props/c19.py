"""C19: Postgres uniqueness lookup finds exactly the duplicates of the criteria."""
from ..harness import *
from .. import sql, sqllib
from .c07 import L_mem
from .c11 import PG, backend, statements, parsed, meaning
from .c20 import inserted


def request(h, oc=None, name=""):
    ctx = h.ctx
    uc = h.fresh(UC, "uc")
    if oc is not None: uc = uc.with_("on_conflict", oc)
    j = h.fresh(ENQ, "job" + name).with_("uniqueness_criteria", ctx.some(uc, UC))
    d = ctx.deref(uc.f["duration"])
    at = j.f["scheduled_at"].t
    t = ctx.deref(d.pay(1)["0"]).t
    # the window has to be representable (chrono panics otherwise)
    ctx.assume(z3.Or(ctx.tagt(d) == 0, z3.And(at - t >= DT_MIN, at - t <= DT_MAX, at + t >= DT_MIN, at + t <= DT_MAX)))
    return j, uc


def duplicate(h, uc, j, row, key):
    """spec: the row is a duplicate of the request"""
    ctx = h.ctx
    u = uc.f
    d = ctx.deref(u["duration"])
    diff = row["scheduled_at"].t - j.f["scheduled_at"].t
    return z3.And(z3.Or([z3.And(h.isv(row["status"], n), L_mem(ctx, u["statuses"], i)) for i, (n, _) in enumerate(ctx.variants(STATUS))]),
                  z3.Or(h.isv(u["key"], "None"), z3.And(h.isv(key, "Some"), u["key"].pay(1)["0"].t == key.pay(1)["0"].t)),
                  z3.Implies(u["executor"].t, row["executor"].t == j.f["executor"].t),
                  z3.Or(ctx.tagt(d) == 0, z3.If(diff >= 0, diff, -diff) <= ctx.deref(d.pay(1)["0"]).t))


def run_request(h, j):
    """runs the request; -> (kind, r, events: [(what, statement, parsed)]) or None"""
    ctx = h.ctx
    mark = len(ctx.trace)
    kind, r = h.callm(PG, "enqueue", [backend(h), j], "Backend")
    h.prove("enqueuing does not panic", kind == "val")
    if kind != "val": return None
    evs = []
    for e in ctx.trace[mark:]:
        if e[0] == "sql":
            k, s = kind_of(e[1])
            evs.append((k, e[1], s))
        elif e[0] in ("begin", "commit", "commit_failed", "rollback"): evs.append((e[0], e[1], None))
    return kind, r, evs


def kind_of(e):
    try: s = sql.parse(e["stmt"].d["parts"], e["stmt"].d["args"])
    except sql.BadSql as x: return "bad", {"k": "bad", "why": str(x)}
    k = s["k"]
    if k == "select" and s["table"] is None and len(s["cols"]) == 1 and s["cols"][0][0][0] == "call" and "advisory" in s["cols"][0][0][1]: k = "lock"
    return k, s


class Locked(Exception): pass


def lock_of(h, j):
    """the key of the lock the request takes; None if it fails earlier"""
    out = []
    def after(e):
        k, s = kind_of(e)
        if k != "lock": return
        out.append(sql.Meaning(h, {}).val(s["cols"][0][0][2][0]).v.t)
        raise Locked()
    h.ctx.notes["after_sql"] = after
    try:
        kind, r = h.callm(PG, "enqueue", [backend(h), j], "Backend")
        h.prove("computing the lock does not panic", kind != "panic")
    except Locked: pass
    finally: h.ctx.notes.pop("after_sql", None)
    return out[0] if out else None


def lookup(h):
    """the lookup and its transaction"""
    ctx = h.ctx
    j, uc = request(h, h.enum(RESOL, "DoNothing"))
    def hook(it, fi, args, hint):
        if fi.name == "unique_identifier" and fi.module.path[0] == "rexecutor_sqlx":
            ctx.stats.assumed["contract: the lock of a request is some number (its choice is the business of the harness `locks`)"] = 1
            return h.fresh(Ty("i64"), "lock")
        return NotImplemented
    h.it.hook = hook
    x = run_request(h, j)
    if x is None: return
    kind, r, evs = x
    for k, e, s in evs:
        if k == "bad": h.prove("the statement is well-formed: " + s["why"][:100], False)
    begins = [e for k, e, _ in evs if k == "begin"]
    h.prove("at most one transaction is begun", len(begins) <= 1)
    sq = [(k, e, s) for k, e, s in evs if s is not None]
    h.prove("every statement belongs to the transaction", all(e["on"] == ("tx", begins[0] if begins else None) for k, e, s in sq))
    failed = not begins or any(not e["ok"] for k, e, s in sq) or any(k == "commit_failed" for k, _, _ in evs)
    order = [k for k, _, _ in evs]
    if not failed:
        h.prove("the lock is taken before the lookup, once", order.count("lock") == 1 and order.count("select") == 1 and order.index("lock") < order.index("select"))
        ls = [s for k, _, s in evs if k == "lock"]
        if ls: h.prove("the lock is held until the transaction ends", ls[0]["cols"][0][0][1] == "pg_advisory_xact_lock")
    sel = [(e, s) for k, e, s in evs if k == "select"]
    wr = [(k, e, s) for k, e, s in evs if k in ("insert", "update", "delete")]
    if wr:
        h.prove("nothing is written before the lookup", bool(sel) and order.index("select") < order.index(wr[0][0]))
        done = h.isv(r, "Ok")
        h.prove("what was written is committed before success is reported", z3.Implies(done, z3.BoolVal("commit" in order and order.index("commit") > order.index(wr[-1][0]))))
    if not sel: return
    e, s = sel[0]
    h.prove("the lookup reads the job table", s["table"] == "rexecutor_jobs" and s["offset"] is None and s["lock"] in (None, "update") and
            (s["limit"] is None or (s["limit"][0] == "num" and s["limit"][1] >= 1)))
    row = h.fresh(JOB, "row"); key = h.fresh(OPT(Ty("i64")), "row.key")
    m = sql.Meaning(h, sql.row_of(h, row, key), dbnow=ctx.now().t)
    b = meaning(h, m, s["where"], "the condition is well-formed")
    if b is None: return
    want = duplicate(h, uc, j, row.f, key)
    h.cover("a duplicate", want); h.cover("no duplicate", z3.Not(want))
    h.prove("exactly the duplicates of the criteria are found", b.t == want)
    if not e["ok"]:
        h.prove("a database error is reported", h.isv(r, "Err")); return
    if ctx.decide(ctx.const(e["name"] + ".tag", ("int", 0, 1)) == 1):
        h.cover("found")
        h.prove("a found duplicate is left alone", not wr)
        if ctx.decide(h.isv(r, "Ok")):
            h.prove("its id is returned", ctx.prim(r.pay(0)["0"]) == ctx.const(e["name"] + ".id", ("int", -2**31, 2**31 - 1)))
        else: h.prove("an error is reported only after one", True)
        return
    h.cover("not found")
    h.prove("without a duplicate the job is inserted", len(wr) == 1 and wr[0][0] == "insert")
    if len(wr) != 1 or wr[0][0] != "insert": return
    inserted(h, sql.Meaning(h, {}, dbnow=ctx.now().t), wr[0][2], j, uc.f["key"])
    if not wr[0][1]["ok"]: h.prove("a database error is reported", h.isv(r, "Err"))
    elif "commit" in order:
        h.prove("success is reported", h.isv(r, "Ok"))
        h.prove("the id of the new row is returned", ctx.prim(r.pay(0)["0"]) == ctx.const(wr[0][1]["name"] + ".id", ("int", -2**31, 2**31 - 1)))
    else: h.prove("a failed commit is reported", h.isv(r, "Err"))


def replacement(h):
    """the transaction of a request that replaces"""
    ctx = h.ctx
    fs = [f for f in ctx.prog.methods.get((UC.n, "query"), []) if f.module.path[0] == "rexecutor_sqlx"]
    j, uc = request(h)
    ctx.assume(h.isv(uc.f["on_conflict"], "Replace"))
    if len(fs) != 1:
        # no such function to put a contract on: one shape of criteria
        ctx.assume(z3.And(h.isv(uc.f["key"], "None"), uc.f["executor"].t, h.isv(uc.f["duration"], "None")))
    def hook(it, fi, args, hint):
        if fi.name == "unique_identifier" and fi.module.path[0] == "rexecutor_sqlx": return h.fresh(Ty("i64"), "lock")
        if len(fs) != 1 or fi is not fs[0]: return NotImplemented
        ctx.stats.assumed["contract: the lookup selects id and status of a job (discharged by the harness `lookup and insertion`)"] = 1
        return sqllib.builder(h.lib, ctx.lit_str("SELECT id, status FROM rexecutor_jobs LIMIT 1"))
    h.it.hook = hook
    x = run_request(h, j)
    if x is None: return
    kind, r, evs = x
    begins = [e for k, e, _ in evs if k == "begin"]
    sq = [(k, e, s) for k, e, s in evs if s is not None]
    order = [k for k, _, _ in evs]
    h.prove("at most one transaction is begun", len(begins) <= 1)
    h.prove("every statement belongs to the transaction", all(e["on"] == ("tx", begins[0] if begins else None) for k, e, s in sq))
    wr = [i for i, k in enumerate(order) if k in ("insert", "update", "delete", "bad")]
    if not wr: return
    h.cover("something is written")
    h.prove("lock, lookup, write", order.count("lock") == 1 and order.count("select") == 1 and order.index("lock") < order.index("select") < wr[0])
    h.prove("what was written is committed before success is reported", z3.Implies(h.isv(r, "Ok"), z3.BoolVal("commit" in order and order.index("commit") > wr[-1])))


def locks(h):
    """two requests with equal criteria"""
    ctx = h.ctx
    oc = h.enum(RESOL, "DoNothing")
    a, uc = request(h, oc, "A")
    b, _ = request(h, oc, "B")
    la = lock_of(h, a)
    if la is None: return
    if ctx.decide(uc.f["executor"].t): ctx.assume(a.f["executor"].t == b.f["executor"].t)
    lb = lock_of(h, b)
    if lb is None: return
    h.cover("both take a lock")
    h.prove("equal criteria take the same lock", la == lb)


HARNESSES = [("lookup and insertion", lookup, {}), ("replacement", replacement, {}), ("locks", locks, {})]
ASSUMPTIONS = ["the ends of the window are representable times (chrono panics otherwise)", "Postgres executes the statement as written; advisory transaction locks exclude each other"]
