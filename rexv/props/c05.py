"""C05: job streams wake up for new work and never oversleep."""
from ..harness import *
from .c03 import ops
from .c07 import dup

S30 = 30 * NS
DELTA = 15 * 10**6


def sends(h):
    """wake-ups sent on this path: list of (leaf, guard, n of sends per subscriber)"""
    out = []
    for e in h.ctx.trace:
        if e[0] == "foreach": out.append((e[1], e[2], [x for x in e[3] if x[0] == "send"]))
        elif e[0] == "send": out.append((None, True, [e]))
    return [x for x in out if x[2]]


ALIVE = L.F("receiver_alive", L.I, z3.BoolSort())


def woken(h, root, what):
    """every live subscriber of the sequence is sent a wake-up"""
    ctx = h.ctx
    ss = sends(h)
    for p in ctx.norm(SeqV([Seg(root, z3.BoolVal(True), ctx.generic(root))], Ty("Sender"))).parts:
        if isinstance(p, One):
            t = ctx.deref(p.v).t
            h.prove(what, z3.Or([z3.Not(ALIVE(t))] + [x[2][0][1] == t for x in ss if x[0] is None]))
        else:
            t = ctx.deref(p.tmpl).t
            mine = [x[1] for x in ss if x[0] is p.leaf]
            h.prove(what, z3.Implies(z3.And(p.leaf.facts + [p.guard, ALIVE(t)]), z3.Or(mine + [z3.BoolVal(False)])))


def owner(h, x):
    """the key of the subscribers a wake-up goes to (leaf, guard, events)"""
    ctx = h.ctx
    roots = ctx.notes.get("subs", {}).values()
    if x[0] is not None: return [l for l in roots if l.fam is x[0].fam]
    out = []
    for l in roots:
        for p in ctx.norm(SeqV([Seg(l, z3.BoolVal(True), ctx.generic(l))], Ty("Sender"))).parts:
            if isinstance(p, One) and ctx.must(ctx.deref(p.v).t == x[2][0][1]): out.append(l)
    return out


def check_wake(h, m, ext):
    """after a successful operation on a job of executor ext: its subscribers are woken, nobody else"""
    ctx = h.ctx
    ss = sends(h)
    paused = ctx.const("paused", ("bool",))
    if ctx.decide(paused):
        h.cover("paused")
        h.prove("a paused backend wakes no stream", not ss)
        return
    writes = [g for g in h.lib.sections if g["lock"] is m.jobs and g["mode"] == "write" and g["pre"] is not g["post"]]
    for e in [e for x in ss for e in x[2]]:
        # a stream woken earlier could look in vain and go back to sleep
        what = "streams are woken once the change is stored, or before others can look"
        if writes and e[3] is writes[-1] or e[4] is m.jobs.cell.v: h.prove(what, True)
        else: h.eq(what, e[4], m.jobs.cell.v)
    for x in ss:
        own = owner(h, x)
        h.prove("only streams of the job's executor are woken", bool(own) and own[0].fam["key"] is not None and z3.simplify(own[0].fam["key"] == ext))
    roots = [l for l in ctx.notes.get("subs", {}).values() if l.fam["key"] is not None and ctx.must(l.fam["key"] == ext)]
    root = roots[0] if roots else h.lib.subs_leaf(None, ext)
    if ctx.decide(ctx.const(root.name + ".present", ("bool",))):
        h.cover("subscribers exist")
        woken(h, root, "every stream of the job's executor is woken")


def wake(op):
    def run(h):
        ctx = h.ctx
        m = Mem(h)
        now = ctx.now()
        ctx.assume(m.counter.cell.v.t < 2**31 - 1)
        a = {"at": h.fresh(DT, "at"), "error": h.fresh(EXECERR, "error")}
        if op.startswith("enqueue"):
            j = h.fresh(ENQ, "job")
            uc = None
            if op == "enqueue": j = j.with_("uniqueness_criteria", ctx.none(UC))
            else:
                uc = h.fresh(UC, "uc")
                if op.endswith("nothing"): uc = uc.with_("on_conflict", h.enum(RESOL, "DoNothing"))
                else:
                    rep = h.fresh(REPL, "rep")
                    for f in ("data", "metadata", "priority", "max_attempts"): rep = rep.with_(f, BoolV(False))
                    uc = uc.with_("on_conflict", h.enum(RESOL, "Replace", rep))
                j = j.with_("uniqueness_criteria", ctx.some(uc, UC))
            kind, r = h.callm(MEMB, "enqueue", [m.v, j], "Backend")
            ext = j.f["executor"].t
            if uc is not None:
                hit = m.find(m.table0, dup(h, m, j, uc, now))
                if hit is not None: ext = m.job(hit[1]).f["executor"].t
        elif op == "update_job":
            j = h.fresh(JOB, "new")
            kind, r = h.callm(MEMB, op, [m.v, j], "Backend")
            if m.find(m.table0, lambda v: m.id(v).t == j.f["id"].t) is None: return
            ext = j.f["executor"].t
        else:
            idv = h.fresh(JOBID, "id")
            kind, r = h.callm(MEMB, op, [m.v, idv] + ops(h, m, now, a)[op][0], "Backend")
            hit = m.find(m.table0, lambda v: m.id(v).t == ctx.prim(idv))
            if hit is None: return
            ext = m.job(hit[1]).f["executor"].t
        if kind != "val": return
        check_wake(h, m, ext)
    return run


def notify_all(h):
    ctx = h.ctx
    m = Mem(h)
    kind, r = h.callm(MEMB, "notify_all", [m.v])
    h.prove("waking all streams does not panic", kind == "val")
    if kind != "val": return
    root = h.lib.subs_leaf(None, None)
    woken(h, root, "all streams are woken, paused or not")


def waits(h):
    """(duration, can be woken) of the waiting done in one round"""
    out = []
    evs = h.ctx.trace
    i = 0
    for e in evs:
        if e[0] == "select":
            ds = [x for x in e[1] if x.get("kind") == "sleep"]
            ts = [x for x in e[1] if x.get("kind") == "timeout"]
            rec = any(x.get("kind") == "recv" for x in e[1]) or any(x.get("inner", {}).get("kind") == "recv" for x in ts)
            d = [x["d"].t for x in ds + ts]
            out.append((d[0] if len(d) == 1 else None, rec))
        elif e[0] == "timeout": out.append((e[1].t, (e[2] or {}).get("kind") == "recv"))
    if not out:
        for e in evs:
            if e[0] == "sleep": out.append((e[1].t, False))
            if e[0] == "recv": out.append((None, True))
    return out


def opened(h, ty, be, ex, reg=True):
    """opens a stream of jobs of executor ex and asks it for a job -> (kind, result) as of the first round of looking:
    'val' (something is offered), 'iter' (the stream waits), 'panic' or 'end'"""
    ctx = h.ctx
    n = len(ctx.trace)
    kind, s = h.callm(ty, "subscribe_ready_jobs", [be, ex], "Backend")
    h.prove("opening a stream does not panic", kind == "val")
    if kind != "val": return None
    if not (isinstance(s, ObjV) and s.kind == "stream!"): fail(f"the stream of ready jobs is {s!r}"[:120])
    evs = ctx.trace[n:]
    regs = [e for e in evs if e[0] == "subscribe"]
    if reg: h.prove("a stream is registered for the wake-ups of its executor, and no other, before it is handed out",
            z3.And([z3.BoolVal(bool(regs))] + [e[1].t == ctx.prim(ex) for e in regs]))
    if reg: h.prove("the streams registered before stay registered", not [e for e in evs if e[0].startswith("map_")])
    n = len(ctx.trace)
    ctx.notes["stream_loop"] = True
    kind, r = h.run(s.d["run"])
    evs = ctx.trace[n:]
    for e in evs:
        if e[0] == "select": ids = [x.get("id") or x.get("inner", {}).get("id") for x in e[1] if x.get("kind") == "recv" or x.get("inner", {}).get("kind") == "recv"]
        elif e[0] == "recv": ids = [e[1]]
        elif e[0] == "timeout": ids = [e[2].get("id")] if (e[2] or {}).get("kind") == "recv" else []
        else: continue
        for i in ids if reg else []: h.prove("the stream listens where it was registered", z3.Or([ctx.deref(g[2]).t == ctx.const(i, ("id",)) for g in regs] + [z3.BoolVal(False)]))
    ys = [e[1] for e in evs if e[0] == "yield"]
    h.prove("a stream does not end", kind != "val")
    h.prove("a stream offers one thing at a time", len(ys) <= 1)
    if kind == "iter" and ys: return "val", ctx.deref(ys[0])
    return ("end" if kind == "val" else kind), r


def stream(h):
    """one round of an in-memory stream, from any table"""
    ctx = h.ctx
    m = Mem(h)
    now = ctx.now()
    ex = h.fresh(Ty(R + "executor::ExecutorIdentifier"), "ex")
    ext = ctx.prim(ex)
    o = opened(h, MEMB, m.v, ex)
    if o is None: return
    kind, r = o
    now = TimeV(ctx.notes.get("round", now.t), "DateTime")
    h.prove("looking for a job does not panic", kind != "panic")
    def pending(v):
        j = m.job(v).f
        return z3.And(j["executor"].t == ext, status_in(h, j["status"], "Scheduled", "Retryable"))
    if kind == "iter":
        h.cover("the stream waits")
        ws = waits(h)
        h.prove("the stream waits once per round, for a bounded time", len(ws) == 1 and ws[0][0] is not None)
        if len(ws) != 1 or ws[0][0] is None: return
        d, rec = ws[0]
        h.prove("a wake-up ends the wait", rec)
        h.prove("a wait is at most 30 seconds", d <= S30)
        sched = lambda v: m.job(v).f["scheduled_at"].t
        h.prove("a stream looks again when the next job is due",
                m.forall(m.table0, lambda v: z3.Implies(pending(v), now.t + d <= z3.If(sched(v) > now.t + DELTA, sched(v), now.t + DELTA))))
        h.prove("a due job is offered instead of waiting", m.forall(m.table0, lambda v: z3.Implies(pending(v), sched(v) > now.t)))
    elif kind == "val":
        if r.conc() is None or r.conc() != 0:
            h.prove("no error without one", h.isv(r, "Ok")); return
        h.cover("the stream offers a job")
        got = ctx.deref(r.pay(0)["0"]).f
        h.prove("a job is offered at most 15 milliseconds early", got["scheduled_at"].t <= now.t + DELTA)
        hit = m.find(m.table0, lambda v: m.id(v).t == got["id"].t)
        h.prove("the offered job was pending for this executor", pending(hit[1]) if hit is not None else False)




def pg_round(h):
    """one round of a Postgres stream -> (kind, result, executor term, statements)"""
    from .c11 import PG, backend, convert_row, PJOB
    ctx = h.ctx
    ex = h.fresh(Ty(R + "executor::ExecutorIdentifier"), "ex")
    def hook(it, fi, args, hint):
        v = ctx.deref(args[0]) if len(args) == 1 else None
        if fi.name == "try_from" and isinstance(v, StructV) and v.ty.n == PJOB.n: return convert_row(h, v)
        return NotImplemented
    h.it.hook = hook
    o = opened(h, PG, backend(h), ex)
    return o[0] if o else None, o[1] if o else None, ctx.prim(ex)


def pg_stream(h):
    """one round of a Postgres stream, from any table"""
    from .. import sql
    from .c11 import statements, parsed, meaning
    from .c20 import check_claim
    ctx = h.ctx
    now = ctx.now()
    kind, r, ext = pg_round(h)
    if kind is None: return
    now = TimeV(ctx.notes.get("round", now.t), "DateTime")
    h.prove("looking for a job does not panic", kind != "panic")
    looks, claims = [], []
    for st in statements(h):
        s = parsed(h, st)
        if s is None: return
        (looks if s["k"] == "select" else claims).append((st, s))
    h.prove("a round looks for the next due job once, and claims at most once", len(looks) == 1 and len(claims) <= 1)
    if len(looks) != 1 or len(claims) > 1: return
    st, s = looks[0]
    ok = s["table"] == "rexecutor_jobs" and [x[0] for x in s["cols"]] == [("col", "scheduled_at")] and s["offset"] is None and s["lock"] is None
    h.prove("the scheduled time of a job is looked up", ok)
    row = h.fresh(JOB, "row"); j = row.f
    b = meaning(h, sql.Meaning(h, sql.row_of(h, row), dbnow=now.t), s["where"], "the condition is well-formed")
    if b is None or not ok: return
    pend = z3.And(j["executor"].t == ext, status_in(h, j["status"], "Scheduled", "Retryable"))
    h.prove("the jobs looked at are the pending jobs of the executor", b.t == pend)
    h.prove("the earliest of them is taken", s["limit"] in (None, ("num", 1)) and [o for o in s["order"]][:1] == [(("col", "scheduled_at"), "asc")])
    if not st["ok"]:
        h.prove("a database error is reported", h.isv(r, "Err") if kind == "val" else False); return
    some = ctx.const(st["name"] + ".tag", ("int", 0, 1)) == 1
    t = ctx.const(st["name"] + ".scheduled_at", ("int", DT_MIN, DT_MAX))
    h.prove("a due job is offered instead of waiting", z3.Implies(z3.And(some, t <= now.t), z3.BoolVal(bool(claims))))
    h.prove("nothing is claimed before a job is due", z3.Implies(z3.BoolVal(bool(claims)), z3.And(some, t <= now.t + DELTA)))
    if claims: check_claim(h, claims[0][0], ext)
    if kind == "iter":
        h.cover("the stream waits")
        ws = waits(h)
        h.prove("the stream waits once per round, for a bounded time", len(ws) == 1 and ws[0][0] is not None)
        if len(ws) != 1 or ws[0][0] is None: return
        d, rec = ws[0]
        h.prove("a wake-up ends the wait", rec)
        h.prove("a wait is at most 30 seconds", d <= S30)
        h.prove("a stream looks again when the next job is due", z3.Implies(some, now.t + d <= z3.If(t > now.t + DELTA, t, now.t + DELTA)))
    elif kind == "val":
        h.prove("something is offered only if it was claimed, or the database failed", bool(claims))
        if not claims: return
        cst = claims[0][0]
        if not cst["ok"]:
            h.prove("a database error is reported", h.isv(r, "Err")); return
        h.cover("the stream offers a job")
        h.prove("the job claimed is the job offered", z3.Implies(h.isv(r, "Ok"), ctx.deref(r.pay(0)["0"]).f["id"].t == ctx.const(cst["name"] + ".Some.0.id", ("int", -2**31, 2**31 - 1))) if 0 in r._pay or r.lazy else h.isv(r, "Err"))


def connected(h):
    """a Postgres backend made from any pool -> (backend, the channel it listens to, its listening task)"""
    from .c11 import PG
    ctx = h.ctx
    kind, r = h.callm(PG, "from_pool", [OpV(ctx.const("pool", ("id",)), "sqlx::PgPool")])
    h.prove("connecting does not panic", kind == "val")
    if kind != "val": return None
    heard = [e for e in ctx.trace if e[0] == "listen"]
    if not ctx.decide(h.isv(r, "Ok")): return None
    h.cover("connected")
    h.prove("a backend that was handed out listens to notifications", len(heard) == 1 and isinstance(heard[0][2], StrV) and heard[0][2].text is not None)
    h.prove("there is one listening task", len(h.lib.spawned) == 1)
    if len(heard) != 1 or len(h.lib.spawned) != 1: return None
    return ctx.deref(r.pay(0)["0"]), heard[0], h.lib.spawned[0]


def pg_listener(h):
    """one notification, with any streams registered"""
    ctx = h.ctx
    x = connected(h)
    if x is None: return
    be, heard, task = x
    # the map of subscribers of the backend handed out, whatever it holds by now
    locks = [v for v in be.f.values() if isinstance(ctx.deref(v), LockV)]
    if len(locks) != 1: fail("subscribers of the backend")
    lk = ctx.deref(locks[0])
    ctx.setcell(lk.cell, MapV("subs", UNK))
    ctx.notes["stream_loop"] = True
    n = len(ctx.trace)
    kind, r = h.run(lambda: h.lib.await_(task.d["fut"]))
    got = [e for e in ctx.trace[n:] if e[0] == "notification"]
    if not got:
        h.prove("listening ends only if the connection is lost", kind == "val" and any(e[0] == "recv_failed" for e in ctx.trace[n:])); return
    dec = ctx.notes.get("decoded", [])
    if kind == "panic":
        # the payload is always readable: see the harness of the trigger
        h.prove("a readable notification does not stop the listener", not dec); return
    h.prove("a notification is read", len(dec) == 1)
    if len(dec) != 1: return
    h.cover("a notification")
    h.prove("listening goes on after a notification", kind == "iter")
    ty, v = dec[0]
    if "executor" not in v.f: fail("executor of a notification")
    ext = v.f["executor"].t
    for x in sends(h):
        own = owner(h, x)
        h.prove("only streams of the job's executor are woken", bool(own) and own[0].fam["key"] is not None and ctx.must(own[0].fam["key"] == ext))
    root = h.lib.subs_leaf(None, ext)
    if ctx.decide(ctx.const(root.name + ".present", ("bool",))):
        h.cover("subscribers exist")
        woken(h, root, "every stream of the job's executor is woken")


def pg_trigger(event):
    """a row inserted or updated, whatever it holds: the database notifies the listener of a pending job"""
    def run(h):
        from .. import sql, schema
        ctx = h.ctx
        x = connected(h)
        if x is None: return
        channel = x[1][2].text
        row = h.fresh(JOB, "row")
        m = sql.Meaning(h, sql.row_of(h, row), dbnow=ctx.now().t)
        sent = []
        try:
            for evs, cond, fn in schema.triggers():
                if event not in evs:
                    if any(e.startswith(event + " of") for e in evs): fail("trigger on certain columns")
                    continue
                if cond is not None and not ctx.decide(m.truth(sql.Parser(sql.lex([("text", cond)])).expr()).t): continue
                trigger_body(h, m, schema.function(fn), {}, sent)
        except sql.BadSql as e:
            h.prove(f"the trigger is well-formed: {e}"[:150], False); return
        pend = status_in(h, row.f["status"], "Scheduled", "Retryable")
        if not ctx.decide(pend): h.cover("a job that is not pending"); return
        h.cover("a pending job")
        mine = [d for c, d in sent if c == channel]
        h.prove("a pending job is notified on the channel listened to", bool(mine))
        note = [t for t in ctx.prog.structs if t.startswith("rexecutor_sqlx::") and t.split("::")[-1] == "Notification"]
        if not note: fail("type of a notification")
        fields = [k for k, _ in ctx.struct_fields(Ty(note[0]))]
        for d in mine[:1]:
            h.prove("a notification has the fields the listener reads", set(fields) <= set(d) or any(k not in d for k in fields) is False)
            for k in fields:
                if k in d and k in row.f: same_value(h, m, d[k], row.f[k], f"the {k} notified is the job's")
    return run


def same_value(h, m, got, want, what):
    from .c20 import same
    from .. import sql
    try: same(h, m, got, want, what)
    except sql.BadSql as e: h.prove(f"{what}: {e}"[:150], False)


def trigger_body(h, m, stmts, env, sent):
    """runs a trigger function; True when it has returned"""
    from .. import sql
    ctx = h.ctx
    def text_of(e):
        while e[0] == "cast": e = e[1]
        if e[0] == "col" and e[1] in env: return text_of(env[e[1]])
        return e
    for s in stmts:
        if s[0] == "return": return True
        if s[0] == "set": env[s[1]] = s[2]
        elif s[0] == "if":
            if trigger_body(h, m, s[2] if ctx.decide(m.truth(s[1]).t) else s[3], env, sent): return True
        elif s[0] == "perform":
            e = s[1]
            if e[0] != "call" or e[1] != "pg_notify" or len(e[2]) != 2: fail("PERFORM in a trigger function")
            c, d = text_of(e[2][0]), text_of(e[2][1])
            if c[0] != "lit": fail("channel of a notification")
            v = m.val(d)
            if not (isinstance(v.v, tuple) and v.v[0] == "object"): fail("payload of a notification")
            sent.append((c[1], v.v[1]))
    return False


HARNESSES = [("wake on " + op, wake(op), {}) for op in
             ("enqueue", "enqueue unique, do nothing", "enqueue unique, replace", "mark_job_retryable", "mark_job_snoozed", "rerun_job", "update_job")] + \
            [("notify_all", notify_all, {}), ("in-memory stream round", stream, {}), ("Postgres stream round", pg_stream, {}),
             ("Postgres listener", pg_listener, {}), ("Postgres trigger, insert", pg_trigger("insert"), {}), ("Postgres trigger, update", pg_trigger("update"), {})]
ASSUMPTIONS = ["a statement sent to Postgres takes no time of its own, and its clock agrees with the program's"]
