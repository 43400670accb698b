"""Contracts of sqlx, assumed: query builders and statements are what they send. A statement is executed by an
event ("sql", {...}) with an arbitrary outcome."""
import z3
from .program import *
from .values import *
from .ctx import *

COLS = {"id": Ty("i32"), "executor": STR, "data": JSON, "metadata": JSON, "attempt": Ty("i32"), "max_attempts": Ty("i32"), "priority": Ty("i32"),
        "tags": VEC(STR), "errors": VEC(JSON), "inserted_at": DT, "scheduled_at": DT, "attempted_at": OPT(DT), "completed_at": OPT(DT),
        "cancelled_at": OPT(DT), "discarded_at": OPT(DT), "uniqueness_key": OPT(Ty("i64"))}
ERRORS = ["Configuration", "Database", "Io", "Tls", "Protocol", "RowNotFound", "TypeNotFound", "ColumnIndexOutOfBounds", "ColumnNotFound", "ColumnDecode",
          "Encode", "Decode", "AnyDriverError", "PoolTimedOut", "PoolClosed", "WorkerCrashed", "Migrate", "InvalidArgument", "InvalidSavePointStatement", "BeginFailed"]
ETAG = z3.Function("sqlx_error_kind", z3.IntSort(), z3.IntSort())
SERR = Ty("sqlx::Error")


def builder(lib, text):
    ctx = lib.ctx
    lib.used("sqlx::QueryBuilder: the statement is the pushed text with numbered parameters for the bound values")
    b = ObjV("QueryBuilder", id=ctx.fresh_name("builder"))
    push(lib, b, text)
    return b


def push(lib, b, s):
    s = lib.ctx.deref(s)
    if isinstance(s, StrV) and s.text is not None: lib.ctx.emit(("qb", b.d["id"], ("text", s.text)))
    elif isinstance(s, IntV) and z3.is_int_value(z3.simplify(s.t)): lib.ctx.emit(("qb", b.d["id"], ("text", str(z3.simplify(s.t)))))
    elif isinstance(s, ObjV): fail("text that is not followed")
    else: lib.ctx.emit(("qb", b.d["id"], ("raw", s)))


def parts(trace, bid):
    """what was pushed to the builder, in order"""
    out = []
    seen = set()
    for e in trace:
        if e[0] == "qb" and e[1] == bid: out.append(e[2])
        elif e[0] == "foreach":
            inner = parts(e[3], bid)
            if inner:
                if e[1].name in seen: fail("repeated text with cases")
                seen.add(e[1].name)
                out.append(("each", e[1], e[2], inner))
    # adjacent text is one text
    res = []
    for p in out:
        if p[0] == "text" and res and res[-1][0] == "text": res[-1] = ("text", res[-1][1] + p[1])
        else: res.append(p)
    return res


def statement(lib, ps, args=None, rowty=None, scalar=False):
    return ObjV("Sql", parts=ps, args=args, rowty=rowty, scalar=scalar)


def path(lib, canon, last, o2, targs, hint, env):
    ctx = lib.ctx; D = ctx.deref
    def fn(f): return FnV(lambda a, hint=None, targs2=None: f(a), canon)
    if o2 == "QueryBuilder":
        if last in ("new", "with_arguments"): return fn(lambda a: builder(lib, a[0]))
        if last == "default": return fn(lambda a: builder(lib, ctx.lit_str("")))
        return FnV(lambda a, hint=None, targs2=None: lib.i.method(D(a[0]), a[0] if isinstance(a[0], RefV) else None, last, [], env, hint, [], list(a[1:])), canon)
    if last == "Text": return fn(lambda a: ObjV("Text", v=D(a[0])))
    if last == "Json" and "types" in canon: return fn(lambda a: D(a[0]))
    if canon in ("sqlx::query", "sqlx::query_as", "sqlx::query_scalar"):
        def f(a):
            s = D(a[0])
            rt = targs[-1] if targs and last == "query_as" else None
            return statement(lib, [("text", s.text)] if s.text is not None else [("raw", s)], [], rt, last == "query_scalar")
        return fn(f)
    if o2 == "PgListener" and last in ("connect", "connect_with"):
        return fn(lambda a: outcome(lib, "listener", lambda n: ObjV("PgListener", id=n)))
    if o2 == "PgPoolOptions" and last == "new": return fn(lambda a: ObjV("PgPoolOptions"))
    if o2 == "PgPool" and last in ("connect",): return fn(lambda a: outcome(lib, "connect", lambda n: OpV(ctx.const(n, ("id",)), "sqlx::PgPool")))
    if o2 == "Error" and last in ERRORS:
        def mk(a):
            t = ctx.const(ctx.fresh_name("sqlerror"), ("id",))
            ctx.assume(ETAG(t) == ERRORS.index(last))
            return OpV(t, "sqlx::Error")
        return mk([]) if last in ("RowNotFound", "PoolTimedOut", "PoolClosed", "WorkerCrashed", "BeginFailed") else fn(mk)
    fail(f"path {canon}")


def error(lib, hint="sqlerror"):
    ctx = lib.ctx
    t = ctx.const(ctx.fresh_name(hint), ("id",))
    ctx._constrain(z3.And(ETAG(t) >= 0, ETAG(t) < len(ERRORS)))
    return OpV(t, "sqlx::Error")


def outcome(lib, what, mk, ev=None, errev=None):
    """a future that fails with any sqlx error or succeeds"""
    ctx = lib.ctx
    def run(h=None):
        if ctx.notes.get("suspend"): raise Suspended()
        n = ctx.fresh_name(what)
        if ctx.choose(2, what) == 1:
            if errev: ctx.emit(errev(n))
            return ctx.err(error(lib, n + ".error"), UNK, SERR)
        if ev:
            e = ev(n); ctx.emit(e)
            if e[0] == "sql" and ctx.notes.get("after_sql"): ctx.notes["after_sql"](e[1])
        v = mk(n)
        return ctx.ok(v, lib.i.tyof(v), SERR)
    return FutV(run, what, {"kind": "sql"})


def macro(lib, e, env, hint):
    it = lib.i; ctx = lib.ctx
    last = e["name"].split("::")[-1]
    if last == "migrate": return ObjV("Migrator")
    args = [x for _, x in e["args"]]
    rowty = None
    if last == "query_as":
        a = args.pop(0)
        if a["k"] != "Path": fail("query_as! type")
        rowty = it.ty({"t": "Path", "path": a["path"], "qself": None}, env.fr)
    if not args: fail("query without text")
    text = it.val(args[0], env)
    lib.used("sqlx::query!: the statement as written, checked against the schema at compile time")
    vs = [ctx.deref(it.force(it.val(x, env))) for x in args[1:]]
    return statement(lib, [("text", text.text)] if text.text is not None else [("raw", text)], vs, rowty, last == "query_scalar")


def target(lib, v):
    v = lib.ctx.deref(v)
    if isinstance(v, ObjV) and v.kind == "Tx": return ("tx", v.d["id"])
    return ("pool", None)


def row(lib, st, n):
    if st.d["rowty"] is not None: return lib.ctx.fresh(st.d["rowty"], n)
    if st.d["scalar"]: fail("query_scalar")
    return ObjV("Row", stmt=st, name=n)


def run(lib, st, mode, tgt):
    ctx = lib.ctx
    info = {"stmt": st, "mode": mode, "on": target(lib, tgt)}
    def ev(n): d = dict(info); d["name"] = n; d["ok"] = True; return ("sql", d)
    def errev(n): d = dict(info); d["name"] = n; d["ok"] = False; return ("sql", d)
    def mk(n):
        if mode == "execute": return ObjV("PgQueryResult", rows=IntV(ctx.const(n + ".rows", ("int", 0, 2**64 - 1)), "u64"))
        if mode == "fetch_one": return row(lib, st, n)
        if mode == "fetch_optional":
            if st.d["rowty"] is not None: return ctx.fresh(OPT(st.d["rowty"]), n)
            tag = ctx.const(n + ".tag", ("int", 0, 1))
            r = row(lib, st, n)
            return EnumV(OPT(Ty("Row")), tag, {0: {}, 1: {"0": r}})
        if mode == "fetch_all":
            if st.d["rowty"] is None: fail("fetch_all of rows")
            return ctx.fresh(VEC(st.d["rowty"]), n)
        fail(mode)
    return outcome(lib, "sql", mk, ev, errev)


def op_method(lib, v, name, A, AV, n, hint):
    ctx = lib.ctx
    if "PgPool" in v.kind:
        if name == "begin": return outcome(lib, "tx", lambda n: ObjV("Tx", id=n), lambda n: ("begin", n))
        if name == "clone": return v
    return NotImplemented


def method(lib, v, ref, name, A, AV, fnarg, n, hint, targs, env):
    ctx = lib.ctx; it = lib.i
    k = v.kind
    if k == "QueryBuilder":
        if name == "push": push(lib, v, it.force(AV(0))); return v
        if name == "push_bind": ctx.emit(("qb", v.d["id"], ("bind", ctx.deref(it.force(AV(0)))))); return v
        if name == "separated":
            s = AV(0)
            if not isinstance(s, StrV) or s.text is None: fail("separator")
            return ObjV("Separated", b=v, sep=s, st={"n": 0})
        if name in ("build", "build_query_as", "build_query_scalar"):
            if ctx.nested(): fail("statement built inside an abstracted loop")
            rt = targs[0] if targs and name == "build_query_as" else None
            if name == "build_query_as" and (rt is None or rt == UNK): fail("row type of build_query_as")
            return statement(lib, parts(ctx.trace, v.d["id"]), None, rt, name == "build_query_scalar")
        if name in ("sql", "into_sql"): fail("sql text of a builder")
    if k == "Separated":
        if ctx.nested(): fail("separated parts inside an abstracted loop")
        if name in ("push", "push_bind"):
            if v.d["st"]["n"]: push(lib, v.d["b"], v.d["sep"])
            v.d["st"]["n"] += 1
        if name in ("push", "push_unseparated"): push(lib, v.d["b"], it.force(AV(0))); return v
        if name in ("push_bind", "push_bind_unseparated"): ctx.emit(("qb", v.d["b"].d["id"], ("bind", ctx.deref(it.force(AV(0)))))); return v
    if k == "Sql":
        if name == "bind":
            if v.d["args"] is None: fail("bind on a built query")
            return v.with_(args=v.d["args"] + [ctx.deref(it.force(AV(0)))])
        if name in ("execute", "fetch_one", "fetch_optional", "fetch_all"): return run(lib, v, name, A(0))
        if name == "persistent": return v
    if k == "PgQueryResult" and name == "rows_affected": return v.d["rows"]
    if k == "Tx":
        tid = v.d["id"]
        if name == "commit": return outcome(lib, "commit", lambda n: UNITV, lambda n: ("commit", tid), lambda n: ("commit_failed", tid))
        if name == "rollback": return outcome(lib, "rollback", lambda n: UNITV, lambda n: ("rollback", tid), lambda n: ("rollback", tid))
        if name in ("as_mut", "deref_mut", "acquire", "borrow_mut"): return v
    if k == "Row":
        if name in ("get", "try_get"):
            i = AV(0)
            col = i.text if isinstance(i, StrV) else column(lib, v, i)
            t = targs[0] if targs and targs[0] != UNK else (hint if name == "get" and hint is not None else None)
            if t is None or t == UNK:
                to = lambda ty: cell(lib, v, col, ty.a[0] if name == "try_get" and ty.n == "Result" else ty)
                return ObjV("deferred", to=to)
            r = cell(lib, v, col, t)
            if name == "get": return r
            if ctx.choose(2, "decode") == 1: return ctx.err(error(lib), UNK, SERR)
            return ctx.ok(r, t, SERR)
    if k == "PgListener":
        if name in ("listen", "listen_all"):
            ch = AV(0)
            return outcome(lib, "listen", lambda n: UNITV, lambda n: ("listen", v.d["id"], ch))
        if name in ("recv", "try_recv"):
            def mk(n): return ObjV("PgNotification", name=n)
            return outcome(lib, "recv", mk, lambda n: ("notification", n), lambda n: ("recv_failed", n))
    if k == "PgNotification" and name == "payload": return StrV(ctx.const(v.d["name"] + ".payload", ("id",)))
    if k == "PgPoolOptions":
        if name == "connect": return outcome(lib, "connect", lambda n: OpV(ctx.const(n, ("id",)), "sqlx::PgPool"))
        return v
    return NotImplemented


def column(lib, v, i):
    from . import sql
    t = z3.simplify(i.t)
    if not z3.is_int_value(t): fail("row index")
    st = v.d["stmt"]
    try: s = sql.parse(st.d["parts"], st.d["args"])
    except sql.BadSql as e: fail(f"statement: {e}")
    items = s["cols"] if s["k"] == "select" else (s.get("returning") or [])
    k = t.as_long()
    if k >= len(items): raise Panic("column index out of range")
    e, al = items[k]
    if al: return al
    if e[0] == "col": return e[1]
    fail("column of an expression")


def cell(lib, v, col, t):
    """the value of a column: one constant per row and column"""
    return lib.ctx.fresh(t, f"{v.d['name']}.{col}")


def row_field(lib, v, f):
    if f not in COLS: fail(f"column {f}")
    return cell(lib, v, f, COLS[f])


def match_error(lib, p, a, env):
    ctx = lib.ctx
    segs = [s["id"] for s in p["path"]]
    if segs[-1] not in ERRORS: fail(f"sqlx error {segs[-1]}")
    ctx._constrain(z3.And(ETAG(a.t) >= 0, ETAG(a.t) < len(ERRORS)))
    if not ctx.decide(ETAG(a.t) == ERRORS.index(segs[-1])): return False
    for x in p.get("e") or []:
        if x["p"] in ("Wild", "Rest"): continue
        n = "std::io::Error" if segs[-1] == "Io" else "external"
        if lib.i.match(x, OpV(ctx.const(ctx.fresh_name("cause"), ("id",)), n), env) is False: return False
    return True
