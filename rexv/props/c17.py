"""C17: converting jobs between typed, stored and row form loses nothing."""
from ..harness import *
from ..lib import ENC
from .c10 import wf

TJOB = Ty(R + "job::Job"); S = "rexecutor_sqlx::types::"
ROW = Ty(S + "Job"); RSTATUS = Ty(S + "JobStatus"); RERR = Ty(S + "JobError"); RETYPE = Ty(S + "ErrorType")
D_, M_ = Ty("param", (Ty("D"),)), Ty("param", (Ty("M"),))
TT = Ty(TJOB.n, (D_, M_))
SAME = ["executor", "tags", "errors", "inserted_at", "scheduled_at", "attempted_at", "completed_at", "cancelled_at", "discarded_at"]


def conv(h, v, ty): return h.run(lambda: h.lib.convert(v, ty, True))


def to_typed(h):
    ctx = h.ctx
    j = h.fresh(JOB, "job")
    for c in wf(j): ctx.assume(c)
    kind, r = conv(h, j, TT)
    h.prove("decoding a stored job does not panic", kind == "val")
    if kind != "val": return
    dec = ctx.notes.get("decodes", [])
    if ctx.decide(ctx.tagt(r) == 1):
        h.cover("undecodable")
        h.prove("only undecodable data or metadata is refused", z3.Or([z3.Not(d) for d in dec] + [z3.BoolVal(False)]))
        return
    h.cover("decoded")
    h.prove("both data and metadata are decoded", z3.And(dec) if len(dec) >= 2 else False)
    t = ctx.deref(r.pay(0)["0"]).f
    h.prove("the id", ctx.prim(t["id"]) == j.f["id"].t)
    h.eq("the status", t["status"], j.f["status"])
    for k in ("attempt", "max_attempts", "priority"): h.prove("the " + k, t[k].t == j.f[k].t)
    for k in SAME: h.eq("the " + k, t[k], j.f[k])
    h.eq("the data", t["data"], h.lib.decoded(D_, j.f["data"].t, repr(D_)))
    h.eq("the metadata", t["metadata"], h.lib.decoded(OPT(M_), j.f["metadata"].t, repr(OPT(M_))))


def to_stored(h):
    ctx = h.ctx
    t = h.fresh(TT, "typed")
    kind, r = conv(h, t, JOB)
    h.prove("encoding a typed job does not panic", kind == "val")
    if kind != "val": return
    if ctx.decide(ctx.tagt(r) == 1):
        h.cover("unencodable"); return
    h.cover("encoded")
    j = ctx.deref(r.pay(0)["0"]).f
    h.prove("the id", j["id"].t == ctx.prim(t.f["id"]))
    h.eq("the status", j["status"], t.f["status"])
    for k in ("attempt", "max_attempts", "priority"): h.prove("the " + k, t.f[k].t == j[k].t)
    for k in SAME: h.eq("the " + k, j[k], t.f[k])
    h.prove("the data", j["data"].t == ENC(h.lib.term(t.f["data"])))
    m = opt_cases(ctx, t.f["metadata"])
    null = ctx.deref(h.lib.encode(ctx.none(M_)).pay(0)["0"])
    h.prove("the metadata", j["metadata"].t == (null.t if m is None else ENC(h.lib.term(m))))


def from_row(h):
    ctx = h.ctx
    row = h.fresh(ROW, "row")
    kind, r = conv(h, row, JOB)
    h.prove("converting a row does not panic", kind == "val")
    if kind != "val": return
    if ctx.decide(ctx.tagt(r) == 1):
        h.cover("undecodable row"); return
    h.cover("converted")
    j = ctx.deref(r.pay(0)["0"]).f
    for k in ("id", "attempt", "max_attempts", "priority"): h.prove("the " + k, j[k].t == row.f[k].t)
    for k in ("data", "metadata"): h.prove("the " + k, j[k].t == row.f[k].t)
    for k in SAME:
        if k != "errors": h.eq("the " + k, j[k], row.f[k])
    status_same(h, j["status"], row.f["status"], "the status")
    # errors: one per stored error, in order, each decoded
    got, want = ctx.norm(j["errors"]).parts, ctx.norm(row.f["errors"]).parts
    h.prove("as many errors as stored", len(got) == len(want))
    if len(got) != len(want): return
    for g, w in zip(got, want):
        same = type(g) is type(w) and (g.leaf is w.leaf if isinstance(g, Seg) else g.node is w.node)
        h.prove("the errors in order", same)
        if not same: return
        gv, wv = (g.tmpl, w.tmpl) if isinstance(g, Seg) else (g.v, w.v)
        facts = g.leaf.facts + [g.guard] if isinstance(g, Seg) else []
        if isinstance(g, Seg): h.prove("every error", z3.Implies(z3.And(facts[:-1] + [z3.BoolVal(True)]), g.guard == w.guard))
        e = ctx.deref(gv).f
        d = h.lib.decoded(RERR, ctx.deref(wv).t, repr(RERR)).f
        im = lambda f: z3.Implies(z3.And(facts + [z3.BoolVal(True)]), f)
        h.prove("an error's attempt", im(e["attempt"].t == d["attempt"].t))
        h.prove("an error's details", im(ctx.eq(e["details"], d["details"])))
        h.prove("an error's time", im(ctx.eq(e["recorded_at"], d["recorded_at"])))
        h.prove("an error's type", im(type_same(h, e["error_type"], d["error_type"])))


def by_name(ctx, a, b):
    """tags of two enums agree by variant name"""
    va, vb = [n for n, _ in ctx.variants(a.ty)], [n for n, _ in ctx.variants(b.ty)]
    return z3.Or([z3.And(ctx.tagt(a) == va.index(n), ctx.tagt(b) == vb.index(n)) for n in va if n in vb])


def status_same(h, a, b, what): h.prove(what, by_name(h.ctx, h.ctx.deref(a), h.ctx.deref(b)))


def type_same(h, a, b):
    ctx = h.ctx
    a, b = ctx.deref(a), ctx.deref(b)
    i, k = ctx.vidx(a.ty, "Other"), ctx.vidx(b.ty, "Other")
    f = by_name(ctx, a, b)
    if a.conc() not in (None, i) or b.conc() not in (None, k): return f
    return z3.And(f, z3.Implies(ctx.tagt(a) == i, ctx.eq(a.pay(i)["0"], b.pay(k)["0"])))


def mapping(s, t, nm):
    def run(h):
        ctx = h.ctx
        h.prove("the two types have the same variants", sorted(n for n, _ in ctx.variants(s)) == sorted(n for n, _ in ctx.variants(t)))
        v = h.fresh(s, "v")
        kind, r = h.run(lambda: h.lib.convert(v, t, False))
        h.prove("mapping does not panic", kind == "val")
        if kind != "val": return
        h.prove("the value keeps its meaning", by_name(ctx, r, v) if ctx.is_clike(s) else type_same(h, r, v))
    return run


def wire_name(item, var, codec):
    """the text a derived codec uses for a variant, from its attributes"""
    import re
    def attr(attrs, key):
        for a in attrs:
            if a.startswith(codec):
                m = re.search(key + r'\s*=\s*"([^"]*)"', a)
                if m: return m.group(1)
    r = attr(var["attrs"], "rename")
    if r is not None and attr(var["attrs"], "rename_all") is None: return r
    style = attr(item["attrs"], "rename_all")
    n = var["id"]
    snake = re.sub(r"(?<!^)(?=[A-Z])", "_", n).lower()
    return {None: n, "lowercase": n.lower(), "UPPERCASE": n.upper(), "snake_case": snake, "SCREAMING_SNAKE_CASE": snake.upper(),
            "kebab-case": snake.replace("_", "-"), "camelCase": n[0].lower() + n[1:], "PascalCase": n}.get(style) or fail(f"rename_all {style}")


def wire(h):
    """texts under which statuses and error types are stored: written and read names agree"""
    import re, glob, os
    from ..program import REPO
    ctx = h.ctx
    item, _ = ctx.prog.enums[RSTATUS.n]
    sql = "".join(open(f).read() for f in sorted(glob.glob(os.path.join(REPO, "rexecutor-sqlx/migrations/*.up.sql"))))
    m = re.search(r"TYPE\s+rexecutor_job_state\s+AS\s+ENUM\s*\(([^)]*)\)", sql, re.I)
    if not m: fail("status type in the migrations")
    labels = sorted(re.findall(r"'([^']*)'", m.group(1)))
    for v in item["variants"]:
        h.prove(f"the status {v['id']} has its own label in the database", wire_name(item, v, "sqlx") == v["id"].lower() and v["id"].lower() in labels)
    item, _ = ctx.prog.enums[RETYPE.n]
    for i, v in enumerate(item["variants"]):
        if v["fields"]["f"]: continue
        e = EnumV(RETYPE, i, {i: {}})
        kind, s = h.run(lambda: h.lib.to_string(e))
        if kind != "val" or s.text is None: fail("text of an error type")
        h.prove(f"the error type {v['id']} is written under the name it is read by", s.text == wire_name(item, v, "serde"))
    i = ctx.vidx(RETYPE, "Other")
    o = h.fresh(STR, "text")
    kind, s = h.run(lambda: h.lib.to_string(EnumV(RETYPE, i, {i: {"0": o}})))
    h.prove("any other error type is written as it is", kind == "val" and ctx.must(s.t == o.t))
    ov = item["variants"][i]
    h.prove("any other error type is read as it is", any(a.replace(" ", "") == "serde(untagged)" for a in ov["attrs"]))


def ids(h):
    ctx = h.ctx
    i = h.fresh(Ty("i32"), "i")
    kind, r = h.run(lambda: h.lib.convert(i, JOBID, False))
    h.prove("an id keeps its value", kind == "val" and ctx.must(ctx.prim(r) == i.t))
    j = h.fresh(JOBID, "j")
    kind, r = h.run(lambda: h.lib.convert(j, Ty("i32"), False))
    h.prove("an id maps back", kind == "val" and ctx.must(r.t == ctx.prim(j)))



ASSUMPTIONS = ["stored counters and priorities are in 0..65535", "the derived serde and sqlx codecs of plain structs and enums follow their attributes",
               "there and back is the identity on data and metadata when the user's serde implementation is faithful"]
HARNESSES = [("stored to typed", to_typed, {}), ("typed to stored", to_stored, {}), ("row to stored", from_row, {}),
             ("row status", mapping(RSTATUS, STATUS, ""), {}), ("status to row", mapping(STATUS, RSTATUS, ""), {}),
             ("row error type", mapping(RETYPE, ETYPE, ""), {}), ("error type to row", mapping(ETYPE, RETYPE, ""), {}), ("stored names", wire, {}), ("ids", ids, {})]
