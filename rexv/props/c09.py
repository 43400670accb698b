"""C09: in-memory queries return exactly the jobs satisfying the formula."""
from ..harness import *

KEYED = Ty(R + "backend::memory::KeyedJob")


def child_sat(h, root, jobv):
    """induction hypothesis: a function applied to a strict sub-query and this job returns its truth value"""
    ctx = h.ctx
    def hook(it, fi, args, hint):
        if fi.sig["out"] is None: return NotImplemented
        q = [a for a in (ctx.deref(x) for x in args) if isinstance(a, EnumV) and a.ty.n == QUERY.n and a.origin and a.origin[1].startswith(root)
             and a.origin[1] != root]
        js = [a for a in (ctx.deref(x) for x in args) if isinstance(a, StructV)]
        if len(q) != 1 or len(js) != 1 or len(args) != 2: return NotImplemented
        h.prove("sub-queries are evaluated on the same job", ctx.eq(h.jid(js[0]), h.jid(jobv)))
        ctx.stats.assumed["contract:" + fi.qual + " on sub-queries (structural induction)"] = 1
        return BoolV(ctx.const(q[0].origin[1] + ".sat", ("bool",)))
    return hook


def truth(h, q, j, root):
    """(must hold if true, must hold if false): what the value `true` / `false` has to imply"""
    ctx = h.ctx
    f = j.f
    def sat(v):
        v = ctx.deref(v)
        return ctx.const(v.origin[1] + ".sat", ("bool",))
    def conj(seq, fn):
        pos, neg = [], []
        for p in ctx.norm(ctx.deref(seq)).parts:
            if isinstance(p, One):
                pos.append(fn(p.v)); neg.append(z3.Not(fn(p.v)))
            else:
                pos.append(z3.Implies(z3.And(*(p.leaf.facts + [p.guard])), fn(p.tmpl)))
        return z3.And(pos + [z3.BoolVal(True)]), z3.Or(neg + [z3.BoolVal(False)])
    def disj(seq, fn):
        a, b = conj(seq, lambda v: z3.Not(fn(v)))
        return b, a
    def atom(c): return c, z3.Not(c)
    i = q.conc()
    name = ctx.variants(q.ty)[i][0]
    x = ctx.deref(q.pay(i)["0"])
    if name == "Not": return atom(z3.Not(sat(x)))
    if name == "And": return conj(x, sat)
    if name == "Or": return disj(x, sat)
    if name == "ExecutorEqual": return atom(f["executor"].t == x.t)
    if name == "DataEquals": return atom(f["data"].t == x.t)
    if name == "MetadataEquals": return atom(f["metadata"].t == x.t)
    if name == "IdEquals": return atom(f["id"].t == ctx.prim(x))
    if name == "IdIn": return member(h, x, f["id"].t)
    if name == "StatusEqual": return atom(ctx.tagt(f["status"]) == ctx.tagt(x))
    if name == "TagsAllOf": return conj_mem(h, x, f["tags"], True)
    if name == "TagsOneOf": return conj_mem(h, x, f["tags"], False)
    if name == "ScheduledAtBefore": return atom(f["scheduled_at"].t < x.t)
    if name == "ScheduledAtAfter": return atom(f["scheduled_at"].t > x.t)
    if name == "ScheduledAtEqual": return atom(f["scheduled_at"].t == x.t)
    fail(f"no meaning given for the query {name}")


def member(h, seq, t):
    """t is an element of the sequence of primitives: closed formulas (holds, fails)"""
    ctx = h.ctx
    fs = []
    def add(p):
        if isinstance(p, One): fs.append(ctx.prim(p.v) == t); return
        m = ctx.mem_formula(p, ctx.prim(p.tmpl) == t)
        if m is not None: fs.append(m)
        elif p.leaf.kids is not None: [add(x) for x in ctx.expand(p)]
        else: fail("membership in part of a sequence")
    for p in ctx.deref(seq).parts: add(p)
    f = z3.Or(fs + [z3.BoolVal(False)])
    return f, z3.Not(f)


def conj_mem(h, tags, jtags, every):
    """all / some of the tags occur in jtags"""
    if every: return some_mem(h, tags, jtags, True)
    x, y = some_mem(h, tags, jtags, False), some_mem(h, jtags, tags, False)      # the same, from either side
    return z3.Or(x[0], y[0]), z3.Or(x[1], y[1])


def some_mem(h, tags, jtags, every):
    ctx = h.ctx
    pos, neg = [], []
    for p in ctx.norm(ctx.deref(tags)).parts:
        if isinstance(p, One):
            m = member(h, jtags, ctx.prim(p.v))[0]
            m = m if every else z3.Not(m)
            pos.append(m); neg.append(z3.Not(m))
        else:
            m = member(h, jtags, ctx.prim(p.tmpl))[0]
            m = m if every else z3.Not(m)
            pos.append(z3.Implies(z3.And(*(p.leaf.facts + [p.guard])), m))
    a, b = z3.And(pos + [z3.BoolVal(True)]), z3.Or(neg + [z3.BoolVal(False)])
    return (a, b) if every else (b, a)


def entry(h, name="job"):
    m = Mem(h)
    h.jid = lambda v: m.id(v) if v.ty.n != JOB.n else v.f["id"]
    e = h.fresh(m.ety, name)
    return m, e


def matches(variant):
    def run(h):
        ctx = h.ctx
        m, e = entry(h)
        q = h.fresh(QUERY, "q")
        i = ctx.vidx(QUERY, variant)
        ctx.assume(q.tag == i)
        q = EnumV(QUERY, i, {i: q.pay(i)})
        h.it.hook = child_sat(h, "q.", e)
        kind, r = h.callm(QUERY, "matches", [q, e], "Queryable")
        h.prove("evaluating a query does not panic", kind == "val")
        if kind != "val": return
        yes, no = truth(h, q, m.job(e), "q")
        h.prove("a job reported as matching satisfies the query", z3.Implies(r.t, yes))
        h.prove("a job reported as not matching does not satisfy the query", z3.Implies(z3.Not(r.t), no))
        if variant not in ("Not",): h.cover("matching", r.t); h.cover("not matching", z3.Not(r.t))
    return run


SATQ = z3.Function("satisfies_q", z3.IntSort(), z3.BoolSort())


def query(h):
    """the whole call, with `matches` by its contract (the truth value of the query for that job)"""
    ctx = h.ctx
    m = Mem(h)
    q = h.fresh(QUERY, "q")
    def hook(it, fi, args, hint):
        vs = [ctx.deref(x) for x in args]
        if len(vs) == 2 and isinstance(vs[0], EnumV) and vs[0].ty.n == QUERY.n and isinstance(vs[1], StructV):
            h.prove("the query is evaluated as given", ctx.eq(vs[0], q))
            return BoolV(SATQ(m.id(vs[1]).t))
        return NotImplemented
    h.it.hook = hook
    kind, r = h.callm(MEMB, "query", [m.v, q], "Backend")
    h.prove("querying does not fail", kind == "val" and r.conc() == 0)
    if kind != "val" or r.conc() != 0: return
    want = []
    for p in ctx.norm(m.table0).parts:
        if isinstance(p, One):
            if ctx.decide(SATQ(m.id(p.v).t)): want.append(One(p.node, m.job(p.v)))
        else: want.append(Seg(p.leaf, z3.And(p.guard, SATQ(m.id(p.tmpl).t)), m.job(p.tmpl)))
    h.eq("exactly the satisfying jobs are returned, unchanged and in insertion order", r.pay(0)["0"], SeqV(want, JOB))
    h.eq("stored jobs are not changed", m.table, m.table0)


VARIANTS = ["Not", "And", "Or", "ExecutorEqual", "DataEquals", "MetadataEquals", "IdEquals", "IdIn", "StatusEqual", "TagsAllOf", "TagsOneOf",
            "ScheduledAtBefore", "ScheduledAtAfter", "ScheduledAtEqual"]
HARNESSES = [("matches " + v, matches(v), {}) for v in VARIANTS] + [("query", query, {})]
