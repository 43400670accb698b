"""C12: in-memory pruning removes exactly what the specification says."""
from ..harness import *
from .c09 import member


def selected(h, m, spec):
    """spec: status and executor of an entry are selected"""
    ctx = h.ctx
    def sel(v):
        j = m.job(v).f
        ex = ctx.deref(spec.f["executors"])
        only = ctx.tagt(ex) == ctx.vidx(SPEC, "Only")
        listed = lambda i: member(h, ex.pay(i)["0"], j["executor"].t)[0]
        io, ie = ctx.vidx(SPEC, "Only"), ctx.vidx(SPEC, "Except")
        return z3.And(ctx.tagt(j["status"]) == ctx.tagt(spec.f["status"]), z3.If(only, listed(io), z3.Not(listed(ie))))
    return sel


def setup(h, variant):
    ctx = h.ctx
    m = Mem(h)
    now = ctx.now()
    spec = h.fresh(PSPEC, "spec")
    i = ctx.vidx(PBY, variant)
    by = ctx.deref(spec.f["prune_by"])
    ctx.assume(by.tag == i)
    spec = spec.with_("prune_by", EnumV(PBY, i, {i: by.pay(i)}))
    return ctx, m, now, spec, ctx.deref(by.pay(i)["0"])


def age(h):
    ctx, m, now, spec, d = setup(h, "MaxAge")
    # now ± d has to be representable (chrono panics otherwise)
    ctx.assume(z3.And(now.t - d.t >= DT_MIN, now.t - d.t <= DT_MAX, now.t + d.t >= DT_MIN, now.t + d.t <= DT_MAX))
    sel = selected(h, m, spec)
    kind, r = h.callm(MEMB, "prune_jobs", [m.v, spec], "Backend")
    h.prove("pruning succeeds", kind == "val" and r.conc() == 0)
    if kind != "val": return
    def gone(v):
        s = m.job(v).f["scheduled_at"].t
        dist = z3.If(s >= now.t, s - now.t, now.t - s)
        return z3.And(sel(v), dist >= d.t)
    want = []
    for p in ctx.norm(m.table0).parts:
        if isinstance(p, One):
            if not ctx.decide(gone(p.v)): want.append(p)
        else: want.append(Seg(p.leaf, z3.And(p.guard, z3.Not(gone(p.tmpl))), p.tmpl))
    h.eq("exactly the selected jobs of at least that age are removed, the rest kept unchanged in order", m.table, SeqV(want, m.ety))


def length(h):
    ctx, m, now, spec, n = setup(h, "MaxLength")
    sel = selected(h, m, spec)
    kind, r = h.callm(MEMB, "prune_jobs", [m.v, spec], "Backend")
    h.prove("pruning succeeds", kind == "val" and r.conc() == 0)
    if kind != "val": return
    done = status_in(h, spec.f["status"], "Complete", "Cancelled", "Discarded")
    sched = lambda v: m.job(v).f["scheduled_at"].t
    def better(a, b):      # a has to be kept rather than b
        return z3.If(done, sched(a) > sched(b), sched(a) < sched(b))
    if ctx.bound is not None: return bounded_length(h, m, sel, better, n)
    parts = ctx.norm(m.table0).parts
    if len(parts) != 1: fail("the table was refined")
    leaf = parts[0].leaf
    rs = ctx.notes.get("ranks", [])
    if len(rs) != 1: fail("no unique ranking used")
    rk = rs[0]
    seg = rk["seg"]
    if seg.leaf is not leaf: fail("ranking of another sequence")
    gen = parts[0].tmpl
    F = z3.And(*leaf.facts)
    h.prove("exactly the selected jobs are ranked", z3.Implies(F, seg.guard == sel(gen)))
    rank = ctx.const(leaf.g + rk["name"], ("int", 0, 2**62))
    h.eq("exactly the selected jobs ranked behind the limit are removed, the rest kept unchanged in order", m.table,
         SeqV([Seg(leaf, z3.Not(z3.And(sel(gen), rank >= n.t)), gen)], m.ety))
    # the ranking: a strict weak order that prefers the jobs to keep
    es = []
    for k in range(3):
        nm = f"{leaf.name}!e{k}"
        v = ctx.fresh(leaf.ety, nm)
        for f in leaf.facts + [seg.guard]: ctx.assume(ctx.subst_term(f, leaf.g, nm))
        es.append((nm, v, ctx.subst(ctx.deref(seg.tmpl), leaf.g, nm)))
    for a, b in ((0, 1), (0, 2), (1, 2)):
        for pf in leaf.pair: ctx.assume(pf(ctx, es[a][0], es[b][0]))
    less = lambda a, b: rk["less"](es[a][2], es[b][2])
    h.cover("several jobs are ranked")
    h.prove("a job to be kept rather than another is ranked before it", z3.Implies(better(es[0][1], es[1][1]), less(0, 1)))
    h.prove("the ranking is consistent", z3.And(z3.Not(z3.And(less(0, 1), less(1, 0))), z3.Implies(z3.And(less(0, 1), less(1, 2)), less(0, 2)),
                                                z3.Implies(z3.And(z3.Not(less(1, 0)), z3.Not(less(2, 1))), z3.Not(less(2, 0)))))


def bounded_length(h, m, sel, better, n):
    ctx = h.ctx
    before = m.table0.parts
    after = m.table.parts
    pos = [next((i for i, p in enumerate(before) if p.node is q.node), None) for q in after]
    h.prove("the rest is kept in order", None not in pos and pos == sorted(pos) and len(set(pos)) == len(pos))
    if None in pos: return
    for i, q in zip(pos, after): h.eq("kept jobs are unchanged", q.v, before[i].v)
    gone = [p for i, p in enumerate(before) if i not in pos]
    h.prove("only selected jobs are removed", z3.And([sel(p.v) for p in gone] + [z3.BoolVal(True)]))
    ks = z3.Sum([z3.If(sel(q.v), 1, 0) for q in after] + [z3.IntVal(0)])
    tot = ks + len(gone)
    h.prove("the number of selected jobs kept", ks == z3.If(tot < n.t, tot, n.t))
    for p in gone:
        for q in after:
            h.prove("no job is removed that had to be kept rather than one kept", z3.Implies(sel(q.v), z3.Not(better(p.v, q.v))))


HARNESSES = [("prune by age", age, {}), ("prune by length", length, {})]
ASSUMPTIONS = ["now ± the maximal age is a representable time (chrono panics otherwise)"]
