"""C14: the pruner runs every configured pruner as configured."""
from ..harness import *

CFG = Ty(R + "pruner::PrunerConfig"); PRUNER = Ty(R + "pruner::Pruner"); RUNNER = Ty(R + "pruner::runner::PrunerRunner")
ALL, ONLY, EXC = (Ty(R + "pruner::" + x) for x in ("All", "Only", "Except"))
PB = Ty("param", (Ty("B"),))


def spec_of(h, p):
    return h.run(lambda: h.lib.convert(p, PSPEC, False))


def sel(h, v, name):
    """the executors selected by a Spec, as a formula of the name"""
    ctx = h.ctx
    v = ctx.deref(v)
    def mem(seq):
        from .c09 import member
        return member(h, seq, name)[0]
    i = v.conc()
    if i is None: fail("selection of unknown kind")
    n = ctx.variants(SPEC)[i][0]
    x = v.pay(i)["0"]
    return mem(x) if n == "Only" else z3.Not(mem(x))


def builders(h):
    ctx = h.ctx
    age, n, st = h.fresh(TD, "age"), h.fresh(Ty("u32"), "n"), h.fresh(STATUS, "status")
    some = ctx.const("name", ("id",))
    en = ctx.fresh(STR, "E::NAME")
    for ctor, arg, var in (("max_age", age, "MaxAge"), ("max_length", n, "MaxLength")):
        def base():
            return h.callm(PRUNER, ctor, [arg, st], self_ty=Ty(PRUNER.n, (ALL,)))
        for how in ("all", "only", "except"):
            kind, p = base()
            if kind == "val" and how != "all":
                fi = h.fn(ty=PRUNER, name=how)
                kind, p = h.run(lambda: h.it.call(fi, [p], None, self_ty=Ty(PRUNER.n, (ALL,)), targs=[Ty("param", (Ty("E"),))]))
            h.prove("building a pruner does not panic", kind == "val")
            if kind != "val": return
            kind, s = spec_of(h, p)
            h.prove("a pruner converts to a specification", kind == "val")
            if kind != "val": return
            h.eq(f"{ctor} ({how}) keeps the status", s.f["status"], st)
            h.eq(f"{ctor} ({how}) keeps the limit", s.f["prune_by"], h.enum(PBY, var, arg))
            want = {"all": z3.BoolVal(True), "only": some == en.t, "except": some != en.t}[how]
            h.prove(f"{ctor} ({how}) selects the right executors", sel(h, s.f["executors"], some) == want)


def chain(kindty):
    def run(h):
        """from an arbitrary pruner of this kind, adding an executor"""
        ctx = h.ctx
        T = Ty(PRUNER.n, (kindty,))
        p = h.fresh(T, "p")
        some = ctx.const("name", ("id",))
        en = ctx.fresh(STR, "E::NAME")
        k0, s0 = spec_of(h, p)
        fs = [f for f in ctx.prog.methods.get((PRUNER.n, "and"), []) if f.impl.self_ty.a and f.impl.self_ty.a[0].n == kindty.n]
        if not fs: fail("no and")
        k1, q = h.run(lambda: h.it.call(fs[0], [p], None, self_ty=T, targs=[Ty("param", (Ty("E"),))]))
        h.prove("adding an executor does not panic", k0 == "val" and k1 == "val")
        if k0 != "val" or k1 != "val": return
        k2, s = spec_of(h, q)
        if k2 != "val": h.prove("a pruner converts to a specification", False); return
        h.eq("the status stays", s.f["status"], s0.f["status"])
        h.eq("the limit stays", s.f["prune_by"], s0.f["prune_by"])
        a, b = sel(h, s.f["executors"], some), sel(h, s0.f["executors"], some)
        want = z3.Or(b, some == en.t) if kindty.n == ONLY.n else z3.And(b, some != en.t)
        h.prove("exactly the named executor is added", a == want)
    return run


def specs(h, cfg):
    """the configured specifications: the field of the configuration that holds them"""
    fs = [k for k, t in h.ctx.struct_fields(CFG) if t.n == "Vec"]
    if len(fs) != 1: fail("configuration without one list")
    return fs[0]


def config(h):
    ctx = h.ctx
    kind, c = h.callm(CFG, "new", [OpV(ctx.const("sched", ("id",)), "cron::Schedule")])
    h.prove("a new configuration does not panic", kind == "val")
    if kind != "val": return
    h.prove("a new configuration has no pruners", h.lib.is_empty(ctx.deref(c.f[specs(h, c)])).t)
    c = h.fresh(CFG, "cfg")
    fld = specs(h, c)
    p = h.fresh(Ty(PRUNER.n, (ONLY,)), "p")
    k0, s = spec_of(h, p)
    fi = h.fn(ty=CFG, name="with_pruner")
    kind, c2 = h.run(lambda: h.it.call(fi, [c, p], None, self_ty=CFG, targs=[ONLY]))
    h.prove("adding a pruner does not panic", kind == "val" and k0 == "val")
    if kind != "val" or k0 != "val": return
    old = ctx.norm(c.f[fld])
    h.eq("a pruner is added after the others", c2.f[fld], SeqV(list(old.parts) + [One(ctx.newnode("spec"), s)], PSPEC))
    for k in c.f:
        if k != fld: h.eq("nothing else changes", c2.f[k], c.f[k])
    lim = h.fresh(OPT(Ty("usize")), "limit")
    kind, c3 = h.callm(CFG, "with_max_concurrency", [c, lim])
    h.prove("limiting the concurrency does not panic", kind == "val")
    if kind != "val": return
    h.eq("the concurrency limit is the given one", c3.f[limit_field(h)], lim)
    for k in c.f:
        if k != limit_field(h): h.eq("nothing else changes with the limit", c3.f[k], c.f[k])


def limit_field(h):
    fs = [k for k, t in h.ctx.struct_fields(CFG) if t.n == "Option"]
    if len(fs) != 1: fail("configuration without one limit")
    return fs[0]


def many(h):
    ctx = h.ctx
    c = h.fresh(CFG, "cfg")
    fld = specs(h, c)
    T = Ty(PRUNER.n, (ONLY,))
    ps = h.fresh(VEC(T), "ps")
    fi = h.fn(ty=CFG, name="with_pruners")
    kind, c2 = h.run(lambda: h.it.call(fi, [c, ps], None, self_ty=CFG, targs=[ONLY]))
    h.prove("adding pruners does not panic", kind == "val")
    if kind != "val": return
    old = ctx.norm(c.f[fld])
    add = []
    for p in ctx.norm(ps).parts:
        if isinstance(p, One): add.append(One(p.node, spec_of(h, p.v)[1]))
        else: add.append(Seg(p.leaf, p.guard, spec_of(h, p.tmpl)[1]))
    h.eq("the pruners are added in order after the others", c2.f[fld], SeqV(list(old.parts) + add, PSPEC))
    for k in c.f:
        if k != fld: h.eq("nothing else changes", c2.f[k], c.f[k])


def start(h):
    ctx = h.ctx
    h.t0 = ctx.now().t
    f = {}
    for k, t in ctx.struct_fields(RUNNER):
        f[k] = OpV(ctx.const("backend", ("id",)), repr(PB), PB) if t.n == "param" else h.fresh(t, k)
    run = StructV(Ty(RUNNER.n, (PB,)), f)
    cfgs = [v for v in f.values() if isinstance(v, StructV) and v.ty.n == CFG.n]
    if len(cfgs) != 1: fail("runner without a configuration")
    tok = ObjV("CancellationToken", id="shutdown")
    kind, r = h.callm(RUNNER, "spawn", [run, tok], self_ty=run.ty)
    h.prove("starting the pruner does not panic", kind == "val")
    h.prove("the pruner is one task", len(h.lib.spawned) == 1)
    if kind != "val" or len(h.lib.spawned) != 1: return None
    task = h.lib.spawned[0]; h.it.lib.spawned = []
    ctx.notes["stream_loop"] = True
    kind, r = h.run(lambda: h.lib.await_(task.d["fut"]))
    return cfgs[0], kind


def timing(h, at):
    """one run per tick: not before the second of the tick, not after waiting beyond it, and the round lasts until the tick"""
    ctx = h.ctx
    ticks = [e for e in ctx.trace if e[0] == "tick"]
    if len(ticks) != 1: fail("ticks of a round")
    tick = ticks[0][2]
    t0 = ctx.notes.get("round", h.t0)
    before = z3.Sum([e[1].t for e in ctx.trace[:at] if e[0] == "sleep"] + [z3.IntVal(0)])
    every = z3.Sum([e[1].t for e in ctx.trace if e[0] == "sleep"] + [z3.IntVal(0)])
    h.prove("a run starts at most a second before its tick", t0 + before >= tick - NS)
    h.prove("a run does not wait beyond its tick", t0 + before <= tick)
    h.prove("there is one run per tick: the round lasts until the tick", ctx.now().t >= tick)


def runner(h):
    """one round of the pruner's loop, for any configuration"""
    ctx = h.ctx
    s = start(h)
    if s is None: return
    cfg, kind = s
    h.prove("no round of the pruner panics", kind != "panic")
    if kind == "panic": return
    calls, each = [], []
    for e in ctx.trace:
        if e[0] == "call" and e[1] == "Backend": calls.append(e)
        if e[0] == "foreach": each.append(e)
    stopped = any(e[0] == "cancelled" or e[0] == "is_cancelled" and ctx.must(e[2]) for e in ctx.trace)
    pr = ctx.norm(ctx.deref(cfg.f[specs(h, cfg)]))
    if stopped:
        h.cover("shut down")
        h.prove("no prune call after shutdown", not calls and not each)
        h.prove("the pruner ends on shutdown", kind == "val")
        return
    h.prove("a failing prune call does not stop the pruner", kind == "iter")
    h.cover("a run of the pruner")
    waits = [i for i, e in enumerate(ctx.trace) if e[0] == "sleep"]
    first = [i for i, e in enumerate(ctx.trace) if e[0] == "foreach" or (e[0] == "call" and e[1] == "Backend")]
    h.prove("the pruner waits for its schedule", bool(waits) and (not first or waits[0] < first[0]) and any(e[0] == "tick" for e in ctx.trace))
    timing(h, first[0] if first else len(ctx.trace))
    ones = [p for p in pr.parts if isinstance(p, One)]
    segs = [p for p in pr.parts if isinstance(p, Seg)]
    h.prove("as many single calls as single pruners", len(calls) == len(ones))
    if len(calls) == len(ones):
        for p, c in zip(ones, calls):
            h.prove("the call is a prune call", c[2] == "prune_jobs")
            h.eq("with the configured specification", c[3][1], p.v)
    for p in segs:
        mine = [e for e in each if e[1] is p.leaf]
        h.prove("every pruner is run", z3.Implies(z3.And(p.leaf.facts + [p.guard]), z3.Or([e[2] for e in mine] + [z3.BoolVal(False)])))
        for i, e in enumerate(mine):
            evs = [x for x in e[3] if x[0] == "call" and x[1] == "Backend"]
            h.prove("one prune call per pruner", z3.Implies(z3.And(p.leaf.facts + [e[2]]), z3.BoolVal(len(evs) == 1 and evs[0][2] == "prune_jobs")))
            if len(evs) == 1 and evs[0][2] == "prune_jobs":
                h.prove("with the configured specification", z3.Implies(z3.And(p.leaf.facts + [e[2]]), ctx.eq(evs[0][3][1], p.tmpl)))
            for e2 in mine[:i]:
                h.prove("no pruner is run twice", z3.Implies(z3.And(p.leaf.facts), z3.Not(z3.And(e[2], e2[2]))))
    h.prove("nothing else is pruned", all(any(e[1] is p.leaf for p in segs) for e in each if any(x[0] == "call" for x in e[3])))
    lim = cfg.f[limit_field(h)]
    for e in ctx.trace:
        if e[0] == "for_each":
            l = ctx.deref(e[1])
            n, m = ctx.tagt(l), ctx.tagt(lim)
            pl = l.pay(1)["0"].t if l.conc() != 0 else z3.IntVal(0)
            pm = lim.pay(1)["0"].t
            # sequential running respects every limit; a limit of zero means no limit to for_each_concurrent
            ok = z3.Implies(m == 1, z3.And(n == 1, z3.Or(pl == 1, z3.And(pl <= pm, z3.Implies(pl == 0, pm == 0)))))
            h.prove("never more prune calls at once than configured", ok)


HARNESSES = [("builders", builders, {}), ("only-and", chain(ONLY), {}), ("except-and", chain(EXC), {}), ("configuration", config, {}),
             ("with_pruners", many, {}), ("runner", runner, {})]
ASSUMPTIONS = ["cron schedules have a next tick", "futures for_each_concurrent runs at most `limit` bodies at once and every item"]
