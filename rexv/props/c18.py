"""C18: uniqueness criteria and replacement builders set exactly what they name."""
from ..harness import *

K = Ty("param", (Ty("H"),))


def sched(h): return SeqV([One(h.ctx.newnode("s"), h.enum(STATUS, "Scheduled"))], STATUS)


def check(h, what, kind, r, want):
    h.prove(f"{what} does not panic", kind == "val")
    if kind != "val": return
    for k, v in want.items():
        h.eq(f"{what}: {k}", h.ctx.deref(r.f[k]), v)


def replace(h):
    ctx = h.ctx
    F, T = BoolV(False), BoolV(True)
    names = ["scheduled_at", "data", "metadata", "priority", "max_attempts"]
    if set(names) | {"for_statuses"} != {k for k, _ in ctx.struct_fields(REPL)}: fail("fields of Replace")
    for n in names:
        kind, r = h.callm(REPL, n, [])
        check(h, f"Replace::{n}", kind, r, {**{m: T if m == n else F for m in names}, "for_statuses": sched(h)})
        r0 = h.fresh(REPL, "r")
        kind, r = h.callm(REPL, "and_" + n, [r0])
        check(h, f"Replace::and_{n}", kind, r, {**r0.f, n: T})
    st = h.fresh(VEC(STATUS), "statuses")
    r0 = h.fresh(REPL, "r")
    kind, r = h.callm(REPL, "for_statuses", [r0, st])
    check(h, "Replace::for_statuses", kind, r, {**r0.f, "for_statuses": st})
    h.cover("done")


def criteria(h):
    ctx = h.ctx
    d, st, k, rep = h.fresh(TD, "d"), h.fresh(VEC(STATUS), "statuses"), h.fresh(K, "k"), h.fresh(REPL, "rep")
    none = lambda t: ctx.none(t)
    I64 = Ty("i64")
    base = {"key": none(I64), "executor": BoolV(False), "duration": none(TD), "statuses": sched(h), "on_conflict": h.enum(RESOL, "DoNothing")}
    if set(base) != {n for n, _ in ctx.struct_fields(UC)}: fail("fields of UniquenessCriteria")
    c0 = h.fresh(UC, "c")
    kind, bk = h.callm(UC, "by_key", [k])
    if kind != "val": h.prove("by_key does not panic", False); return
    key = ctx.deref(bk.f["key"])
    h.prove("by_key gives a key", h.isv(key, "Some"))
    kt = ctx.deref(key.pay(1)["0"]).t
    # equal values give equal keys: the key is a function of the value alone
    consts = set()
    def walk(e):
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED: consts.add(e.decl().name())
        for x in e.children(): walk(x)
    walk(kt)
    h.prove("the key depends on the value and on nothing else", consts <= {"k"})
    h.prove("the key depends on the value", bool(consts))
    table = [
        ("by_executor", [], {**base, "executor": BoolV(True)}), ("within", [d], {**base, "duration": ctx.some(d, TD)}),
        ("by_statuses", [st], {**base, "statuses": st}), ("by_key", [k], {**base, "key": key}),
        ("and_executor", [c0], {**c0.f, "executor": BoolV(True)}), ("and_within", [c0, d], {**c0.f, "duration": ctx.some(d, TD)}),
        ("and_statuses", [c0, st], {**c0.f, "statuses": st}), ("and_key", [c0, k], {**c0.f, "key": key}),
        ("on_conflict", [c0, rep], {**c0.f, "on_conflict": h.enum(RESOL, "Replace", rep)}),
        ("on_conflict_do_nothing", [c0], {**c0.f, "on_conflict": h.enum(RESOL, "DoNothing")})]
    for n, a, want in table:
        kind, r = h.callm(UC, n, a)
        check(h, f"UniquenessCriteria::{n}", kind, r, want)
    h.cover("done")


def every(h):
    ctx = h.ctx
    v = ctx.deref(h.it.assoc_value(STATUS, "ALL", [], None, None, None))
    ps = ctx.norm(v).parts
    if not all(isinstance(p, One) for p in ps): fail("JobStatus::ALL")
    for i, (n, _) in enumerate(ctx.variants(STATUS)):
        h.prove(f"JobStatus::ALL has {n} once", z3.Sum([z3.If(ctx.tagt(ctx.deref(p.v)) == i, 1, 0) for p in ps]) == 1)


HARNESSES = [("all statuses", every, {}), ("replace", replace, {}), ("criteria", criteria, {})]
ASSUMPTIONS = ["fxhash::hash64 is a function of the value"]
