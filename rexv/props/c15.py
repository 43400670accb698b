"""C15: backoff delays follow their strategy, stay in bounds and never fail."""
from ..harness import *
from .. import lib as LB
from .c10 import trait_call

BS = R + "backoff::BackoffStrategy"; JIT = Ty(R + "backoff::Jitter")
K = {k: Ty(R + "backoff::" + k.capitalize()) for k in ("constant", "exponential", "linear", "polynomial")}
MAX = (2**63 - 1) * 10**6          # TimeDelta::MAX in nanoseconds
MS = 10**6


def nonneg(h, v):
    h.ctx.assume(v.t >= 0); return v


def clamp(t): return z3.If(t > MAX, z3.IntVal(MAX), t)
def least(a, b): return z3.If(a < b, a, b)


def want(h, kind, n, cfg, mx, r, attempt):
    """the delay before jitter: formula over r"""
    ctx = h.ctx
    if kind == "constant": return r == cfg["delay"].t
    if kind == "linear":
        full = clamp(cfg["factor"].t * attempt.t)
        return r == (full if mx is None else least(full, mx.t))
    if kind == "polynomial":
        p = LB.POW(attempt.t, cfg["power"].t)
        f = cfg["factor"].t
        full = clamp(f * p)
        low = clamp(f * z3.If(p > 2**31 - 1, z3.IntVal(2**31 - 1), p))
        if mx is not None: full, low = least(full, mx.t), least(low, mx.t)
        # exact while the power is representable, and never less than at that point
        return z3.And(r >= low, r <= full)
    p = LB.POW(LB.tdiv(cfg["base"].t, z3.IntVal(NS)), attempt.t)
    full = clamp(p * NS)
    if mx is None: return z3.And(z3.Implies(p * NS <= MAX - NS, r == full), z3.Implies(p * NS > MAX - NS, z3.And(r >= MAX - NS, r <= MAX)))
    return z3.And(z3.Implies(p * NS <= mx.t, r == p * NS), z3.Implies(p * NS > mx.t, z3.And(r <= mx.t, r > mx.t - NS)))


def build(h, kind, order):
    """a strategy built through the API with an arbitrary choice of settings"""
    ctx = h.ctx
    T = K[kind]
    if kind == "constant": cfg = {"delay": nonneg(h, h.fresh(TD, "delay"))}
    elif kind == "linear": cfg = {"factor": nonneg(h, h.fresh(TD, "factor"))}
    elif kind == "polynomial": cfg = {"factor": nonneg(h, h.fresh(TD, "factor")), "power": h.fresh(Ty("u32"), "power")}
    else: cfg = {"base": nonneg(h, h.fresh(TD, "base"))}
    S = Ty(BS, (T,))
    def call(name, args):
        fs = [f for f in ctx.prog.methods.get((BS, name), [])]
        own = [f for f in fs if f.impl.self_ty.a and f.impl.self_ty.a[0].n == T.n] or [f for f in fs if f.impl.self_ty.a and f.impl.self_ty.a[0].n == "param"]
        if not own: fail(f"no {name}")
        k, v = h.run(lambda: h.it.call(own[0], args, None, self_ty=S))
        h.prove(f"{name} does not panic", k == "val")
        return v if k == "val" else None
    s = call(kind, list(cfg.values()))
    mx = mn = jt = None
    jit = None
    steps = []
    if kind != "constant" and ctx.choose(2, "max"): mx = nonneg(h, h.fresh(TD, "max")); steps.append(("with_max", mx))
    if ctx.choose(2, "min"): mn = nonneg(h, h.fresh(TD, "min")); steps.append(("with_min", mn))
    j = ctx.choose(3, "jitter")
    if j == 1:
        jt = nonneg(h, h.fresh(TD, "jitter")); jit = h.enum(JIT, "Absolute", jt)
    elif j == 2:
        jt = RealV(ctx.const("ratio", ("real",))); ctx.assume(jt.t >= 0); jit = h.enum(JIT, "Relative", jt)
    if jit is not None: steps.append(("with_jitter", jit))
    if order: steps.reverse()
    for n, a in steps:
        if s is None: return None
        s = call(n, [s, a])
    if s is None: return None
    return s, cfg, mx, mn, j, jt


def run_backoff(h, s, attempt):
    fs = [f for f in h.ctx.prog.methods.get((BS, "backoff"), [])]
    if not fs: fail("no backoff")
    return h.run(lambda: h.it.call(fs[0], [s, attempt], None, self_ty=s.ty))


def check(h, kind, r, cfg, mx, mn, j, jt, attempt):
    ctx = h.ctx
    lo = mn.t if mn is not None else z3.IntVal(0)
    h.prove("the delay is not below the minimum", r.t >= lo)
    h.prove("the delay is not negative", r.t >= 0)
    d = ctx.const("before jitter", ("int", 0, MAX))     # the delay the strategy prescribes
    w = want(h, kind, "", cfg, mx, d, attempt)
    top = lambda a, b: z3.If(a > b, a, b)
    if j == 0:
        ok = [z3.And(want(h, kind, "", cfg, mx, r.t, attempt), r.t >= lo), z3.And(r.t == lo, below(h, kind, cfg, mx, lo, attempt))]
        h.prove("the delay is that of the strategy", z3.Or(ok))
    elif j == 1:
        h.prove("the delay is that of the strategy, moved by at most the absolute jitter",
                z3.Implies(z3.And(w, exact(h, kind, cfg, mx, attempt)), z3.And(r.t <= top(d + jt.t, lo), r.t >= least(d - jt.t, z3.IntVal(MAX)))))
    else:
        if kind in ("linear", "polynomial"):      # the prescribed delay, case by case
            if not ctx.decide(exact(h, kind, cfg, mx, attempt)): return
            p = attempt.t if kind == "linear" else LB.POW(attempt.t, cfg["power"].t)
            d = z3.IntVal(MAX) if ctx.decide(cfg["factor"].t * p > MAX) else cfg["factor"].t * p
            if mx is not None and ctx.decide(d > mx.t): d = mx.t
            w = z3.BoolVal(True)
        share = z3.ToReal(d) * jt.t + MS
        h.prove("the delay is that of the strategy, moved by at most the relative share",
                z3.Implies(z3.And(w, exact(h, kind, cfg, mx, attempt)), z3.And(z3.ToReal(r.t) <= z3.If(z3.ToReal(d) + share > z3.ToReal(lo), z3.ToReal(d) + share, z3.ToReal(lo)),
                                     z3.ToReal(r.t) >= z3.ToReal(d) - share)))


def exact(h, kind, cfg, mx, attempt):
    """the range in which the strategy's delay is determined to the nanosecond"""
    if kind == "polynomial": return LB.POW(attempt.t, cfg["power"].t) <= 2**31 - 1
    if kind == "exponential":
        p = LB.POW(LB.tdiv(cfg["base"].t, z3.IntVal(NS)), attempt.t) * NS
        return p <= (mx.t if mx is not None else z3.IntVal(MAX - NS))
    return z3.BoolVal(True)


def below(h, kind, cfg, mx, lo, attempt):
    """the strategy's delay may lie at or below lo"""
    ctx = h.ctx
    d = ctx.const("some delay", ("int", 0, MAX))
    if kind in ("constant", "linear"):
        v = cfg["delay"].t if kind == "constant" else clamp(cfg["factor"].t * attempt.t)
        if mx is not None: v = least(v, mx.t)
        return v <= lo
    if kind == "polynomial":
        p = LB.POW(attempt.t, cfg["power"].t)
        v = clamp(cfg["factor"].t * z3.If(p > 2**31 - 1, z3.IntVal(2**31 - 1), p))
        if mx is not None: v = least(v, mx.t)
        return v <= lo
    p = LB.POW(LB.tdiv(cfg["base"].t, z3.IntVal(NS)), attempt.t)
    v = clamp(p * NS)
    if mx is None: return z3.If(v > MAX - NS, z3.IntVal(MAX - NS), v) <= lo
    return z3.If(v > mx.t - NS, mx.t - NS, v) <= lo


def strategy(kind, order):
    def run(h):
        ctx = h.ctx
        b = build(h, kind, order)
        if b is None: return
        s, cfg, mx, mn, j, jt = b
        attempt = h.fresh(Ty("u16"), "attempt")
        k, r = run_backoff(h, s, attempt)
        h.prove("computing a delay does not panic", k == "val")
        if k != "val": return
        h.cover(f"jitter {j}")
        check(h, kind, r, cfg, mx, mn, j, jt, attempt)
    return run


def own(h):
    """a user's strategy"""
    ctx = h.ctx
    P = Ty("param", (Ty("T"),)); S = Ty(BS, (P,))
    inner = OpV(ctx.const("strategy", ("id",)), repr(P), P)
    fi = h.fn(ty=Ty(BS), name="new")
    k, s = h.run(lambda: h.it.call(fi, [inner], None, self_ty=S))
    h.prove("wrapping a strategy does not panic", k == "val")
    if k != "val": return
    attempt = h.fresh(Ty("u16"), "attempt")
    k, r = run_backoff(h, s, attempt)
    h.prove("computing a delay does not panic", k == "val")
    if k != "val": return
    c = [e for e in ctx.trace if e[0] == "call"]
    h.prove("the wrapped strategy is asked once, for that attempt", len(c) == 1 and c[0][2] == "backoff" and ctx.must(c[0][3][1].t == attempt.t))
    if len(c) != 1: return
    d = ctx.fresh(TD, c[0][4]).t
    h.prove("and its delay is used, unless negative", r.t == z3.If(d < 0, z3.IntVal(0), d))


def wrapped(h, setter, arg):
    """a user's strategy with one setting: (its delay, the resulting delay)"""
    ctx = h.ctx
    P = Ty("param", (Ty("T"),)); S = Ty(BS, (P,))
    inner = OpV(ctx.const("strategy", ("id",)), repr(P), P)
    k, s = h.run(lambda: h.it.call(h.fn(ty=Ty(BS), name="new"), [inner], None, self_ty=S))
    if k == "val": k, s = h.run(lambda: h.it.call(h.fn(ty=Ty(BS), name=setter), [s, arg], None, self_ty=S))
    h.prove("configuring a strategy does not panic", k == "val")
    if k != "val": return None
    k, r = run_backoff(h, s, h.fresh(Ty("u16"), "attempt"))
    c = [e for e in ctx.trace if e[0] == "call" and e[2] == "backoff"]
    h.prove("computing a delay does not panic", z3.Or(k == "val", ctx.fresh(TD, c[0][4]).t < 0 if c else False))
    h.prove("the wrapped strategy is asked once", len(c) == 1)
    if k != "val" or len(c) != 1: return None
    return ctx.fresh(TD, c[0][4]).t, r.t


def spread(which):
    """the jitter reaches well to both sides of the strategy's delay"""
    def run(h):
        ctx = h.ctx
        d0 = 100 * NS
        if which == "absolute": arg, w = h.enum(JIT, "Absolute", TimeV(10 * NS, "TimeDelta")), 5 * NS
        else: arg, w = h.enum(JIT, "Relative", RealV(z3.RealVal("1/2"))), 25 * NS
        x = wrapped(h, "with_jitter", arg)
        if x is None: return
        d, r = x
        h.reach("the jitter may lengthen the delay", z3.And(d == d0, r >= d0 + w))
        h.reach("the jitter may shorten the delay", z3.And(d == d0, r <= d0 - w))
    return run


def offset(h):
    off = nonneg(h, h.fresh(TD, "offset"))
    x = wrapped(h, "with_offset", off)
    if x is None: return
    d, r = x
    h.prove("the offset is added to the delay", r == z3.If(clamp(d + off.t) < 0, z3.IntVal(0), clamp(d + off.t)))


def default(h):
    ctx = h.ctx
    from .c01 import TJOB
    E = Ty("param", (Ty("E"),))
    job = h.fresh(Ty(TJOB.n, (Ty("assoc", (E, Ty("Data"))), Ty("assoc", (E, Ty("Metadata"))))), "job")
    fi = ctx.prog.traits[R + "executor::Executor"][0]["_fns"].get("backoff")
    h.it.opaque_methods = set(h.it.opaque_methods) - {"backoff"}
    k, r = h.run(lambda: h.it.call(fi, [job], None, self_ty=E))
    h.prove("the default backoff does not panic", k == "val")
    if k != "val": return
    p = LB.POW(z3.IntVal(4), job.f["attempt"].t) * NS
    week = 7 * 86400 * NS
    d = least(p, z3.IntVal(week))
    h.prove("4 seconds to the power of the attempt, at most 7 days, within 10 percent",
            z3.And(10 * r.t <= 11 * d + 10 * MS, 10 * r.t >= 9 * d - 10 * MS, r.t >= 0))


HARNESSES = [(f"{k} ({'settings reversed' if o else 'settings in order'})", strategy(k, o), {}) for k in K for o in (0, 1)] + \
            [("a user's strategy", own, {}), ("absolute jitter", spread("absolute"), {}), ("relative jitter", spread("relative"), {}), ("offset", offset, {}), ("default", default, {})]
ASSUMPTIONS = ["floating point arithmetic is treated as exact arithmetic (up to the millisecond allowed for rounding)",
               "powers are an uninterpreted function of base and exponent with pow(b,0)=1, pow(b,1)=b and monotonicity facts",
               "rand gives a value in the range asked for"]
