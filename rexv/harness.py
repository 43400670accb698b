"""Harness framework: obligations, their discharge, and shared state builders."""
import time, traceback
import z3
from .program import *
from .values import *
from .ctx import *
from .interp import Interp, IterEnd, Cut
from . import lib as L

R = "rexecutor::"
JOB = Ty(R + "backend::Job"); STATUS = Ty(R + "job::JobStatus"); EXECERR = Ty(R + "backend::ExecutionError")
ENQ = Ty(R + "backend::EnqueuableJob"); JOBID = Ty(R + "job::JobId"); BERR = Ty(R + "backend::BackendError")
MEMB = Ty(R + "backend::memory::InMemoryBackend"); QUERY = Ty(R + "backend::Query"); JOBERR = Ty(R + "job::JobError")
PSPEC = Ty(R + "pruner::PruneSpec"); PBY = Ty(R + "pruner::PruneBy"); SPEC = Ty(R + "pruner::Spec")
UC = Ty(R + "job::uniqueness_criteria::UniquenessCriteria"); RESOL = Ty(R + "job::uniqueness_criteria::Resolution")
REPL = Ty(R + "job::uniqueness_criteria::Replace"); ETYPE = Ty(R + "job::ErrorType")


class Result:
    """Outcome of the obligations of one property."""
    def __init__(self):
        self.obl = {}            # name -> dict(status, paths, detail)
        self.unsupported = []    # (harness, message)
        self.reached = {}        # harness -> number of completed paths
        self.covers = {}
        self.reaches = {}        # obligations of the form "some behaviour is possible": name -> sat | unsat | unknown
        self.bounded = []
        self.samples = []

    def note(self, name, status, detail=None):
        o = self.obl.setdefault(name, {"status": "proved", "n": 0, "detail": None, "bounded": False})
        o["n"] += 1
        rank = {"proved": 0, "unknown": 1, "failed": 2}
        if rank[status] > rank[o["status"]]:
            o["status"] = status; o["detail"] = detail


class H:
    """One path of one harness."""
    def __init__(self, name, ctx, res, contracts=None):
        self.name = name; self.ctx = ctx; self.res = res
        self.it = Interp(ctx, contracts)
        self.lib = self.it.lib
        self.bounded = ctx.bound is not None

    # ---- obligations
    def prove(self, what, goal, ghost=None):
        ctx = self.ctx
        name = f"{self.name}: {what}"
        ctx.stats.obligations += 1
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        g = z3.simplify(goal)
        if z3.is_true(g):
            ctx.stats.discharged += 1
            self.res.note(name, "proved"); self.mark(name); return True
        o = self.res.obl.get(name)
        if o is not None and o["status"] == "failed":      # already refuted on another path
            o["n"] += 1; return False
        r = ctx.check(z3.Not(goal))
        if r == z3.unknown and ctx.generalised(z3.Not(goal)): r = z3.unsat
        if r == z3.unsat:
            ctx.stats.discharged += 1
            self.res.note(name, "proved"); self.mark(name); return True
        if r == z3.sat:
            m = ctx.solver.model()
            vals = {}
            for n, (c, k) in list(ctx.consts.items()):
                x = m.eval(c)
                if z3.is_int_value(x) or z3.is_true(x) or z3.is_false(x) or z3.is_rational_value(x): vals[n] = str(x)
            strs = {v: k for k, v in ctx.strs.items()}
            self.res.note(name, "failed", {"goal": str(g)[:1500], "model": dict(sorted(vals.items())[:200]),
                                           "path": [str(z3.simplify(c))[:300] for c in ctx.asm][-40:],
                                           "strings": {str(k): v for k, v in strs.items()},
                                           "ghost": ghost})
            self.mark(name)
            return False
        self.res.note(name, "unknown", {"goal": str(g)[:500], "reason": ctx.solver.reason_unknown()})
        self.mark(name)
        return False

    def mark(self, name):
        if self.bounded: self.res.obl[name]["bounded"] = True

    def eq(self, what, got, want):
        try:
            f = self.ctx.eq(got, want, pos=True)
        except Unsupported as e:
            if "comparing" in str(e): raise
            raise
        return self.prove(what, f)

    def cover(self, what, c=True):
        """the case is reachable on some path"""
        name = f"{self.name}: {what}"
        if isinstance(c, bool): c = z3.BoolVal(c)
        if self.res.covers.get(name): return
        self.res.covers[name] = self.ctx.check(c) == z3.sat

    def reach(self, what, c):
        """obligation: some path allows this outcome (a behaviour that must stay possible)"""
        name = f"{self.name}: {what}"
        if self.res.reaches.get(name) == "sat": return
        if isinstance(c, bool): c = z3.BoolVal(c)
        r = str(self.ctx.check(c))
        if self.res.reaches.get(name) != "unknown" or r == "sat": self.res.reaches[name] = r

    # ---- running
    def run(self, thunk):
        """-> (kind, value): 'val' | 'panic' | 'iter' (one loop iteration completed)"""
        ctx = self.ctx
        try:
            v = thunk()
            if isinstance(v, FutV): v = v.run(None)
            v = ctx.deref(v)
            if isinstance(v, ObjV) and v.kind == "deferred": v = ctx.deref(self.it.force(v))
            r = ("val", self.cases(v))
        except Panic as p: r = ("panic", p.msg)
        except IterEnd: r = ("iter", None)
        return r

    def cases(self, v):
        """a Result, and an error in it, case by case"""
        ctx = self.ctx
        if not isinstance(v, EnumV) or v.ty.n != "Result" or ctx.nested(): return v
        i = v.conc()
        if i is None: i = 0 if ctx.decide(ctx.tagt(v) == 0) else 1
        pay = v.pay(i)
        if i == 1 and isinstance(e := ctx.deref(pay.get("0")), EnumV) and e.conc() is None and not e.origin and not ctx.is_clike(e.ty):
            k = next((k for k in range(len(ctx.variants(e.ty)) - 1) if ctx.decide(ctx.tagt(e) == k)), len(ctx.variants(e.ty)) - 1)
            pay = dict(pay, **{"0": EnumV(e.ty, k, {k: e.pay(k)})})
        elif v.conc() is not None: return v
        return EnumV(v.ty, i, {i: pay})

    def fn(self, qual=None, ty=None, name=None, trait=None):
        p = self.ctx.prog
        if qual is not None:
            if qual in p.fns: return p.fns[qual]
            fail(f"function {qual} not found")
        fs = p.methods.get((ty.n, name), [])
        if trait is not None: fs = [f for f in fs if f.trait and f.trait.split("::")[-1] == trait]
        if not fs: fail(f"method {ty.n}::{name} not found")
        return fs[0]

    def callm(self, ty, name, args, trait=None, self_ty=None):
        fi = self.fn(ty=ty, name=name, trait=trait)
        return self.run(lambda: self.it.call(fi, args, None, self_ty=self_ty))

    def struct(self, ty, **f):
        order = [n for n, _ in self.ctx.struct_fields(ty)]
        if set(order) != set(f): fail(f"fields of {ty}: {order}")
        return StructV(ty, {k: f[k] for k in order})

    def fresh(self, ty, name): return self.ctx.fresh(ty, name)
    def enum(self, ty, name, *v): return self.ctx.enum(ty, name, *v)
    def isv(self, v, name):
        v = self.ctx.deref(v)
        return self.ctx.tagt(v) == self.ctx.vidx(v.ty, name)


def run_harness(prog, stats, res, name, fn, contracts=None, bound=None, deadline=None, timeout_ms=20000, max_paths=4000, setup=None):
    """Explores all paths of harness fn(h). Unsupported constructs are reported, never alarmed."""
    n = [0]
    mk = contracts if callable(contracts) else (lambda: dict(contracts or {}))
    def one(ctx):
        h = H(name, ctx, res, mk())
        if setup: setup(h)
        fn(h)
        n[0] += 1
    try:
        explore(prog, one, stats, bound, max_paths, timeout_ms, deadline)
        if n[0] == 0: res.unsupported.append((name, "no path reached the obligations (vacuous)"))
    except Unsupported as e:
        res.unsupported.append((name, str(e)))
        return False
    except RecursionError as e:
        res.unsupported.append((name, "recursion"))
        return False
    except z3.Z3Exception as e:
        if __import__("os").environ.get("TB"): __import__("traceback").print_exc()
        res.unsupported.append((name, "z3: " + str(e)[:200]))
        return False
    res.reached[name] = res.reached.get(name, 0) + n[0]
    for k, r in res.reaches.items():            # decided only once every path has been explored
        if bound is not None: continue
        stats.obligations += 1
        if r == "sat": stats.discharged += 1; res.note(k, "proved")
        elif r == "unsat": res.note(k, "failed", {"goal": "no path allows this outcome"})
        else: res.note(k, "unknown", {"reason": "solver gave no answer"})
    if bound is not None: res.bounded.append((name, bound))
    return True


# ------------------------------------------------------------------ the in-memory backend
class Mem:
    """A symbolic in-memory backend with an arbitrary table satisfying the representation invariant:
    ids pairwise distinct and below the id counter."""
    def __init__(self, h, table=None):
        self.h = h; ctx = h.ctx; self.ctx = ctx
        self.fields = dict(ctx.struct_fields(MEMB))
        self.f = {}
        self.jobs = self.counter = self.subs = self.paused = None
        for k, t in self.fields.items():
            if t.n.endswith("RwLock") or t.n.endswith("Mutex"):
                inner = t.a[0]
                if inner.n == "Vec":
                    self.ety = inner.a[0]
                    self.jobs = LockV(Cell(None, inner, "table"), k, t.n); self.f[k] = self.jobs
                elif inner.n == "std::collections::HashMap":
                    self.subs = LockV(Cell(MapV("subs", inner.a[1]), inner, "subs"), k, t.n); self.f[k] = self.subs
                else: fail(f"backend field {k}")
            elif "AtomicI" in t.n:
                self.counter = AtomicV(Cell(IntV(ctx.const("counter", ("int", 0, 2**31 - 1)), "i32"), None, k), k); self.f[k] = self.counter
            elif "AtomicBool" in t.n:
                self.paused = AtomicV(Cell(BoolV(ctx.const("paused", ("bool",))), None, k), k); self.f[k] = self.paused
            else: fail(f"backend field {k}: {t}")
        for x in ("jobs", "counter", "subs", "paused"):
            if getattr(self, x) is None: fail(f"in-memory backend without {x}")
        self.table0 = self.fresh_table("table")
        self.jobs.cell.v = self.table0
        ctx.notes["watch"] = self.jobs
        self.v = StructV(MEMB, self.f)
        if getattr(h, "concurrent", False): self.interference()

    def interference(self):
        """other threads run between the atomic steps of the operation: whenever the table lock is taken the
        table is an arbitrary one satisfying the invariant; the id counter may have advanced at every access"""
        ctx = self.ctx; h = self.h
        fetched = []; n = [0]
        def advance():
            n[0] += 1
            c = ctx.const(f"counter{n[0]}", ("int", 0, 2**31 - 2))
            ctx.assume(c >= self.counter.cell.v.t)
            ctx.setcell(self.counter.cell, IntV(c, "i32"))
            return c
        def on_acquire(lock, mode):
            if lock is not self.jobs: return
            if ctx.nested(): fail("lock taken inside an abstracted loop")
            c = advance()
            self.table0 = self.fresh_table(f"table{n[0]}", [lambda i, f=f: i != f for f in fetched], c)
            ctx.setcell(lock.cell, self.table0)
        def atomic(it, a, name, args):
            if a is not self.counter: return None
            if ctx.nested(): fail("counter used inside an abstracted loop")
            c = advance()
            if name == "load": return IntV(c, "i32")
            if name == "fetch_add":
                fetched.append(c)
                h.prove("the id counter moves forward", args[0].t > 0)
                ctx.setcell(a.cell, IntV(c + args[0].t, "i32"))
                return IntV(c, "i32")
            if name == "store":
                h.prove("the id counter never falls behind ids given out meanwhile", args[0].t >= c)
                ctx.setcell(a.cell, args[0]); return UNITV
            fail(f"atomic {name}")
        h.lib.on_acquire = on_acquire
        ctx.notes["atomic"] = atomic

    def fresh_table(self, name, extra=(), idc=None):
        ctx = self.ctx
        t = ctx.fresh_seq(self.ety, name)
        if idc is None: idc = ctx.const("counter", ("int", 0, 2**31 - 1))
        if ctx.bound is None:
            leaf = t.parts[0].leaf
            gid = self.id(ctx.generic(leaf)).t
            leaf.facts.append(gid < idc); leaf.facts.append(gid >= 0)
            leaf.facts += [f(gid) for f in extra] + self.wf(ctx.generic(leaf))
            def distinct(c, x, e):
                return self.id(c.fresh(self.ety, x)).t != self.id(c.fresh(self.ety, e)).t
            leaf.pair.append(distinct)
        else:
            ids = [self.id(p.v).t for p in t.parts]
            for i in ids:
                ctx.assume(z3.And(i >= 0, i < idc))
                for f in extra: ctx.assume(f(i))
            for p in t.parts:
                for f in self.wf(p.v): ctx.assume(f)
            if len(ids) > 1: ctx.assume(z3.Distinct(*ids))
        return t

    def wf(self, v):
        """representation invariant of one entry: counters in the range the public API can give them"""
        j = self.job(v).f
        return [z3.And(j[k].t >= 0, j[k].t <= 65535) for k in ("attempt", "max_attempts", "priority")]

    # ---- representation accessors
    def job(self, v):
        v = self.ctx.deref(v)
        if v.ty.n == JOB.n: return v
        for k, x in v.f.items():
            if isinstance(x, StructV) and x.ty.n == JOB.n: return x
        fail("stored entry holds no job")
    def key(self, v):
        v = self.ctx.deref(v)
        for k, x in v.f.items():
            if isinstance(x, EnumV) and x.ty.n == "Option": return x
        fail("stored entry holds no key")
    def id(self, v): return self.job(v).f["id"]
    def entry(self, job, key):
        """stored entry from job and key"""
        t = self.ety
        fs = self.ctx.struct_fields(t)
        return StructV(t, {k: (job if ft.n == JOB.n else key) for k, ft in fs})
    def upd(self, v, **ch):
        """entry with changed job fields"""
        j = self.job(v)
        f = dict(j.f); f.update(ch)
        return self.entry(StructV(j.ty, f), self.key(v))

    @property
    def table(self): return self.ctx.norm(self.jobs.cell.v)

    def update(self, table, idt, fn):
        """spec: the table with fn applied to the entry with that id; and that entry before (or None)"""
        ctx = self.ctx
        hit = self.find(table, lambda v: self.id(v).t == idt)
        if hit is None: return ctx.norm(table), None
        node, v = hit
        t = ctx.norm(table)
        return SeqV([One(p.node, fn(p.v)) if isinstance(p, One) and p.node is node else p for p in t.parts], t.ety), v

    def find(self, table, pred):
        """spec: first entry satisfying the formula, by case distinction"""
        return self.ctx.find_first(self.ctx.norm(table), lambda v: BoolV(pred(self.ctx.deref(v))))

    def forall(self, table, fn, skip=None):
        """spec: fn holds for every entry (other than node skip), as a formula"""
        ctx = self.ctx
        fs = []
        for p in ctx.norm(table).parts:
            if isinstance(p, One):
                if p.node is not skip: fs.append(fn(ctx.deref(p.v)))
            else:
                fs.append(z3.Implies(z3.And(*(p.leaf.facts + [p.guard])), fn(ctx.deref(p.tmpl))))
        return z3.And(fs) if fs else z3.BoolVal(True)


def executor_default(h, name):
    """the value an executor has for a constant it does not set itself"""
    q = R + "executor::Executor"
    d, m = h.ctx.prog.traits[q]
    c = d["_consts"].get(name)
    h.prove(f"{name} need not be set", c is not None and c["e"] is not None)
    if c is None or c["e"] is None: return None
    E = Ty("param", (Ty("E"),))
    return h.ctx.deref(h.it.const_item(f"{q}::{name}", c, m, {"Self": E}))


def status_in(h, v, *names):
    return z3.Or([h.isv(v, n) for n in names])


def opt_cases(ctx, v):
    """python view of an Option: None or the payload (forks)"""
    v = ctx.deref(v)
    if ctx.decide(ctx.tagt(v) == 1): return ctx.deref(v.pay(1)["0"])
    return None
