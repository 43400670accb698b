"""Path exploration, symbolic memory and abstract sequences."""
import time
import z3
from .program import *
from .values import *

z3.set_param("smt.random_seed", 1)
MEM = z3.Function("mem", z3.IntSort(), z3.IntSort(), z3.BoolSort())


class Panic(Exception):
    def __init__(self, msg): self.msg = msg

class Return(Exception):
    def __init__(self, v): self.v = v

class Break(Exception):
    def __init__(self, label, v): self.label = label; self.v = v

class Continue(Exception):
    def __init__(self, label): self.label = label

class Suspended(Exception):
    "a future stopped at a suspension point"


class Infeasible(Exception):
    """The current path is contradictory."""

class Budget(Unsupported):
    pass


class Outcome:
    __slots__ = ("cond", "kind", "value", "writes", "events")
    def __init__(self, cond, kind, value, writes, events):
        self.cond = cond; self.kind = kind; self.value = value; self.writes = writes; self.events = events


class Frame:
    def __init__(self, prefix):
        self.prefix = list(prefix); self.pos = 0; self.taken = []; self.conds = []; self.alts = []


class Stats:
    def __init__(self):
        self.solver_s = 0.0; self.queries = 0; self.paths = 0; self.obligations = 0; self.discharged = 0
        self.fns = {}; self.assumed = {}; self.bounded = []; self.names = {}


class Ctx:
    def __init__(self, prog, stats, prefix=(), bound=None, timeout_ms=20000, deadline=None):
        self.prog = prog; self.stats = stats; self.bound = bound
        self.solver = z3.Solver(); self.solver.set("timeout", timeout_ms)
        self.timeout_ms = timeout_ms
        self.consts = {}; self.strs = {}; self.leaves = {}; self.counter = 0
        self.frames = [Frame(prefix)]
        self.undo = []; self.trace = []; self.lockheld = {}
        self.nowc = 0; self._now = None
        self.depth = 0; self.gprefix = ""
        self.deadline = deadline
        self.asm = []          # everything asserted on this path (for reporting)
        self.fuel = 200000
        self.notes = {}
        self.calls = set()
        self.gactive = []      # generic elements being iterated over

    # ---------------- solver
    def check(self, *extra):
        if self.deadline and time.time() > self.deadline:
            raise Budget("time budget exhausted")
        t = time.time()
        r = self.solver.check(*extra)
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        return r

    def generalised(self, neg):
        """whether the current facts and neg contradict each other even for arbitrary values in place of every
        product of integers (a stronger claim that is easier to decide)"""
        fs = list(self.solver.assertions()) + [neg]
        prods = {}
        def walk(x, seen):
            if x.get_id() in seen: return
            seen.add(x.get_id())
            if z3.is_quantifier(x): return
            if z3.is_mul(x) and z3.is_int(x) and sum(1 for c in x.children() if not z3.is_int_value(c)) > 1:
                k = [c for c in x.children() if not z3.is_int_value(c)]
                prods.setdefault(x.get_id(), (x, k)); return
            for c in x.children(): walk(c, seen)
        seen = set()
        for f in fs: walk(f, seen)
        if not prods: return False
        names = {}; pairs = []
        for x, k in prods.values():
            key = tuple(sorted(z3.simplify(c).sexpr() for c in k))
            v = names.setdefault(key, z3.FreshConst(z3.IntSort(), "product"))
            n = 1
            for c in x.children():
                if z3.is_int_value(c): n *= c.as_long()
            pairs.append((x, v if n == 1 else n * v))
        s = z3.Solver(); s.set("timeout", 20000)
        for f in fs: s.add(z3.substitute(f, *pairs))
        t = time.time(); r = s.check()
        self.stats.solver_s += time.time() - t; self.stats.queries += 1
        return r == z3.unsat

    def assume(self, c):
        if isinstance(c, bool): c = z3.BoolVal(c)
        self.solver.add(c)
        if len(self.frames) == 1: self.asm.append(c)

    def const(self, name, kind):
        """kind: ('int', lo, hi) | ('bool',) | ('id',) | ('real',)"""
        if name in self.consts:
            return self.consts[name][0]
        if kind[0] == "bool": c = z3.Bool(name)
        elif kind[0] == "real": c = z3.Real(name)
        else: c = z3.Int(name)
        self.consts[name] = (c, kind)
        if kind[0] == "int":
            self._constrain(z3.And(c >= kind[1], c <= kind[2]))
        elif kind[0] == "id":
            self._constrain(c >= 1000000)
        return c

    def _constrain(self, f):
        self.solver.add(f)
        self.base.append(f)

    @property
    def base(self):
        if not hasattr(self, "_base"): self._base = []
        return self._base

    def tick(self):
        self.fuel -= 1
        if self.fuel <= 0: raise Budget("step budget exhausted")

    def fresh_name(self, hint):
        self.counter += 1
        return f"{self.gprefix}{hint}#{self.counter}"

    def lit_str(self, s):
        if s not in self.strs: self.strs[s] = len(self.strs) + 1
        return StrV(z3.IntVal(self.strs[s]), s)

    # ---------------- decisions
    def decide(self, c):
        if isinstance(c, BoolV): c = c.t
        if isinstance(c, bool): return c
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        f = self.frames[-1]
        if f.pos < len(f.prefix):
            ch = f.prefix[f.pos]; f.pos += 1
        else:
            rt = self.check(c)
            rf = self.check(z3.Not(c))
            if rt == z3.unsat and rf == z3.unsat: raise Infeasible()
            if rt == z3.unsat: ch = False
            elif rf == z3.unsat: ch = True
            else:
                ch = True
                f.alts.append(f.taken + [False])
            f.pos += 1
            f.prefix.append(ch)
        f.taken.append(ch)
        cc = c if ch else z3.Not(c)
        f.conds.append(cc)
        self.solver.add(cc)
        if len(self.frames) == 1: self.asm.append(cc)
        return ch

    def decide_variant(self, v):
        """the variant of an enum value, by case distinction"""
        c = v.conc()
        if c is not None: return c
        n = len(self.variants(v.ty))
        for i in range(n - 1):
            if self.decide(v.tag == i): return i
        return n - 1

    def choose(self, n, hint):
        """nondeterministic choice among n alternatives (all considered)"""
        if n == 1: return 0
        k = self.const(self.fresh_name("choice." + hint), ("int", 0, n - 1))
        for i in range(n - 1):
            if self.decide(k == i): return i
        return n - 1

    def possible(self, *c):
        return self.check(*c) != z3.unsat

    def must(self, c):
        c = z3.simplify(c)
        if z3.is_true(c): return True
        return self.check(z3.Not(c)) == z3.unsat

    # ---------------- memory
    def log(self, fn): self.undo.append(fn)

    def setcell(self, cell, v):
        old = cell.v
        self.undo.append(("cell", cell, old))
        cell.v = v

    def rollback(self, mark):
        while len(self.undo) > mark:
            u = self.undo.pop()
            if u[0] == "cell": u[1].v = u[2]
            elif u[0] == "trace": del self.trace[u[1]:]
            elif u[0] == "call": u[1]()

    def emit(self, ev):
        self.undo.append(("trace", len(self.trace)))
        self.trace.append(ev)

    def load(self, ref):
        v = ref.cell.v
        for p in ref.path:
            v = self.step(v, p)
        return v

    def step(self, v, p):
        v = self.deref(v)
        if p[0] == "f":
            if isinstance(v, StructV):
                if p[1] in v.f: return v.f[p[1]]
                fail(f"no field {p[1]} in {v.ty}")
            if isinstance(v, TupleV): return v.e[int(p[1])]
            fail(f"field {p[1]} of {v!r}")
        if p[0] == "var":
            return v.pay(p[1])[p[2]]
        if p[0] == "node":
            for part in self.norm(v).parts:
                if isinstance(part, One) and part.node is p[1]: return part.v
                if isinstance(part, Seg) and part.leaf is p[1]: return part.tmpl
            fail("dangling element reference")
        if p[0] == "lock":
            return v.cell.v
        fail(f"path {p}")

    def deref(self, v):
        n = 0
        while isinstance(v, RefV):
            v = self.load(v); n += 1
            if n > 50: fail("deref loop")
        return v

    def store(self, ref, val):
        # follow references met on the way
        cell, path = self.canon(ref)
        self.setcell(cell, self._upd(cell.v, path, val))

    def canon(self, ref):
        """resolve references stored along the path; returns (cell, path) with no RefV inside"""
        cell, path = ref.cell, []
        v = cell.v
        todo = list(ref.path)
        n = 0
        while True:
            n += 1
            if n > 100: fail("reference loop")
            if isinstance(v, RefV) and todo:
                todo = list(v.path) + todo
                cell, path, v = v.cell, [], v.cell.v
                continue
            if not todo: break
            p = todo.pop(0)
            path.append(p)
            v = self.step(v, p)
        return cell, path

    def _upd(self, v, path, val):
        if not path: return val
        p, rest = path[0], path[1:]
        if p[0] == "f":
            if isinstance(v, StructV):
                return v.with_(p[1], self._upd(v.f[p[1]], rest, val))
            if isinstance(v, TupleV):
                i = int(p[1]); e = list(v.e); e[i] = self._upd(e[i], rest, val)
                return TupleV(e)
            fail("assign to field of " + repr(v))
        if p[0] == "var":
            d = dict(v.pay(p[1])); d[p[2]] = self._upd(d[p[2]], rest, val)
            pay = dict(v._pay); pay[p[1]] = d
            return EnumV(v.ty, v.tag, pay, v.lazy, None)
        if p[0] == "node":
            v = self.norm(v)
            out = []
            for part in v.parts:
                if isinstance(part, One) and part.node is p[1]:
                    part = One(part.node, self._upd(part.v, rest, val))
                elif isinstance(part, Seg) and part.leaf is p[1]:
                    part = Seg(part.leaf, part.guard, self._upd(part.tmpl, rest, val))
                out.append(part)
            return SeqV(out, v.ety, v.order, v.kind)
        fail(f"store path {p}")

    # ---------------- time
    def now(self):
        if self._now is None: self.advance()
        return TimeV(self._now, "DateTime")

    def advance(self):
        n = self.const(f"now{self.nowc}", ("int", 0, 2**63 - 1))
        if self._now is not None: self.assume(n >= self._now)
        if len(self.frames) > 1 and self.nowc: fail("time passes inside an abstracted loop body")
        self.nowc += 1
        self._now = n
        return n

    # ---------------- symbolic values
    def variants(self, ty):
        n = ty.n
        if n == "Option":
            return [("None", []), ("Some", [("0", ty.a[0] if ty.a else UNK)])]
        if n == "Result":
            return [("Ok", [("0", ty.a[0] if ty.a else UNK)]), ("Err", [("0", ty.a[1] if len(ty.a) > 1 else UNK)])]
        if n == "Ordering":
            return [("Less", []), ("Equal", []), ("Greater", [])]
        if n in self.prog.enums:
            it, m = self.prog.enums[n]
            g = [p["id"] for p in it["generics"]["params"]]
            sub = dict(zip(g, ty.a)) if ty.a else {p: Ty("param", (Ty(p),)) for p in g}
            return [(v["id"], [(f[0], self.prog.ty(f[1], m, dict(sub, Self=ty))) for f in v["fields"]["f"]]) for v in it["variants"]]
        return None

    def vidx(self, ty, name):
        vs = self.variants(ty)
        for i, (n, _) in enumerate(vs):
            if n == name: return i
        fail(f"no variant {name} of {ty}")

    def enum(self, ty, name, *vals):
        i = self.vidx(ty, name)
        fs = self.variants(ty)[i][1]
        return EnumV(ty, i, {i: {f[0]: v for f, v in zip(fs, vals)}} if vals else {i: {}})

    def some(self, v, t=UNK): return EnumV(OPT(t), 1, {1: {"0": v}})
    def none(self, t=UNK): return EnumV(OPT(t), 0, {0: {}})
    def ok(self, v, t=UNK, e=UNK): return EnumV(RES(t, e), 0, {0: {"0": v}})
    def err(self, v, t=UNK, e=UNK): return EnumV(RES(t, e), 1, {1: {"0": v}})

    def struct_fields(self, ty):
        it, m = self.prog.structs[ty.n]
        g = [p["id"] for p in it["generics"]["params"]]
        sub = dict(zip(g, ty.a)) if ty.a else {p: Ty("param", (Ty(p),)) for p in g}
        sub = dict(sub, Self=ty)
        return [(f[0], self.prog.ty(f[1], m, sub)) for f in it["fields"]["f"]]

    def is_clike(self, ty):
        vs = self.variants(ty)
        return vs is not None and all(not f for _, f in vs)

    def fresh(self, ty, name):
        self.tick()
        n = ty.n
        if n in INTS:
            lo, hi = INTS[n]
            return IntV(self.const(name, ("int", lo, hi)), n)
        if n == "bool": return BoolV(self.const(name, ("bool",)))
        if n == "f64": return RealV(self.const(name, ("real",)))
        if n == "str": return StrV(self.const(name, ("id",)))
        if n == "DateTime": return TimeV(self.const(name, ("int", DT_MIN, DT_MAX)), n)
        if n == "TimeDelta": return TimeV(self.const(name, ("int", -TD_MAX, TD_MAX)), n)
        if n == "Duration": return TimeV(self.const(name, ("int", 0, DUR_MAX)), n)
        if n == "tuple": return TupleV([self.fresh(t, f"{name}.{i}") for i, t in enumerate(ty.a)])
        if n == "Vec": return self.fresh_seq(ty.a[0], name)
        vs = self.variants(ty)
        if vs is not None:
            tag = self.const(name + ".tag", ("int", 0, len(vs) - 1)) if len(vs) > 1 else 0
            def lazy(i, vs=vs, name=name):
                return {f: self.fresh(t, f"{name}.{vs[i][0]}.{f}") for f, t in vs[i][1]}
            return EnumV(ty, tag, None, lazy, (ty, name))
        if n in self.prog.structs:
            return StructV(ty, {f: self.fresh(t, f"{name}.{f}") for f, t in self.struct_fields(ty)})
        if n == "std::marker::PhantomData": return UNITV
        return OpV(self.const(name, ("id",)), n if n not in ("param", "assoc", "dyn") else repr(ty))

    def fresh_seq(self, ety, name):
        if self.bound is not None:
            lim = self.bound.get("table" if "table" in name else "inner", 2) if isinstance(self.bound, dict) else self.bound
            ln = self.const(name + ".len", ("int", 0, lim))
            n = lim
            for i in range(lim):
                if self.decide(ln == i): n = i; break
            parts = []
            for i in range(n):
                nm = f"{name}[{i}]"
                parts.append(One(self.node(nm), self.fresh(ety, nm)))
            return SeqV(parts, ety)
        leaf = self.leaf(name, ety)
        return SeqV([Seg(leaf, z3.BoolVal(True), self.generic(leaf))], ety)

    def node(self, name):
        if not hasattr(self, "nodes"): self.nodes = {}
        if name not in self.nodes: self.nodes[name] = Node(name)
        return self.nodes[name]

    def newnode(self, hint="n"):
        return Node(self.fresh_name(hint))

    def leaf(self, name, ety):
        if name not in self.leaves:
            l = Leaf(name, ety, self.const(name + ".id", ("id",)))
            self.leaves[name] = l
            self.leaf_facts(l)
        return self.leaves[name]

    def leaf_facts(self, l):
        t = self.prim(self.generic(l))
        if t is not None:
            l.facts.append(MEM(l.memroot, t))

    def generic(self, leaf): return self.fresh(leaf.ety, leaf.g)

    def prim(self, v):
        """term of a primitive value (comparable by equality of one Int term), else None"""
        v = self.deref(v)
        if isinstance(v, (IntV, StrV, OpV, TimeV)): return v.t
        if isinstance(v, EnumV) and self.is_clike(v.ty):
            return z3.IntVal(v.tag) if isinstance(v.tag, int) else v.tag
        if isinstance(v, StructV) and len(v.f) == 1:
            return self.prim(next(iter(v.f.values())))
        return None

    # ---------------- substitution by name prefix
    def subst_term(self, e, old, new):
        m = []
        seen = set()
        def walk(x):
            if x.get_id() in seen: return
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = x.decl().name()
                if n.startswith(old) and (len(n) == len(old) or n[len(old)] in ".![#<@>"):
                    kind = self.consts[n][1] if n in self.consts else (("bool",) if z3.is_bool(x) else ("any",))
                    m.append((x, self.const(new + n[len(old):], kind)))
            for c in x.children(): walk(c)
            if z3.is_quantifier(x): walk(x.body())
        walk(e)
        return z3.substitute(e, *m) if m else e

    def subst(self, v, old, new, onode=None, nnode=None):
        S = lambda x: self.subst(x, old, new, onode, nnode)
        T = lambda t: self.subst_term(t, old, new)
        if isinstance(v, IntV): return IntV(T(v.t), v.ty)
        if isinstance(v, BoolV): return BoolV(T(v.t))
        if isinstance(v, RealV): return RealV(T(v.t))
        if isinstance(v, StrV): return v if v.text is not None else StrV(T(v.t), None)
        if isinstance(v, OpV):
            if v.data is not None: fail("substitution in an opaque value with data")
            return OpV(T(v.t), v.kind)
        if isinstance(v, TimeV): return TimeV(T(v.t), v.kind)
        if isinstance(v, TupleV): return TupleV([S(x) for x in v.e])
        if isinstance(v, StructV): return StructV(v.ty, {k: S(x) for k, x in v.f.items()})
        if isinstance(v, EnumV):
            if v.origin is not None:
                ty, n = v.origin
                if n.startswith(old) and (len(n) == len(old) or n[len(old)] in ".![#<@>"):
                    return self.fresh(ty, new + n[len(old):])
                return v
            tag = v.tag if isinstance(v.tag, int) else T(v.tag)
            lazy = None
            if v.lazy is not None:
                lz = v.lazy
                lazy = lambda i: {k: S(x) for k, x in lz(i).items()}
            return EnumV(v.ty, tag, {i: {k: S(x) for k, x in p.items()} for i, p in v._pay.items()}, lazy)
        if isinstance(v, SeqV):
            parts = []
            for p in v.parts:
                if isinstance(p, One): parts.append(One(p.node, S(p.v)))
                else:
                    if p.leaf.name.startswith(old) and len(p.leaf.name) > len(old) and p.leaf.name[len(old)] in ".![#<@>":
                        nl = self.leaf(new + p.leaf.name[len(old):], p.leaf.ety)
                        t = self.subst(p.tmpl, p.leaf.g, nl.g, p.leaf, nl)
                        t = self.subst(t, old, new, onode, nnode)
                        g = self.subst_term(self.subst_term(p.guard, p.leaf.g, nl.g), old, new)
                        parts.append(Seg(nl, g, t))
                    else:
                        parts.append(Seg(p.leaf, T(p.guard), S(p.tmpl)))
            return SeqV(parts, v.ety, v.order, v.kind)
        if isinstance(v, RefV):
            if onode is not None and any(p[0] == "node" and p[1] is onode for p in v.path):
                return RefV(v.cell, [("node", nnode) if p[0] == "node" and p[1] is onode else p for p in v.path])
            return v
        if isinstance(v, ObjV) and v.kind == "Index" and onode is not None and v.d["node"] is onode: return v.with_(node=nnode)
        return v

    # ---------------- sequences
    def norm(self, s):
        if not any(isinstance(p, Seg) and p.leaf.kids is not None for p in s.parts):
            return s
        if s.order is not None: fail("refining a sorted sequence")
        out = []
        for p in s.parts:
            out.extend(self.expand(p))
        return SeqV(out, s.ety, s.order, s.kind)

    def expand(self, p):
        if isinstance(p, One) or p.leaf.kids is None: return [p]
        out = []
        for k in p.leaf.kids:
            if isinstance(k, Leaf):
                g = self.subst_term(p.guard, p.leaf.g, k.g)
                t = self.subst(p.tmpl, p.leaf.g, k.g, p.leaf, k)
                out.extend(self.expand(Seg(k, g, t)))
            else:
                g = self.subst_term(p.guard, p.leaf.g, k.name)
                if self.decide(g):
                    out.append(One(k, self.subst(p.tmpl, p.leaf.g, k.name, p.leaf, k)))
        return out

    def refine(self, leaf, pred, before=None, after=None):
        """split leaf at an element satisfying pred (formula over leaf.g); before/after: extra facts for
        the elements around, as functions (xname, ename) -> formula"""
        if len(self.frames) > 1: fail("refinement inside an abstracted loop body")
        i = self.counter = self.counter + 1
        a = Leaf(f"{leaf.name}<{i}", leaf.ety, self.const(f"{leaf.name}<{i}.id", ("id",)), pair=leaf.pair, memroot=leaf.memroot)
        b = Leaf(f"{leaf.name}>{i}", leaf.ety, self.const(f"{leaf.name}>{i}.id", ("id",)), pair=leaf.pair, memroot=leaf.memroot)
        x = Node(f"{leaf.name}@{i}")
        xv = self.fresh(leaf.ety, x.name)
        for l, extra in ((a, before), (b, after)):
            self.fresh(leaf.ety, l.g)
            l.facts = [self.subst_term(f, leaf.g, l.g) for f in leaf.facts]
            for pf in leaf.pair:
                l.facts.append(pf(self, x.name, l.g))
            if extra is not None: l.facts.append(extra(x.name, l.g))
        for f in leaf.facts:
            self.assume(self.subst_term(f, leaf.g, x.name))
        self.assume(self.subst_term(pred, leaf.g, x.name))
        fam = leaf.fam
        for l in fam["leaves"]:
            if l is not leaf: l.facts += [pf(self, x.name, l.g) for pf in leaf.pair]
        for n in fam["nodes"]:
            for pf in leaf.pair: self.assume(pf(self, n.name, x.name))
        fam["leaves"] = [l for l in fam["leaves"] if l is not leaf] + [a, b]
        fam["nodes"] = fam["nodes"] + [x]
        a.fam = b.fam = fam
        ln = lambda l: self.const(l.name + ".len", ("int", 0, 2**63 - 1))
        self.assume(ln(leaf) == ln(a) + 1 + ln(b))
        leaf.kids = [a, x, b]
        leaf.refined_at = x
        return x

    def nested(self): return len(self.frames) > 1

    def summarise(self, thunk, facts=(), gname=None, tolerate=True):
        """all paths of thunk from the current state; state is restored afterwards"""
        if gname:
            if gname in self.gactive: fail("nested iteration over the same sequence")
            self.gactive.append(gname)
        try: return self._summarise(thunk, facts, gname)
        finally:
            if gname: self.gactive.pop()

    def _summarise(self, thunk, facts, gname):
        res = []
        work = [[]]
        cnt0 = self.counter
        while work:
            pre = work.pop()
            fr = Frame(pre)
            self.frames.append(fr)
            self.solver.push()
            nb = len(self.base)
            mark = len(self.undo); tmark = len(self.trace)
            saved = self.gprefix
            if gname: self.gprefix = gname + "."
            self.counter = cnt0
            for f in facts: self.solver.add(f)
            kind, val = "val", None
            try:
                try:
                    val = thunk()
                except Return as r: kind, val = "ret", r.v
                except Break as r: kind, val = "brk", r
                except Continue as r: kind, val = "cont", r
                except Panic as r: kind, val = "panic", r
                except Infeasible: kind = None
                if kind is not None:
                    writes = {}
                    for u in self.undo[mark:]:
                        if u[0] == "cell": writes.setdefault(id(u[1]), (u[1], u[2]))
                        elif u[0] == "call": pass
                    w = {k: (c, old, c.v) for k, (c, old) in writes.items()}
                    ev = list(self.trace[tmark:])
                    if self.feasible_now():
                        res.append(Outcome(z3.And(*fr.conds) if fr.conds else z3.BoolVal(True), kind, val, w, ev))
            finally:
                self.rollback(mark)
                self.gprefix = saved
                self.frames.pop()
                self.solver.pop()
                for f in self.base[nb:]: self.solver.add(f)
            work.extend(fr.alts)
            if len(res) > 400: raise Budget("too many paths in an abstracted body")
        return res

    def feasible_now(self):
        return True

    def formula(self, thunk, facts=(), gname=None):
        """the value of a boolean thunk as one formula"""
        outs = self.summarise(thunk, facts, gname)
        alts = []
        for o in outs:
            if o.kind == "panic": fail(f"a predicate may panic: {o.value.msg}")
            if o.kind != "val": fail("control flow leaves a predicate")
            if o.events: fail("a predicate has effects")
            v = self.deref(o.value)
            if not isinstance(v, BoolV): fail("predicate is not a bool")
            alts.append(z3.And(o.cond, v.t))
        return z3.simplify(z3.Or(*alts)) if alts else z3.BoolVal(False)

    def merged(self, outs):
        vals = [(o.cond, o.value) for o in outs]
        return self.merge(vals)

    def merge(self, alts):
        v = alts[-1][1]
        for c, w in reversed(alts[:-1]):
            v = self.ite(c, w, v)
        return v

    def ite(self, c, a, b):
        if a is b: return a
        if isinstance(a, RefV) and isinstance(b, RefV) and a.cell is b.cell and a.path == b.path: return a
        a = self.deref(a) if isinstance(a, RefV) else a
        b = self.deref(b) if isinstance(b, RefV) else b
        if isinstance(a, IntV) and isinstance(b, IntV): return IntV(z3.If(c, a.t, b.t), a.ty or b.ty)
        if isinstance(a, BoolV) and isinstance(b, BoolV): return BoolV(z3.If(c, a.t, b.t))
        if isinstance(a, RealV) and isinstance(b, RealV): return RealV(z3.If(c, a.t, b.t))
        if isinstance(a, StrV) and isinstance(b, StrV):
            return a if a.text is not None and a.text == b.text else StrV(z3.If(c, a.t, b.t))
        if isinstance(a, OpV) and isinstance(b, OpV) and a.kind == b.kind and a.data is None and b.data is None:
            return OpV(z3.If(c, a.t, b.t), a.kind)
        if isinstance(a, TimeV) and isinstance(b, TimeV): return TimeV(z3.If(c, a.t, b.t), a.kind)
        if isinstance(a, TupleV) and isinstance(b, TupleV) and len(a.e) == len(b.e):
            return TupleV([self.ite(c, x, y) for x, y in zip(a.e, b.e)])
        if isinstance(a, StructV) and isinstance(b, StructV) and a.ty.n == b.ty.n:
            return StructV(a.ty, {k: self.ite(c, a.f[k], b.f[k]) for k in a.f})
        if isinstance(a, EnumV) and isinstance(b, EnumV):
            if a.origin is not None and b.origin is not None and a.origin[1] == b.origin[1]: return a
            ta = z3.IntVal(a.tag) if isinstance(a.tag, int) else a.tag
            tb = z3.IntVal(b.tag) if isinstance(b.tag, int) else b.tag
            def lazy(i):
                ca, cb = a.conc(), b.conc()
                if ca is not None and ca != i: return b.pay(i)
                if cb is not None and cb != i: return a.pay(i)
                pa, pb = a.pay(i), b.pay(i)
                if not pa: return pb
                if not pb: return pa
                return {k: self.ite(c, pa[k], pb[k]) for k in pa}
            tag = z3.simplify(z3.If(c, ta, tb))
            ty = a.ty if a.ty.a and not any(x == UNK for x in a.ty.a) else b.ty
            return EnumV(ty, tag.as_long() if z3.is_int_value(tag) else tag, None, lazy)
        if isinstance(a, SeqV) and isinstance(b, SeqV):
            pa, pb = self.norm(a).parts, self.norm(b).parts
            # common prefix; a suffix present in one branch only cannot be expressed
            if len(pa) == len(pb):
                out = []
                for x, y in zip(pa, pb):
                    if isinstance(x, One) and isinstance(y, One): out.append(One(x.node, self.ite(c, x.v, y.v)))
                    elif isinstance(x, Seg) and isinstance(y, Seg) and x.leaf is y.leaf:
                        out.append(Seg(x.leaf, z3.If(c, x.guard, y.guard), self.ite(c, x.tmpl, y.tmpl)))
                    else: fail("merging different sequences")
                return SeqV(out, a.ety, a.order, a.kind)
            fail("merging sequences of different shape")
        fail(f"cannot merge {a!r} and {b!r}")

    def tagt(self, v): return z3.IntVal(v.tag) if isinstance(v.tag, int) else v.tag

    def eq(self, a, b, pos=False, depth=0):
        """structural equality as a formula. pos: used as a proof goal only (generic elements are
        universally quantified)"""
        a, b = self.deref(a), self.deref(b)
        if a is b: return z3.BoolVal(True)
        if depth > 12: fail("equality too deep")
        E = lambda x, y: self.eq(x, y, pos, depth + 1)
        if isinstance(a, BoolV) and isinstance(b, BoolV): return a.t == b.t
        if isinstance(a, (IntV, StrV, TimeV)) and type(a) is type(b): return a.t == b.t
        if isinstance(a, OpV) and isinstance(b, OpV):
            return a.t == b.t
        if isinstance(a, RealV) and isinstance(b, RealV): return a.t == b.t
        if isinstance(a, TupleV) and isinstance(b, TupleV):
            if len(a.e) != len(b.e): return z3.BoolVal(False)
            return z3.And([E(x, y) for x, y in zip(a.e, b.e)] or [z3.BoolVal(True)])
        if isinstance(a, StructV) and isinstance(b, StructV):
            if a.ty.n != b.ty.n: fail(f"comparing {a.ty} with {b.ty}")
            if set(a.f) != set(b.f): fail("different fields")
            return z3.And([E(a.f[k], b.f[k]) for k in a.f] or [z3.BoolVal(True)])
        if isinstance(a, EnumV) and isinstance(b, EnumV):
            if a.ty.n != b.ty.n: fail(f"comparing {a.ty} with {b.ty}")
            if a.origin and b.origin and a.origin[1] == b.origin[1]: return z3.BoolVal(True)
            ca, cb = a.conc(), b.conc()
            if ca is not None and cb is not None:
                if ca != cb: return z3.BoolVal(False)
                pa, pb = a.pay(ca), b.pay(cb)
                return z3.And([E(pa[k], pb[k]) for k in pa] or [z3.BoolVal(True)])
            fs = [self.tagt(a) == self.tagt(b)]
            for i, (n, flds) in enumerate(self.variants(a.ty)):
                if not flds: continue
                if ca is not None and ca != i: continue
                if cb is not None and cb != i: continue
                if a.origin and b.origin and self.recursive(a.ty): fail("comparing recursive symbolic values")
                pa, pb = a.pay(i), b.pay(i)
                fs.append(z3.Implies(self.tagt(a) == i, z3.And([E(pa[k], pb[k]) for k in pa])))
            return z3.And(fs)
        if isinstance(a, SeqV) and isinstance(b, SeqV):
            return self.seq_eq(a, b, pos, depth)
        if type(a) is not type(b): fail(f"comparing {a!r} with {b!r}")
        fail(f"comparing {a!r}")

    def recursive(self, ty):
        def go(t, seen):
            if t.n == ty.n and seen: return True
            if t.n in seen: return False
            vs = self.variants(t)
            s2 = seen | {t.n}
            if vs and t.n not in ("Option", "Result"):
                return any(go(ft, s2) for _, fl in vs for _, ft in fl)
            return any(go(x, s2) for x in t.a)
        vs = self.variants(ty)
        return any(go(ft, {"#"}) for _, fl in (vs or []) for _, ft in fl)

    def seq_eq(self, a, b, pos, depth):
        a, b = self.norm(a), self.norm(b)
        if a.order is not None or b.order is not None: fail("comparing sorted sequences")
        pa = [p for p in a.parts if not (isinstance(p, Seg) and self.seg_empty(p))]
        pb = [p for p in b.parts if not (isinstance(p, Seg) and self.seg_empty(p))]
        if len(pa) != len(pb):
            if all(isinstance(p, One) for p in pa + pb): return z3.BoolVal(False)
            if pos: return z3.BoolVal(False)
            fail("comparing sequences of different shape")
        fs = []
        for x, y in zip(pa, pb):
            if isinstance(x, One) and isinstance(y, One): fs.append(self.eq(x.v, y.v, pos, depth + 1))
            elif isinstance(x, Seg) and isinstance(y, Seg):
                if x.leaf is y.leaf:
                    if z3.is_true(z3.simplify(x.guard)) and z3.is_true(z3.simplify(y.guard)) and x.tmpl is y.tmpl: continue
                    if not pos:
                        if self.same_seg(x, y): continue
                        fail("comparing mapped sequences")
                    f = z3.And(x.guard == y.guard, z3.Implies(x.guard, self.eq(x.tmpl, y.tmpl, pos, depth + 1)))
                    fs.append(z3.Implies(z3.And(x.leaf.facts) if x.leaf.facts else z3.BoolVal(True), f))
                elif self.plain(x) and self.plain(y):
                    fs.append(x.leaf.ident == y.leaf.ident)
                elif pos: return z3.BoolVal(False)
                else: fail("comparing unrelated sequences")
            elif pos: return z3.BoolVal(False)
            else: fail("comparing sequences of different shape")
        return z3.And(fs) if fs else z3.BoolVal(True)

    def same_seg(self, x, y):
        try:
            f = z3.And(x.guard == y.guard, z3.Implies(x.guard, self.eq(x.tmpl, y.tmpl)))
        except Unsupported:
            return False
        return self.must(z3.Implies(z3.And(x.leaf.facts), f) if x.leaf.facts else f)

    def plain(self, s):
        return z3.is_true(z3.simplify(s.guard)) and self.ident_tmpl(s)

    def ident_tmpl(self, s):
        try:
            return z3.is_true(z3.simplify(self.eq(s.tmpl, self.generic(s.leaf))))
        except Unsupported:
            return isinstance(s.tmpl, EnumV) and s.tmpl.origin is not None and s.tmpl.origin[1] == s.leaf.g

    def seg_empty(self, s):
        g = z3.simplify(s.guard)
        if z3.is_false(g): return True
        if z3.is_true(g) and not s.leaf.facts: return False
        return self.check(*(s.leaf.facts + [s.guard])) == z3.unsat

    def seg_formula(self, seg, fn):
        """formula of the predicate fn (value -> value) on the generic element"""
        return self.formula(lambda: fn(seg.tmpl), list(seg.leaf.facts) + [seg.guard], seg.leaf.g)

    def mem_formula(self, seg, p):
        """exists element of seg with p, as a closed formula if the element type allows, else None"""
        if not z3.is_true(z3.simplify(seg.guard)): p = z3.And(seg.guard, p)
        gen = self.generic(seg.leaf)
        gt = self.prim(gen)
        if gt is None or not seg.leaf.memroot.eq(seg.leaf.ident): return None
        p = z3.simplify(p)
        if z3.is_false(p): return z3.BoolVal(False)
        if z3.is_eq(p):
            l, r = p.children()
            if l.eq(gt) and not self.mentions(r, seg.leaf.g): return MEM(seg.leaf.memroot, r)
            if r.eq(gt) and not self.mentions(l, seg.leaf.g): return MEM(seg.leaf.memroot, l)
        if isinstance(gen, EnumV):
            n = len(self.variants(gen.ty))
            return z3.Or([z3.And(MEM(seg.leaf.memroot, z3.IntVal(i)), z3.substitute(p, (gt, z3.IntVal(i)))) for i in range(n)])
        return None

    def mentions(self, e, prefix):
        seen = set()
        def walk(x):
            if x.get_id() in seen: return False
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith(prefix): return True
            return any(walk(c) for c in x.children())
        return walk(e)

    def exists(self, seq, fn):
        """BoolV: some element satisfies fn"""
        seq = self.norm(seq)
        fs = []
        for p in seq.parts:
            if isinstance(p, One):
                if self.nested(): fs.append(self.formula(lambda: fn(p.v)))
                else:
                    b = self.deref(fn(p.v))
                    if self.decide(b): return BoolV(True)
            else:
                if self.nested() and self.mem_formula(p, self.prim(p.tmpl) == 0 if self.prim(p.tmpl) is not None else z3.BoolVal(False)) is None \
                        or p.leaf.g in self.gactive:
                    fs.append(self.ex_inner(p, fn)); continue
                q = self.seg_formula(p, fn)
                m = self.mem_formula(p, q)
                if m is None and self.nested():      # one quantifier over the members of a sequence of primitive elements
                    gt = self.prim(self.generic(p.leaf))
                    if gt is not None and p.leaf.memroot.eq(p.leaf.ident) and z3.is_const(gt):
                        y = z3.FreshConst(z3.IntSort(), "member")
                        b = z3.substitute(z3.And(*(p.leaf.facts + [p.guard, q])), (gt, y))
                        if not self.mentions(b, p.leaf.g): m = z3.Exists([y], z3.And(MEM(p.leaf.memroot, y), b))
                if m is not None: fs.append(m); continue
                qq = z3.And(*(p.leaf.facts + [p.guard, q]))
                if not self.possible(qq): continue
                e = self.const(self.fresh_name("exists." + p.leaf.name), ("bool",))
                if self.decide(e):
                    self.refine_first(p, q)
                    return BoolV(True)
                p.leaf.facts.append(z3.Not(z3.And(p.guard, q)))
        return BoolV(z3.simplify(z3.Or(fs)) if fs else False)

    def ex_inner(self, p, fn):
        """some element of p satisfies fn, inside the body of an iteration: decided when the element can
        only be the one being iterated over (elements are told apart by the pair facts)"""
        leaf = p.leaf
        g2 = f"{leaf.g}~{len(self.gactive)}"
        self.fresh(leaf.ety, g2)
        tm = self.subst(self.deref(p.tmpl), leaf.g, g2)
        gd = self.subst_term(p.guard, leaf.g, g2)
        facts = [self.subst_term(f, leaf.g, g2) for f in leaf.facts]
        q = self.formula(lambda: fn(tm), facts + [gd], g2)
        full = z3.And(*(facts + [gd, q]))
        if not self.possible(full): return z3.BoolVal(False)
        for g in reversed(self.gactive):
            if not any(l.g == g for l in leaf.fam["leaves"]): continue
            if self.possible(full, *[pf(self, g2, g) for pf in leaf.pair]): continue
            if g != leaf.g: return z3.BoolVal(False)      # it would have to be an element of another run
            return z3.simplify(self.subst_term(z3.And(gd, q), g2, g))
        fail("nested quantification over structured elements")

    def refine_first(self, seg, q):
        full = z3.And(seg.guard, q)
        return self.refine(seg.leaf, full, before=lambda x, e: z3.Not(self.subst_term(full, seg.leaf.g, e)))

    def find_first(self, seq, fn):
        """(True, part index, node) of the first element satisfying fn on the refined sequence, or None.
        Returns (node, value) or None; the sequence must be re-normalised by the caller."""
        if seq.order is not None: fail("find in a sorted sequence")
        seq = self.norm(seq)
        for p in seq.parts:
            if isinstance(p, One):
                if self.decide(self.deref(fn(p.v))): return p.node, p.v
            else:
                if self.nested(): fail("search inside an abstracted loop body")
                q = self.seg_formula(p, fn)
                if not self.possible(*(p.leaf.facts + [p.guard, q])): continue
                e = self.const(self.fresh_name("found." + p.leaf.name), ("bool",))
                if self.decide(e):
                    x = self.refine_first(p, q)
                    return x, self.subst(p.tmpl, p.leaf.g, x.name, p.leaf, x)
                p.leaf.facts.append(z3.Not(z3.And(p.guard, q)))
        return None

    def select(self, seq, less, first=True):
        """the first (or last) minimal element by `less(a, b) -> formula`; returns (node, value) or None"""
        seq = self.norm(seq)
        best = None; bi = None
        segs = [p for p in seq.parts if isinstance(p, Seg)]
        if not segs:
            for p in seq.parts:
                if best is None: best = p
                else:
                    c = less(p.v, best.v) if first else z3.Not(less(best.v, p.v))
                    if self.decide(c): best = p
            return None if best is None else (best.node, best.v)
        if self.nested(): fail("selection inside an abstracted loop body")
        parts = [p for p in seq.parts if isinstance(p, One) or self.possible(*(p.leaf.facts + [p.guard]))]
        if not parts: return None
        ones = [p for p in parts if isinstance(p, One)]
        if not ones:
            e = self.const(self.fresh_name("nonempty"), ("bool",))
            if not self.decide(e):
                for p in parts: p.leaf.facts.append(z3.Not(p.guard))
                return None
        k = self.choose(len(parts), "minimum")
        w = parts[k]
        tv = {id(p): self.deref(p.tmpl) for p in parts if isinstance(p, Seg)}
        tm = lambda p, n: self.subst(tv[id(p)], p.leaf.g, n)
        if isinstance(w, One): xn, xv, node = None, self.deref(w.v), w.node
        def worse(xv, ev, strict): return less(xv, ev) if strict else z3.Not(less(ev, xv))
        if isinstance(w, Seg):
            def around(strict):
                def f(x, en):
                    g = self.subst_term(w.guard, w.leaf.g, en)
                    return z3.Implies(g, worse(tm(w, x), tm(w, en), strict))
                return f
            node = self.refine(w.leaf, w.guard, before=around(first), after=around(not first))
            xv = tm(w, node.name)
        for i, p in enumerate(parts):
            if p is w: continue
            strict = first if i < k else not first
            if isinstance(p, One): self.assume(worse(xv, self.deref(p.v), strict))
            else:
                f = worse(xv, tv[id(p)], strict)
                p.leaf.facts.append(z3.Implies(p.guard, f))
        if self.check() == z3.unsat: raise Infeasible()
        if isinstance(w, One): return w.node, w.v
        return node, self.subst(w.tmpl, w.leaf.g, node.name, w.leaf, node)

    def _tm(self, p, name):
        t = p.tmpl
        if isinstance(t, RefV):
            t = self.load(t) if p.leaf.kids is None else t
        v = self.subst(self.deref(t) if not isinstance(t, RefV) else t, p.leaf.g, name)
        return v


def explore(prog, harness, stats, bound=None, max_paths=3000, timeout_ms=20000, deadline=None):
    """Runs harness(ctx) on every feasible path. harness yields obligations through ctx. Returns the
    list of per-path results."""
    work = [[]]
    out = []
    while work:
        pre = work.pop()
        ctx = Ctx(prog, stats, pre, bound, timeout_ms, deadline)
        try:
            r = harness(ctx)
            out.append((ctx, r))
            stats.paths += 1
        except Infeasible:
            pass
        work.extend(ctx.frames[0].alts)
        if len(out) > max_paths: raise Budget("too many paths")
    return out
