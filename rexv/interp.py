"""Symbolic semantics of the Rust subset: evaluates the parsed bodies of /repo's functions."""
import z3
from .program import *
from .values import *
from .ctx import *

BINT = {"+", "-", "*", "/", "%"}
CMP = {"==", "!=", "<", "<=", ">", ">="}


OBJTY = {"JoinError": "tokio::task::JoinError", "Elapsed": "tokio::time::error::Elapsed"}


class IterEnd(Exception):
    """One iteration of a non-terminating loop ended normally."""

class Cut(Exception):
    """The rest of the path is irrelevant to the harness."""
    def __init__(self, why): self.why = why


class Env:
    __slots__ = ("vars", "up", "fr", "guards")
    def __init__(self, up, fr): self.vars = {}; self.up = up; self.fr = fr; self.guards = []
    def get(self, n):
        e = self
        while e is not None:
            if n in e.vars: return e.vars[n]
            e = e.up
        return None


class Fr:
    """function frame: module, type environment, return type"""
    __slots__ = ("mod", "ty", "ret", "fi", "yield_to")
    def __init__(self, mod, ty, ret, fi): self.mod = mod; self.ty = ty; self.ret = ret; self.fi = fi; self.yield_to = None


def deferred(v): return isinstance(v, ObjV) and v.kind == "deferred"


class Interp:
    def __init__(self, ctx, contracts=None):
        self.ctx = ctx; self.prog = ctx.prog; self.contracts = contracts or {}
        self.active = []; self.fistack = []
        self.statics = {}
        self.tmpguards = []
        self.hook = None      # fn(interp, fi, args, hint): induction hypotheses on the parts of a structure
        self.opaque_methods = {"backoff", "timeout", "execute"}
        from . import lib
        self.lib = lib.Lib(self)

    # ------------------------------------------------------------ types
    def tyof(self, v):
        v = self.ctx.deref(v)
        if isinstance(v, IntV): return Ty(v.ty) if v.ty else Ty("int?")
        if isinstance(v, RealV): return F64
        if isinstance(v, BoolV): return BOOL
        if isinstance(v, StrV): return STR
        if isinstance(v, TimeV): return Ty(v.kind)
        if isinstance(v, (StructV, EnumV)): return v.ty
        if isinstance(v, TupleV): return Ty("tuple", [self.tyof(x) for x in v.e])
        if isinstance(v, SeqV): return VEC(v.ety if v.ety is not None else UNK)
        if isinstance(v, OpV):
            return v.data if isinstance(v.data, Ty) else OPTY.get(v.kind) or parse_kind(v.kind)
        if isinstance(v, ObjV): return Ty(OBJTY.get(v.kind, v.kind))
        return UNK

    def unify(self, pat, t, b):
        """match a type pattern with parameters against t; b collects bindings"""
        if pat is None or t is None: return True
        if pat.n == "param":
            k = pat.a[0].n
            if t == UNK: return True
            if k in b and b[k] != UNK and b[k].n != "param": return self.unify(b[k], t, {}) or b[k] == t
            b[k] = t
            return True
        if pat == UNK or t == UNK or pat.n == "int?" or t.n == "int?":
            if t.n == "int?" and pat.n not in INTS and pat != UNK: return False
            return True
        if t.n == "param" and t.a: return pat.n not in INTS and pat.n not in ("str", "bool", "DateTime", "TimeDelta") if pat.n != t.n else True
        if pat.n == "impl": return True
        if pat.n == "dyn" and t.n == "dyn": return pat.a == t.a
        if pat.n == "assoc" and t.n == "assoc": return True
        if pat.n == "assoc" or t.n == "assoc": return pat.n == t.n or pat.n == "assoc"
        if pat.n != t.n: return False
        for x, y in zip(pat.a, t.a):
            if not self.unify(x, y, b): return False
        return True

    def match_ty(self, pat, t):
        """strict structural match used to select an impl"""
        return self.unify(pat, t, {})

    def subst_ty(self, t, b):
        if t.n == "param" and t.a[0].n in b: return b[t.a[0].n]
        if t.n == "assoc":
            q = self.subst_ty(t.a[0], b)
            return self.prog.assoc(q, t.a[1].n)
        return Ty(t.n, [self.subst_ty(x, b) for x in t.a]) if t.a else t

    def ty(self, node, fr): return self.prog.ty(node, fr.mod, fr.ty)

    def coerce(self, v, ty):
        """resolve deferred conversions and untyped literals against an expected type"""
        if ty is None or ty == UNK or ty.n in ("param", "impl"): return v
        if deferred(v): return v.d["to"](ty)
        if isinstance(v, IntV) and v.ty is None and ty.n in INTS:
            lo, hi = INTS[ty.n]
            return IntV(v.t, ty.n)
        if isinstance(v, SeqV):
            if ty.n == "Vec" and ty.a and ty.a[0] != UNK and any(isinstance(p, Seg) and deferred(p.tmpl) for p in v.parts):
                v = self.lib.seq_map(v, lambda x: self.coerce(x, ty.a[0]))
                return SeqV(v.parts, ty.a[0], v.order, v.kind)
            if ty.n == "Vec" and ty.a and (v.ety is None or v.ety == UNK or any(isinstance(p, One) and (deferred(p.v) or (isinstance(p.v, IntV) and p.v.ty is None)) for p in v.parts)):
                return SeqV([One(p.node, self.coerce(p.v, ty.a[0])) if isinstance(p, One) else p for p in v.parts],
                            ty.a[0] if ty.a[0] != UNK else v.ety, v.order, v.kind)
        if isinstance(v, TupleV) and ty.n == "tuple" and len(ty.a) == len(v.e):
            return TupleV([self.coerce(x, t) for x, t in zip(v.e, ty.a)])
        if isinstance(v, EnumV) and v.ty.n == ty.n and v.ty.n in ("Option", "Result"):
            c = v.conc()
            if c is not None:
                p = v.pay(c)
                if p:
                    idx = {"Option": {1: 0}, "Result": {0: 0, 1: 1}}[ty.n]
                    if c in idx and idx[c] < len(ty.a):
                        return EnumV(self.better(v.ty, ty), c, {c: {"0": self.coerce(p["0"], ty.a[idx[c]])}}, None, v.origin)
            return EnumV(self.better(v.ty, ty), v.tag, v._pay, v.lazy, v.origin)
        if isinstance(v, StructV) and v.ty.n == ty.n and v.ty.a != ty.a:
            return StructV(self.better(v.ty, ty), v.f)
        if isinstance(v, EnumV) and v.ty.n == ty.n and v.ty.a != ty.a and v.origin is None:
            return EnumV(self.better(v.ty, ty), v.tag, v._pay, v.lazy, v.origin)
        return v

    def better(self, a, b):
        if len(a.a) != len(b.a): return b if b.a else a
        if a.a == b.a: return a
        out = []
        for x, y in zip(a.a, b.a):
            if y == UNK or y.n in ("param", "assoc", "impl") and x != UNK: out.append(x)
            elif x == UNK: out.append(y)
            else: out.append(y if x.n != y.n else self.better(x, y))
        return Ty(a.n, out)

    # ------------------------------------------------------------ blocks and statements
    def block(self, stmts, env, hint=None, own=False):
        e = env if own else Env(env, env.fr)
        v = UNITV
        mod = e.fr.mod
        for s in stmts:
            if s["s"] == "Item" and s["i"]["i"] == "Use": e.fr.mod = self.prog.with_use(e.fr.mod, s["i"]["u"])
        try:
            for i, s in enumerate(stmts):
                self.ctx.tick()
                last = i == len(stmts) - 1
                if s["s"] == "Empty": continue
                if s["s"] == "Item":
                    self.local_item(s["i"], e); continue
                mark = len(self.tmpguards)
                if s["s"] == "Let":
                    self.let(s, e)
                    v = UNITV
                    bound = [c.v for c in e.vars.values()]
                    for g in self.tmpguards[mark:]:
                        if any(x is g["ref"] for x in bound): e.guards.append(g)
                        else: self.release(g)
                    del self.tmpguards[mark:]
                    continue
                x = self.ev(s["e"], e, hint if last and not s["semi"] else None)
                if last and not s["semi"]: v = x
                else:
                    v = UNITV
                if not last or s["semi"]:
                    for g in self.tmpguards[mark:]: self.release(g)
                    del self.tmpguards[mark:]
        finally:
            for g in e.guards: self.release(g)
            e.guards = []
            e.fr.mod = mod
        return v

    def release(self, g):
        if g.get("held"):
            g["held"] = False
            self.ctx.undo.append(("call", lambda: g.__setitem__("held", True)))
            self.lib.unlock(g)

    def local_item(self, it, e):
        k = it["i"]
        if k == "Fn":
            fi = FnItem(it, e.fr.mod, file=e.fr.fi.file if e.fr.fi else None, name=it["sig"]["id"])
            e.vars[it["sig"]["id"]] = Cell(FnV(lambda args, hint=None, targs=None: self.call(fi, args, hint, dict(e.fr.ty)), fi.name))
        elif k in ("Const", "Static"):
            ty = self.ty(it["ty"], e.fr)
            e.vars[it["id"]] = Cell(self.coerce(self.ev(it["e"], e, ty), ty))
        elif k == "Use": pass
        else: fail(f"local item {k}")

    def let(self, s, env):
        pat = s["pat"]; ty = None
        if pat["p"] == "Type":
            ty = self.ty(pat["ty"], env.fr); pat = pat["e"]
        if s["init"] is None:
            if pat["p"] != "Ident": fail("let without value")
            env.vars[pat["id"]] = Cell(None, ty, pat["id"])
            return
        if s["else"] is not None:
            scr = self.scrut(s["init"], env, pat)
            r = self.match(pat, scr, env)
            if r is False:
                self.ev(s["else"], env)
                fail("let-else falls through")
            return
        if pat["p"] == "Ident" and not pat["sub"] and not pat["ref"]:
            h = ty
            if h is None and self.needs_hint(s["init"]) and env.fr.fi is not None:
                h = self.use_type(pat["id"], env.fr.fi.body, env)
            v = self.ev(s["init"], env, h)
            if ty is not None: v = self.coerce(v, ty)
            env.vars[pat["id"]] = Cell(v, ty, pat["id"])
            return
        if ty is None and pat["p"] in ("Struct", "TupleStruct") and not pat.get("qself") and self.needs_hint(s["init"]):
            segs = [x["id"] for x in pat["path"]]
            c = self.prog.resolve(segs, env.fr.mod)
            if c in self.prog.structs: ty = Ty(c)
        if ty is None: scr = self.scrut(s["init"], env, pat)
        else: scr = self.coerce(self.ev(s["init"], env, ty), ty)
        if self.match(pat, scr, env) is False: fail("irrefutable pattern did not match")

    # ------------------------------------------------------------ places
    def place(self, e, env):
        """RefV of a place expression, or None"""
        k = e["k"]
        if k == "Path":
            if len(e["path"]) == 1:
                c = env.get(e["path"][0]["id"])
                if c is not None:
                    if isinstance(c.v, RefV): return c.v
                    return RefV(c)
            return None
        if k == "Field":
            b = self.place(e["e"], env)
            if b is None:
                v = self.ev(e["e"], env)
                if isinstance(v, RefV): b = v
                else: b = RefV(Cell(v, None, "tmp"))
            return self.field_place(b, e["f"])
        if k == "Unary" and e["op"] == "*":
            b = self.place(e["e"], env)
            if b is not None:
                v = self.ctx.load(b)
                return v if isinstance(v, RefV) else b
            v = self.ev(e["e"], env)
            return v if isinstance(v, RefV) else RefV(Cell(v, None, "tmp"))
        if k == "Index":
            b = self.place(e["e"], env)
            if b is None: b = RefV(Cell(self.ev(e["e"], env), None, "tmp"))
            i = self.ev(e["i"], env)
            if isinstance(i, RangeV): return None
            n = self.lib.index_node(b, i)
            return RefV(b.cell, list(b.path) + [("node", n)])
        if k == "Ref":
            return self.place(e["e"], env)
        return None

    def field_place(self, b, f):
        """place of field f, following references and Deref implementations"""
        ctx = self.ctx
        n = 0
        while True:
            v = ctx.load(b)
            while isinstance(v, RefV):
                b = v; v = ctx.load(b)
            if isinstance(v, StructV) and f in v.f or isinstance(v, TupleV):
                return RefV(b.cell, list(b.path) + [("f", f)])
            if isinstance(v, ObjV) and v.kind in ("Row", "Record"): return RefV(Cell(self.lib.obj_field(v, f), None, f))
            d = self.deref_impl(v, b)
            if d is None: fail(f"no field {f} in {v!r}"[:200])
            b = d if isinstance(d, RefV) else RefV(Cell(d, None, "deref"))
            n += 1
            if n > 5: fail("deref chain")

    def deref_impl(self, v, ref=None):
        if not isinstance(v, (StructV, EnumV)): return None
        for nm in ("deref_mut", "deref"):
            fs = self.prog.methods.get((v.ty.n, nm))
            if fs and (nm == "deref" or ref is not None):
                if any(f.qual == a for f in fs for a in self.active): return None
                return self.call(fs[0], [ref if ref is not None else v], None, self_ty=v.ty)
        return None

    # ------------------------------------------------------------ expressions
    def ev(self, e, env, hint=None):
        m = getattr(self, "e_" + e["k"], None)
        if m is None: fail(f"expression {e['k']} {e.get('name', '')}")
        return m(e, env, hint)

    def val(self, e, env, hint=None): return self.ctx.deref(self.ev(e, env, hint))

    def e_Str(self, e, env, hint): return self.ctx.lit_str(e["v"])
    def e_Int(self, e, env, hint):
        ty = e["suf"] or (hint.n if hint is not None and hint.n in INTS else None)
        if ty is None and hint is not None and hint.n == "f64": return RealV(z3.RealVal(int(e["v"])))
        if e["suf"] in ("f64", "f32"): return RealV(z3.RealVal(int(e["v"])))
        return IntV(z3.IntVal(int(e["v"])), ty or None)
    def e_Float(self, e, env, hint): return RealV(z3.RealVal(e["v"]))
    def e_Bool(self, e, env, hint): return BoolV(e["v"])
    def e_Char(self, e, env, hint): return self.ctx.lit_str(e["v"])
    def e_Tracing(self, e, env, hint): return UNITV
    def e_Tuple(self, e, env, hint):
        hs = hint.a if hint is not None and hint.n == "tuple" and len(hint.a) == len(e["e"]) else [None] * len(e["e"])
        return TupleV([self.ev(x, env, h) for x, h in zip(e["e"], hs)])
    def e_VecMac(self, e, env, hint): return self.e_Array(e, env, hint)
    def e_Array(self, e, env, hint):
        h = hint.a[0] if hint is not None and hint.n == "Vec" and hint.a else None
        vs = [self.ev(x, env, h) for x in e["e"]]
        ety = h if h is not None else (self.tyof(vs[0]) if vs else UNK)
        if h is not None: vs = [self.coerce(v, h) for v in vs]
        return SeqV([One(self.ctx.newnode("el"), v) for v in vs], ety)
    def e_Repeat(self, e, env, hint):
        v = self.ev(e["e"], env); n = self.val(e["n"], env)
        k = z3.simplify(n.t)
        if not z3.is_int_value(k) or k.as_long() > 64: fail("array repeat")
        return SeqV([One(self.ctx.newnode("el"), v) for _ in range(k.as_long())], self.tyof(v))
    def e_Block(self, e, env, hint):
        if e.get("label"):
            try: return self.block(e["b"], env, hint)
            except Break as b:
                if b.label == e["label"]: return b.v
                raise
        return self.block(e["b"], env, hint)
    e_Unsafe = e_Block
    def e_Async(self, e, env, hint):
        def run(h=None):
            try:
                return self.block(e["b"], env, h)
            except Return as r: return r.v
        return FutV(run, "async block")
    def e_Await(self, e, env, hint):
        v = self.ev(e["e"], env, None)
        return self.lib.await_(v, hint)
    def e_Ref(self, e, env, hint):
        if e["mut"]:
            p = self.place(e["e"], env)
            if p is not None: return p
            return RefV(Cell(self.ev(e["e"], env, hint), None, "tmp"))
        return self.ev(e["e"], env, hint)
    def e_Unary(self, e, env, hint):
        if e["op"] == "*":
            v = self.ev(e["e"], env, hint)
            v2 = self.ctx.deref(v)
            if not isinstance(v, RefV) and isinstance(v2, OpV) and "pointee" in self.ctx.notes: return self.ctx.notes["pointee"](v2)
            return v2
        v = self.val(e["e"], env, hint)
        if e["op"] == "!":
            if isinstance(v, BoolV): return BoolV(z3.simplify(z3.Not(v.t)))
            fs = self.prog.methods.get((self.tyof(v).n, "not"))
            if fs: return self.call(fs[0], [v], hint, self_ty=self.tyof(v))
            fail("not on " + repr(v))
        if isinstance(v, IntV): return self.arith("-", IntV(z3.IntVal(0), v.ty), v)
        if isinstance(v, RealV): return RealV(-v.t)
        if isinstance(v, TimeV): return self.lib.td_checked(z3.simplify(-v.t), "negation")
        fail("negation of " + repr(v))
    def e_Cast(self, e, env, hint):
        v = self.val(e["e"], env)
        t = self.ty(e["ty"], env.fr)
        if t == UNK: t = hint if hint is not None else UNK
        if t == UNK:
            v0 = v
            d = {} if isinstance(self.ctx.deref(v0), (IntV, RealV)) else {"default": lambda: v0}
            return ObjV("deferred", to=lambda ty: self.lib.cast(v0, ty), **d)
        return self.lib.cast(v, t)
    def e_Paren(self, e, env, hint): return self.ev(e["e"], env, hint)

    def e_Path(self, e, env, hint):
        if len(e["path"]) == 1 and not e.get("qself"):
            c = env.get(e["path"][0]["id"])
            if c is not None:
                if c.v is None: fail("use of unassigned variable")
                return c.v
        return self.path_value(e, env, hint)

    def split_path(self, e, env):
        """-> (owner Ty or None, canonical string, name, targs of last, targs of owner)"""
        segs = [s["id"] for s in e["path"]]
        fr = env.fr
        last = e["path"][-1]
        targs = [self.ty(a, fr) for a in (last["args"] or []) if a["t"] != "Const"]
        if e.get("qself"):
            return self.ty(e["qself"]["ty"], fr), None, segs[-1], targs
        if len(segs) >= 2 and segs[0] in fr.ty:
            base = fr.ty[segs[0]]
            for s in segs[1:-1]: base = self.prog.assoc(base, s)
            return base, None, segs[-1], targs
        canon = self.prog.resolve(segs, fr.mod)
        if len(segs) >= 2:
            own = {"t": "Path", "path": e["path"][:-1], "qself": None}
            o = self.prog.resolve(segs[:-1], fr.mod)
            if o in self.prog.structs or o in self.prog.enums or o in self.prog.aliases or EXT.get(o, o) in ("DateTime", "TimeDelta", "Duration", "str", "Vec", "Option", "Result", "Json") or o in INTS or o in ("f64", "bool"):
                return self.ty(own, fr), canon, segs[-1], targs
            if o in self.prog.traits or o in ("Default", "From", "Into", "TryFrom", "TryInto", "ToString", "Clone", "Iterator", "Ord", "PartialOrd"):
                return Ty("trait", (Ty(o),) + tuple(self.ty(a, fr) for a in (e["path"][-2]["args"] or []))), canon, segs[-1], targs
        return None, canon, segs[-1], targs

    def path_value(self, e, env, hint):
        owner, canon, name, targs = self.split_path(e, env)
        ctx = self.ctx; prog = self.prog
        if owner is not None:
            return self.assoc_value(owner, name, targs, env, hint, e)
        if canon in ("Option::None",): return ctx.none(hint.a[0] if hint is not None and hint.n == "Option" and hint.a else UNK)
        if canon == "Option::Some": return FnV(lambda a, hint=None, targs=None: ctx.some(a[0], self.tyof(a[0])), "Some")
        if canon == "Result::Ok": return FnV(lambda a, hint=None, targs=None: ctx.ok(a[0], self.tyof(a[0])), "Ok")
        if canon == "Result::Err": return FnV(lambda a, hint=None, targs=None: ctx.err(a[0], UNK, self.tyof(a[0])), "Err")
        if canon in prog.consts:
            it, m = prog.consts[canon]
            return self.const_item(canon, it, m, {})
        if canon in prog.fns:
            fi = prog.fns[canon]
            return FnV(lambda a, hint=None, targs2=None: self.call(fi, a, hint, targs=targs), fi.qual)
        if canon in prog.structs:
            it, m = prog.structs[canon]
            if it["fields"]["kind"] == "unit": return StructV(Ty(canon, targs), {})
            return FnV(lambda a, hint=None, targs2=None: self.mk_struct(Ty(canon, targs), {str(i): v for i, v in enumerate(a)}, hint), canon)
        # a variant imported by name
        o, _, vn = canon.rpartition("::")
        if o in prog.enums: return self.assoc_value(Ty(o), vn, targs, env, hint, e)
        if canon == "Self" and "Self" in env.fr.ty:
            t = env.fr.ty["Self"]
            if t.n in prog.structs:
                it, m = prog.structs[t.n]
                if it["fields"]["kind"] == "unit": return StructV(t, {})
                return FnV(lambda a, hint=None, targs2=None: self.mk_struct(t, {str(i): v for i, v in enumerate(a)}, hint), "Self")
        return self.lib.path(canon, targs, hint, env, e)

    def const_item(self, key, it, m, tyenv):
        if key not in self.statics:
            fr = Fr(m, tyenv, None, None)
            ty = self.prog.ty(it["ty"], m, tyenv)
            if ty.n in ("tokio::sync::OnceCell", "std::sync::OnceLock", "once_cell::sync::OnceCell"):
                v = LockV(Cell(None, ty, key), key, "OnceCell")
            elif it["e"] is None: fail(f"constant {key} without value")
            else: v = self.coerce(self.ev(it["e"], Env(None, fr), ty), ty)
            self.statics[key] = v
        return self.statics[key]

    def mk_struct(self, ty, f, hint=None):
        fts = dict(self.ctx.struct_fields(Ty(ty.n)))
        b = {}
        it, m = self.prog.structs[ty.n]
        g = [p["id"] for p in it["generics"]["params"]]
        given = dict(zip(g, ty.a)) if ty.a else (dict(zip(g, hint.a)) if hint is not None and hint.n == ty.n and hint.a else {})
        out = {}
        for k, v in f.items():
            t = self.subst_ty(fts[k], given) if k in fts else None
            out[k] = self.coerce(v, t)
            if k in fts:
                bb = {}
                self.unify(fts[k], self.tyof(out[k]), bb)
                for kk, vv in bb.items():
                    if vv.n not in ("param", "?", "int?"): b[kk] = vv
        args = []
        for p in g:
            x = given.get(p, UNK)
            if (x == UNK or x.n == "param") and p in b: x = b[p]
            args.append(x if x is not None else UNK)
        order = [n for n, _ in self.ctx.struct_fields(Ty(ty.n))]
        return StructV(Ty(ty.n, args), {k: out[k] for k in order if k in out} | {k: v for k, v in out.items() if k not in order})

    def assoc_value(self, owner, name, targs, env, hint, e):
        """value of Owner::name"""
        ctx = self.ctx; prog = self.prog
        t = owner
        if t.n == "trait": return self.lib.trait_path(t.a[0].n, name, t.a[1:], hint, env)
        vs = ctx.variants(t)
        if vs is not None:
            for i, (n, fl) in enumerate(vs):
                if n == name:
                    if not fl: return EnumV(t, i, {i: {}})
                    it = prog.enums.get(t.n)
                    return FnV(lambda a, hint=None, targs2=None, i=i, fl=fl: EnumV(self.enum_ty(t, hint), i, {i: {f[0]: self.coerce(v, f[1]) for f, v in zip(fl, a)}}), name)
        if t.n == "param":
            return self.param_item(t, name, targs, hint)
        fs = self.assoc_fns(t, name)
        if name in ("from", "try_from") and t.n in INTS:
            return FnV(lambda a, hint=None, targs2=None: self.lib.convert(a[0], t, name == "try_from"), name)
        if fs:
            def call(a, hint=None, targs2=None):
                fi = self.pick(fs, t, a, hint)
                return self.call(fi, a, hint, self_ty=t, targs=targs)
            return FnV(call, f"{t.n}::{name}")
        for im in prog.impls:
            if im.self_ty is not None and im.self_ty.n == t.n and name in im.consts:
                it = im.consts[name]
                b = {}
                self.unify(im.self_ty, t, b)
                return self.const_item(f"{t!r}::{name}", it, im.module, dict(b, Self=t))
        # default items of implemented traits
        for (tr, tn), ims in prog.trait_impls.items():
            if tn == t.n and tr in prog.traits:
                d = prog.traits[tr][0]
                if name in d["_fns"] and d["_fns"][name].body is not None:
                    fi = d["_fns"][name]
                    return FnV(lambda a, hint=None, targs2=None: self.call(fi, a, hint, self_ty=t, targs=targs), name)
        if name == "default" and t.n in prog.structs | prog.enums:
            return FnV(lambda a, hint=None, targs2=None: self.default(t), "default")
        if name in ("from", "try_from") and (t.n in prog.structs or t.n in prog.enums):
            return FnV(lambda a, hint=None, targs2=None: self.lib.convert(a[0], t, name == "try_from"), name)
        canon = (t.n if t.n in INTS or t.n in ("DateTime", "TimeDelta", "Duration", "str", "Vec", "Option", "Result", "f64", "bool", "Json") else t.n) + "::" + name
        return self.lib.path(canon, targs, hint, env, e, t)

    def enum_ty(self, t, hint):
        if not t.a and hint is not None and hint.n == t.n: return hint
        return t

    def param_item(self, t, name, targs, hint):
        """an item of a type parameter, looked up in the traits of the program"""
        ctx = self.ctx; prog = self.prog
        pn = t.a[0].n
        for q, (d, m) in self.traits_for(pn):
            if name in d["_consts"]:
                ty = prog.ty(d["_consts"][name]["ty"], m, {"Self": t})
                return ctx.fresh(ty, f"{pn}::{name}")
            if name in d["_fns"]:
                fi = d["_fns"][name]
                if fi.body is None or name in self.opaque_methods:
                    return FnV(lambda a, hint=None, targs2=None: self.lib.opaque_call(t, q, fi, a, hint), f"{pn}::{name}")
                return FnV(lambda a, hint=None, targs2=None: self.call(fi, a, hint, self_ty=t, targs=targs), f"{pn}::{name}")
        if name == "default": return FnV(lambda a, hint=None, targs2=None: OpV(ctx.const(f"{pn}::default", ("id",)), repr(t)), "default")
        fail(f"item {name} of parameter {pn}")

    def traits_for(self, pn):
        """traits of the program, those bounding the type parameter in the current functions first"""
        short = set()
        def scan(g):
            for p in g["params"]:
                if p["id"] == pn: add(p["b"])
            for w in g.get("where") or []:
                if w["ty"].get("t") == "Path" and len(w["ty"]["path"]) == 1 and w["ty"]["path"][0]["id"] == pn: add(w["b"])
        def add(bs):
            for b in bs:
                if isinstance(b, dict): b = b.get("path")
                if isinstance(b, list) and b: short.add(b[-1]["id"])
        for fi in self.fistack:
            scan(fi.sig["generics"])
            if fi.impl is not None: scan(fi.impl.node["generics"])
        its = list(self.prog.traits.items())
        return sorted(its, key=lambda x: x[0].split("::")[-1] not in short)

    def assoc_fns(self, t, name):
        return self.prog.methods.get((t.n, name), [])

    def pick(self, fs, t, args, hint=None):
        """select the implementation whose self type and argument types match"""
        c = [f for f in fs if f.impl is None or f.impl.self_ty.n == "param" or self.unify(f.impl.self_ty, t, {})]
        if len(c) > 1:
            c2 = []
            for f in c:
                sig = [p for p in f.sig["in"] if not p.get("self")]
                av = args[1:] if f.has_self else args
                env = {g: Ty("param", (Ty(g),)) for g in (f.impl.gparams if f.impl else [])}
                env["Self"] = f.impl.self_ty if f.impl else t
                env.update({p["id"]: Ty("param", (Ty(p["id"]),)) for p in f.sig["generics"]["params"]})
                if all(self.unify(self.prog.ty(p["ty"], f.module, env), self.tyof(a), {}) for p, a in zip(sig, av)): c2.append(f)
            c = c2 or c
        if len(c) > 1 and hint is not None:
            c2 = [f for f in c if self.unify(self.prog.ty(f.sig["out"], f.module, {"Self": f.impl.self_ty}), hint, {})]
            c = c2 or c
        if not c: fail(f"no implementation of {fs[0].name} for {t}")
        return c[0]

    # ------------------------------------------------------------ calls
    def call(self, fi, args, hint=None, tyenv=None, self_ty=None, targs=None):
        """call a function of the program (by contract when it has one, else its body)"""
        ctx = self.ctx
        ctx.tick()
        if self.hook is not None:
            r = self.hook(self, fi, args, hint)
            if r is not NotImplemented: return r
        c = self.contracts.get(fi.qual)
        if c is not None and (fi.qual in self.active or not c.get("under")):
            r = c["apply"](self, fi, args, hint)
            if r is not NotImplemented:
                ctx.stats.assumed.setdefault("contract:" + fi.qual, 0)
                ctx.stats.assumed["contract:" + fi.qual] += 1
                return r
        if fi.body is None: fail(f"no body for {fi.qual}")
        if len(self.active) > 60 or self.active.count(fi.qual) > 8: raise Budget(f"recursion in {fi.qual}")
        env_ty = dict(tyenv or {})
        if fi.impl is not None:
            st = self_ty
            if st is None and fi.has_self: st = self.tyof(args[0])
            b = {}
            if st is not None: self.unify(fi.impl.self_ty, st, b)
            for g in fi.impl.gparams:
                env_ty[g] = b[g] if g in b and b[g] != UNK else env_ty.get(g, Ty("param", (Ty(g),)))
            env_ty["Self"] = self.better(self.subst_ty(fi.impl.self_ty, env_ty), st) if st is not None and st.n == fi.impl.self_ty.n else self.subst_ty(fi.impl.self_ty, env_ty)
        elif fi.trait is not None:
            env_ty["Self"] = self_ty if self_ty is not None else (self.tyof(args[0]) if fi.has_self else Ty("param", (Ty("Self"),)))
        gp = [p["id"] for p in fi.sig["generics"]["params"]]
        for g in gp: env_ty.setdefault(g, Ty("param", (Ty(g),)))
        if targs:
            for g, t in zip(gp, targs):
                if t != UNK: env_ty[g] = t
        ins = fi.sig["in"]
        if len(ins) != len(args): fail(f"{fi.qual}: {len(args)} arguments for {len(ins)} parameters")
        patenv = dict(env_ty)
        if gp and not targs:
            b = {}
            for p, a in zip(ins, args):
                if not p.get("self"):
                    pt = self.prog.ty(p["ty"], fi.module, patenv)
                    self.unify(pt, self.tyof(a), b)
            for g in gp:
                if g in b and b[g] != UNK: env_ty[g] = b[g]
        ret = self.prog.ty(fi.sig["out"], fi.module, env_ty) if fi.sig["out"] is not None else UNIT
        if hint is not None and ret.n == hint.n: ret = self.better(ret, hint)
        if gp and hint is not None:
            b = {}
            self.unify(self.prog.ty(fi.sig["out"], fi.module, patenv) if fi.sig["out"] is not None else UNIT, hint, b)
            for g in gp:
                if g in b and env_ty[g].n == "param" and b[g] != UNK: env_ty[g] = b[g]
        fr = Fr(fi.module, env_ty, ret, fi)
        env = Env(None, fr)
        for p, a in zip(ins, args):
            if p.get("self"):
                env.vars["self"] = Cell(a, env_ty.get("Self"), "self")
            else:
                pt = self.prog.ty(p["ty"], fi.module, env_ty)
                a = self.coerce(a, pt)
                pp = p["pat"]
                if pp["p"] == "Type": pp = pp["e"]
                if pp["p"] == "Ident" and not pp["sub"]: env.vars[pp["id"]] = Cell(a, pt, pp["id"])
                elif pp["p"] == "Wild": pass
                elif self.match(pp, a, env) is False: fail("parameter pattern")
        ctx.stats.fns.setdefault(fi.qual, (fi.file, fi.node.get("l") or fi.sig.get("l")))
        def run(h=None):
            self.active.append(fi.qual)
            self.fistack.append(fi)
            mark = len(self.tmpguards)
            try:
                try:
                    v = self.block(fi.body, env, ret, own=True)
                except Return as r:
                    v = r.v
            finally:
                self.active.pop()
                self.fistack.pop()
                for g in self.tmpguards[mark:]: self.release(g)
                del self.tmpguards[mark:]
            return self.coerce(v, ret)
        if fi.is_async: return FutV(run, fi.qual)
        return run()

    def apply(self, f, args, hint=None):
        """call a function value"""
        f = self.ctx.deref(f)
        if isinstance(f, FnV): return f.fn(args, hint)
        fail(f"calling {f!r}")

    def e_Call(self, e, env, hint):
        f = e["f"]
        if f["k"] == "Path":
            p = f["path"]
            if len(p) == 1 and not f.get("qself"):
                c = env.get(p[0]["id"])
                if c is not None:
                    return self.apply(c.v, [self.ev(a, env) for a in e["args"]], hint)
            h = self.arg_hints(f, env, hint)
            if h is not None and len(h) == len(e["args"]):
                args = [self.coerce(self.ev(a, env, t), t) for a, t in zip(e["args"], h)]
            else:
                args = [self.ev(a, env) for a in e["args"]]
            fv = self.path_value(f, env, hint)
            return self.apply(fv, args, hint)
        fv = self.ev(f, env)
        return self.apply(fv, [self.ev(a, env) for a in e["args"]], hint)

    def arg_hints(self, f, env, hint):
        """expected argument types of a path call, where they are known without evaluating"""
        try:
            owner, canon, name, targs = self.split_path(f, env)
        except Unsupported:
            return None
        if canon in ("std::boxed::Box::new", "Box::new", "std::sync::Arc::new", "Arc::new", "std::rc::Rc::new") or \
                (owner is None and name == "new" and canon.split("::")[-2:-1] and canon.split("::")[-2] in ("Box", "Arc", "Rc")):
            return [hint] if hint is not None else None
        if canon == "Option::Some": return [hint.a[0]] if hint is not None and hint.n == "Option" and hint.a else None
        if canon == "Result::Ok":
            return [hint.a[0]] if hint is not None and hint.n == "Result" and hint.a else None
        if canon == "Result::Err":
            return [hint.a[1]] if hint is not None and hint.n == "Result" and len(hint.a) > 1 else None
        if owner is not None:
            vs = self.ctx.variants(owner)
            if vs is not None:
                own = self.enum_ty(owner, hint)
                for n, fl in self.ctx.variants(own):
                    if n == name: return [t for _, t in fl]
            fs = self.assoc_fns(owner, name)
            if len(fs) == 1:
                fi = fs[0]
                b = {}
                if fi.impl is not None: self.unify(fi.impl.self_ty, owner, b)
                te = {g: b.get(g, Ty("param", (Ty(g),))) for g in (fi.impl.gparams if fi.impl else [])}
                te["Self"] = owner
                te.update({p["id"]: Ty("param", (Ty(p["id"]),)) for p in fi.sig["generics"]["params"]})
                return [owner if p.get("self") else self.prog.ty(p["ty"], fi.module, te) for p in fi.sig["in"]]
            return None
        if canon in self.prog.fns:
            fi = self.prog.fns[canon]
            te = {p["id"]: Ty("param", (Ty(p["id"]),)) for p in fi.sig["generics"]["params"]}
            return [self.prog.ty(p["ty"], fi.module, te) for p in fi.sig["in"]]
        if canon in self.prog.structs: return [t for _, t in self.ctx.struct_fields(Ty(canon, targs))]
        if canon == "Self" and "Self" in env.fr.ty and env.fr.ty["Self"].n in self.prog.structs:
            return [t for _, t in self.ctx.struct_fields(env.fr.ty["Self"])]
        return None

    def e_MCall(self, e, env, hint):
        ctx = self.ctx
        name = e["m"]
        re_ = e["e"]
        ref = self.place(re_, env)
        if ref is not None:
            raw = ctx.load(ref)
            if isinstance(raw, RefV):
                ref = raw; raw = ctx.load(raw)
            v = ctx.deref(raw)
        else:
            v0 = self.ev(re_, env, self.recv_hint(name, hint))
            if isinstance(v0, RefV): ref = v0
            v = ctx.deref(v0)
        targs = [self.ty(a, env.fr) for a in (e["targs"] or []) if a["t"] != "Const"]
        ctx.notes["last_targ_ref"] = bool(e["targs"]) and e["targs"][0]["t"] == "Ref"
        if deferred(v) and name not in ("unwrap", "expect", "map_err", "unwrap_or", "map", "ok", "unwrap_or_default", "and_then", "unwrap_or_else"):
            v = self.force(v)
        # declared type `impl Into<T>` of a parameter decides into()
        if name in ("into",) and re_["k"] == "Path" and len(re_["path"]) == 1:
            c = env.get(re_["path"][0]["id"])
            if c is not None and c.ty is not None and c.ty.n == "impl" and c.ty.a[0].n == "Into":
                return self.lib.convert(v, c.ty.a[1], False)
        return self.method(v, ref, name, e["args"], env, hint, targs)

    def recv_hint(self, name, hint):
        return None

    def force(self, v):
        if deferred(v):
            if "default" in v.d: return v.d["default"]()
            fail("type of a conversion is not known")
        return v

    def method(self, v, ref, name, argx, env, hint, targs, args=None):
        """method call; argx: argument expressions (evaluated here), or args given"""
        ctx = self.ctx; prog = self.prog
        depth = 0
        while True:
            t = self.tyof(v)
            fs = prog.methods.get((t.n, name)) if isinstance(v, (StructV, EnumV, SeqV, TimeV, StrV, IntV, OpV)) else None
            if fs:
                fs = [f for f in fs if f.has_self]
                if name in ("into", "try_into", "clone", "eq", "fmt", "hash"): fs = []
                if name == "deref" : pass
            if fs:
                return self.user_method(fs, v, ref, t, name, argx, env, hint, targs, args)
            if isinstance(v, (StructV, EnumV)):
                for (tr, tn), ims in prog.trait_impls.items():
                    if tn == t.n and tr in prog.traits:
                        d = prog.traits[tr][0]
                        if name in d["_fns"] and d["_fns"][name].body is not None and d["_fns"][name].has_self:
                            return self.user_method([d["_fns"][name]], v, ref, t, name, argx, env, hint, targs, args)
            r = self.lib.method(v, ref, name, argx, env, hint, targs, args)
            if r is not NotImplemented: return r
            d = self.deref_impl(v, ref)
            if d is None or depth > 4: fail(f"method {name} of {type(v).__name__} {t}")
            depth += 1
            if isinstance(d, RefV): ref = d; v = ctx.deref(d)
            else: ref = None; v = ctx.deref(d)

    def user_method(self, fs, v, ref, t, name, argx, env, hint, targs, args):
        ctx = self.ctx
        cand = [f for f in fs if f.impl is None or self.unify(f.impl.self_ty, t, {})] or fs
        fi = cand[0]
        if args is None:
            te = {}
            b = {}
            if fi.impl is not None:
                self.unify(fi.impl.self_ty, t, b)
                te = {g: b.get(g, Ty("param", (Ty(g),))) for g in fi.impl.gparams}
            te["Self"] = t
            te.update({p["id"]: Ty("param", (Ty(p["id"]),)) for p in fi.sig["generics"]["params"]})
            pts = [self.prog.ty(p["ty"], fi.module, te) for p in fi.sig["in"] if not p.get("self")]
            args = [self.ev(a, env, h) for a, h in zip(argx, pts)] if len(pts) == len(argx) else [self.ev(a, env) for a in argx]
        if len(cand) > 1: fi = self.pick(cand, t, [v] + list(args), hint)
        s = fi.sig["in"][0]
        if s.get("ref") and s.get("mut"):
            recv = ref if ref is not None else RefV(Cell(v, t, "tmp"))
        else:
            recv = v
        return self.call(fi, [recv] + list(args), hint, self_ty=t, targs=targs)

    # ------------------------------------------------------------ operators
    def e_Binary(self, e, env, hint):
        op = e["op"].replace(" ", "")
        ctx = self.ctx
        if op in ("&&", "||"):
            a = self.val(e["a"], env)
            if ctx.nested() and self.pure(e["b"]):
                # keep predicates as formulas
                ca = z3.simplify(a.t)
                if z3.is_true(ca) or z3.is_false(ca):
                    if op == "&&" and z3.is_false(ca): return FALSE
                    if op == "||" and z3.is_true(ca): return TRUE
                    return self.val(e["b"], env)
                b = self.val(e["b"], env)
                return BoolV(z3.simplify(z3.And(a.t, b.t) if op == "&&" else z3.Or(a.t, b.t)))
            if op == "&&":
                return self.val(e["b"], env) if ctx.decide(a) else FALSE
            return TRUE if ctx.decide(a) else self.val(e["b"], env)
        if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
            p = self.place(e["a"], env)
            if p is None: fail("compound assignment target")
            cur = ctx.deref(ctx.load(p))
            b = self.val(e["b"], env, self.tyof(cur) if isinstance(cur, IntV) else None)
            while isinstance(ctx.load(p), RefV): p = ctx.load(p)
            ctx.store(p, self.binop(op[:-1], cur, b))
            return UNITV
        if op in CMP and e["b"]["k"] in ("Call", "MCall", "Path", "Int") and e["a"]["k"] in ("MCall", "Int"):
            b = self.ev(e["b"], env)
            a = self.ev(e["a"], env)
            if not deferred(a):
                pass
        else:
            a = self.ev(e["a"], env, hint if op in BINT else None)
            b = self.ev(e["b"], env, self.tyof(a) if isinstance(ctx.deref(a), (IntV, RealV)) else None)
        a, b = ctx.deref(a), ctx.deref(b)
        if deferred(a): a = self.coerce(a, self.tyof(b))
        if deferred(b): b = self.coerce(b, self.tyof(a))
        return self.binop(op, ctx.deref(a), ctx.deref(b))

    def pure(self, e):
        """no effect and no control flow (conservative, syntactic)"""
        k = e["k"]
        if k in ("Path", "Int", "Str", "Bool", "Float", "Char"): return True
        if k in ("Field", "Ref", "Unary", "Paren"): return self.pure(e["e"])
        if k == "Binary": return not (e["op"].endswith("=") and e["op"] not in ("==", "!=", "<=", ">=")) and self.pure(e["a"]) and self.pure(e["b"])
        if k == "MCall": return e["m"] in ("contains", "is_none", "is_some", "as_str", "abs", "len", "is_empty", "clone", "to_owned", "eq", "ne", "lt", "le", "gt", "ge", "matches", "iter", "any", "all", "as_ref", "into", "cmp", "is_some_and", "is_none_or", "map_or", "unwrap_or") and self.pure(e["e"]) and all(self.pure(a) or a["k"] == "Closure" for a in e["args"])
        if k == "Call": return e["f"]["k"] == "Path" and all(self.pure(a) for a in e["args"]) and e["f"]["path"][-1]["id"] in ("now", "milliseconds", "seconds", "zero", "from", "Some", "into")
        return False

    def binop(self, op, a, b):
        ctx = self.ctx
        if isinstance(b, ObjV) and b.kind == "Index" and op in CMP:
            return self.binop({"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op), b, a)
        if isinstance(a, ObjV) and a.kind == "Index":
            # all that is known of the index: at least so many elements come before
            if not isinstance(b, IntV) or op not in CMP: fail("use of an index")
            n = a.d["above"]
            if op in (">=",) and ctx.must(b.t <= n) or op in (">", "!=") and ctx.must(b.t < n): return TRUE
            if op in ("<",) and ctx.must(b.t <= n) or op in ("<=", "==") and ctx.must(b.t < n): return FALSE
            fail("use of an index")
        if op in ("==", "!="):
            f = self.equal(a, b)
            return BoolV(z3.simplify(f if op == "==" else z3.Not(f)))
        if op in ("<", "<=", ">", ">="):
            ta, tb = self.ordkey(a), self.ordkey(b)
            lt = self.lex_lt(ta, tb); gt = self.lex_lt(tb, ta)
            return BoolV(z3.simplify({"<": lt, ">": gt, "<=": z3.Not(gt), ">=": z3.Not(lt)}[op]))
        if op in ("&", "|", "^") and isinstance(a, BoolV):
            return BoolV({"&": z3.And, "|": z3.Or, "^": z3.Xor}[op](a.t, b.t))
        return self.arith(op, a, b)

    def equal(self, a, b):
        ctx = self.ctx
        a, b = ctx.deref(a), ctx.deref(b)
        ta, tb = self.tyof(a), self.tyof(b)
        if isinstance(a, (StructV, EnumV, IntV)) or isinstance(b, (StructV, EnumV)):
            fs = self.prog.methods.get((ta.n, "eq"), [])
            for f in fs:
                arg = f.impl.trait_args[0] if f.impl.trait_args else f.impl.self_ty
                if self.unify(arg, tb, {}) and self.unify(f.impl.self_ty, ta, {}) and arg.n == tb.n:
                    if f.qual in self.active: break
                    v = ctx.deref(self.call(f, [a, b], self_ty=ta))
                    return v.t
        if type(a) is not type(b) or (isinstance(a, StructV) and a.ty.n != b.ty.n):
            da = self.deref_impl(a) if isinstance(a, StructV) else None
            if da is not None: return self.equal(da, b)
            db = self.deref_impl(b) if isinstance(b, StructV) else None
            if db is not None: return self.equal(a, db)
        if isinstance(a, SeqV) and isinstance(b, SeqV) or isinstance(a, EnumV):
            return ctx.eq(a, b)
        return ctx.eq(a, b)

    def ordkey(self, v):
        """list of Int/Real terms compared lexicographically"""
        v = self.ctx.deref(v)
        if isinstance(v, (IntV, TimeV, RealV)): return [v.t]
        if isinstance(v, BoolV): return [z3.If(v.t, 1, 0)]
        if isinstance(v, TupleV): return [k for x in v.e for k in self.ordkey(x)]
        if isinstance(v, ObjV) and v.kind == "Reverse": return [-k for k in self.ordkey(v.d["v"])]
        if isinstance(v, EnumV):
            vs = self.ctx.variants(v.ty)
            if v.ty.n == "Option":
                c = v.conc()
                if c == 0: return [z3.IntVal(0), z3.IntVal(0)]
                k = self.ordkey(v.pay(1)["0"])
                if len(k) != 1: fail("ordering of options")
                return [self.ctx.tagt(v), z3.If(self.ctx.tagt(v) == 1, k[0], 0)]
            if all(not f for _, f in vs): return [self.ctx.tagt(v)]
        if isinstance(v, StructV): return [k for x in v.f.values() for k in self.ordkey(x)]
        fail(f"ordering of {v!r}")

    def lex_lt(self, a, b):
        if len(a) != len(b): fail("ordering of different shapes")
        f = z3.BoolVal(False)
        for x, y in reversed(list(zip(a, b))):
            f = z3.Or(x < y, z3.And(x == y, f))
        return f

    def bits(self, op, a, b, ty):
        """bitwise operators, over bit vectors of the type's width"""
        if ty not in INTS: fail(f"integer operator {op}")
        lo, hi = INTS[ty]
        w = (hi - lo).bit_length()
        x, y = z3.Int2BV(a.t, w), z3.Int2BV(b.t, w)
        if op in ("<<", ">>"):
            if self.ctx.decide(z3.Or(b.t < 0, b.t >= w)): raise Panic("shift overflow")
            r = x << y if op == "<<" else (x >> y if lo < 0 else z3.LShR(x, y))
        else: r = {"&": x & y, "|": x | y, "^": x ^ y}[op]
        return IntV(z3.simplify(z3.BV2Int(r, lo < 0)), ty)

    def arith(self, op, a, b):
        ctx = self.ctx
        if isinstance(a, RealV) or isinstance(b, RealV):
            x = a.t if isinstance(a, RealV) else z3.ToReal(a.t)
            y = b.t if isinstance(b, RealV) else z3.ToReal(b.t)
            return RealV(z3.simplify({"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y}[op]()))
        if isinstance(a, IntV) and isinstance(b, IntV):
            ty = a.ty or b.ty
            if op in ("+", "-", "*"):
                t = {"+": a.t + b.t, "-": a.t - b.t, "*": a.t * b.t}[op]
                return self.int_checked(t, ty, f"{op} overflow")
            if op in ("/", "%"):
                if ctx.decide(b.t == 0): raise Panic("division by zero")
                q = z3.If(a.t >= 0, a.t / b.t, z3.If(b.t > 0, -((-a.t) / b.t), (-a.t) / (-b.t)))
                if op == "/": return self.int_checked(z3.simplify(q), ty, "division overflow")
                return IntV(z3.simplify(a.t - b.t * q), ty)
            if op in ("&", "|", "^", "<<", ">>"): return self.bits(op, a, b, ty)
            fail(f"integer operator {op}")
        if isinstance(a, TimeV) or isinstance(b, TimeV): return self.lib.time_arith(op, a, b)
        if isinstance(a, StrV) and op == "+": return self.lib.fmt("concat", [a, b])
        for nm, tr in (("+", "add"), ("-", "sub"), ("*", "mul")):
            if op == nm:
                fs = self.prog.methods.get((self.tyof(a).n, tr))
                if fs: return self.call(fs[0], [a, b], self_ty=self.tyof(a))
        fail(f"operator {op} on {a!r}, {b!r}"[:200])

    def int_checked(self, t, ty, what):
        t = z3.simplify(t)
        if ty in INTS:
            lo, hi = INTS[ty]
            ok = z3.simplify(z3.And(t >= lo, t <= hi))
            if not self.ctx.decide(ok): raise Panic(f"attempt to {what} {ty}")
        return IntV(t, ty)

    def e_Assign(self, e, env, hint):
        ctx = self.ctx
        a = e["a"]
        if a["k"] == "Path" and a["path"][0]["id"] == "_" and len(a["path"]) == 1:
            self.ev(e["b"], env); return UNITV
        if a["k"] == "Path" and len(a["path"]) == 1:
            c = env.get(a["path"][0]["id"])
            if c is None: fail("assignment to a static")
            v = self.ev(e["b"], env, c.ty if c.ty is not None else (self.tyof(c.v) if c.v is not None else None))
            if c.ty is not None: v = self.coerce(v, c.ty)
            elif c.v is not None: v = self.coerce(v, self.tyof(c.v))
            ctx.setcell(c, v)
            return UNITV
        p = self.place(a, env)
        if p is None: fail("assignment target")
        cur = ctx.load(p)
        while isinstance(cur, RefV): p = cur; cur = ctx.load(p)
        t = self.field_ty(p, cur)
        v = self.ev(e["b"], env, t)
        v = self.coerce(v, t)
        if isinstance(v, RefV): v = ctx.deref(v)
        ctx.store(p, v)
        return UNITV

    def field_ty(self, p, cur):
        """declared type of the field a place denotes, else the type of its current value"""
        if p.path and p.path[-1][0] == "f":
            base = self.ctx.deref(self.ctx.load(RefV(p.cell, p.path[:-1])))
            if isinstance(base, StructV) and base.ty.n in self.prog.structs:
                for n, t in self.ctx.struct_fields(base.ty):
                    if n == p.path[-1][1]: return t
        return self.tyof(cur)

    def e_Field(self, e, env, hint):
        ctx = self.ctx
        b = self.place(e["e"], env)
        if b is not None:
            p = self.field_place(b, e["f"])
            return ctx.load(p)
        v = self.val(e["e"], env)
        v = self.force(v)
        n = 0
        while True:
            if isinstance(v, StructV) and e["f"] in v.f: return v.f[e["f"]]
            if isinstance(v, TupleV): return v.e[int(e["f"])]
            if isinstance(v, ObjV): return self.lib.obj_field(v, e["f"])
            d = self.deref_impl(v)
            if d is None: fail(f"field {e['f']} of {v!r}"[:200])
            v = ctx.deref(d); n += 1
            if n > 5: fail("deref chain")

    def e_Index(self, e, env, hint):
        i = self.val(e["i"], env)
        if isinstance(i, RangeV):
            v = self.val(e["e"], env)
            return self.lib.slice(v, i)
        p = self.place(e, env)
        return self.ctx.load(p)

    def e_Range(self, e, env, hint):
        a = self.val(e["a"], env) if e["a"] is not None else None
        b = self.val(e["b"], env, self.tyof(a) if a is not None else None) if e["b"] is not None else None
        if a is not None and b is not None and isinstance(a, IntV) and a.ty is None and b.ty: a = IntV(a.t, b.ty)
        return RangeV(a, b, e["incl"])

    def e_Struct(self, e, env, hint):
        ctx = self.ctx; prog = self.prog
        segs = [s["id"] for s in e["path"]]
        fr = env.fr
        variant = None
        if segs[0] in fr.ty:
            t = fr.ty[segs[0]]
            if len(segs) == 2: variant = segs[1]
        else:
            canon = prog.resolve(segs, fr.mod)
            if canon in prog.structs: t = prog.ty({"t": "Path", "path": e["path"], "qself": None}, fr.mod, fr.ty)
            else:
                o, _, variant = canon.rpartition("::")
                if o in prog.aliases or o in prog.enums: t = prog.ty({"t": "Path", "path": e["path"][:-1], "qself": None}, fr.mod, fr.ty)
                elif canon in prog.aliases: t = prog.ty({"t": "Path", "path": e["path"], "qself": None}, fr.mod, fr.ty); variant = None
                else: fail(f"struct {canon}")
        if variant is not None:
            i = ctx.vidx(t, variant)
            fts = dict(ctx.variants(t)[i][1])
            return EnumV(self.enum_ty(t, hint), i, {i: {k: self.coerce(self.ev(x, env, fts.get(k)), fts.get(k)) for k, x in e["f"]}})
        if hint is not None and hint.n == t.n: t2 = self.better(t, hint)
        else: t2 = t
        fts = dict(ctx.struct_fields(t2))
        f = {}
        for k, x in e["f"]:
            v = self.ev(x, env, fts.get(k))
            f[k] = ctx.deref(v) if isinstance(v, RefV) and not self.is_refty(t, k) else v
        if e["rest"] is not None:
            r = self.val(e["rest"], env, t2)
            r = self.coerce(r, t2)
            if not isinstance(r, StructV): fail("struct rest")
            for k, v in r.f.items():
                if k not in f: f[k] = v
        # generic arguments given by the syntax are stronger than the value's
        args_given = any(s["args"] for s in e["path"]) or segs[0] in fr.ty
        return self.mk_struct(t2 if args_given or t2.a else Ty(t.n), f, hint)

    def is_refty(self, t, k):
        it, m = self.prog.structs[t.n]
        for n, ty, *_ in it["fields"]["f"]:
            if n == k: return ty["t"] == "Ref" and ty["mut"]
        return False

    def default(self, t):
        ctx = self.ctx; prog = self.prog
        n = t.n
        if n in INTS: return IntV(z3.IntVal(0), n)
        if n == "bool": return FALSE
        if n == "str": return ctx.lit_str("")
        if n == "Vec": return SeqV([], t.a[0] if t.a else UNK)
        if n == "Option": return ctx.none(t.a[0] if t.a else UNK)
        if n == "tuple": return TupleV([self.default(x) for x in t.a])
        if n in ("TimeDelta", "Duration"): return TimeV(0, n)
        if n == "std::marker::PhantomData": return UNITV
        fs = prog.methods.get((n, "default"))
        if fs: return self.call(self.pick(fs, t, [], t), [], t, self_ty=t)
        if n in prog.structs:
            return StructV(t, {k: self.default(ft) for k, ft in ctx.struct_fields(t)})
        if n in prog.enums:
            it, m = prog.enums[n]
            for i, v in enumerate(it["variants"]):
                if any("default" in a for a in v.get("attrs", [])): return EnumV(t, i, {i: {}})
        r = self.lib.default(t)
        if r is not None: return r
        fail(f"default of {t}")

    # ------------------------------------------------------------ control flow
    def e_If(self, e, env, hint):
        sub = Env(env, env.fr)
        if self.cond(e["c"], sub):
            return self.block(e["t"], sub, hint)
        if e["e"] is not None: return self.ev(e["e"], env, hint)
        return UNITV

    def cond(self, c, env):
        """evaluates a condition, binding let patterns into env; returns a python bool (forks)"""
        if c["k"] == "LetCond":
            scr = self.scrut(c["e"], env, c["pat"])
            return self.match(c["pat"], scr, env) is not False
        if c["k"] == "Binary" and c["op"] == "&&" and self.has_let(c):
            return self.cond(c["a"], env) and self.cond(c["b"], env)
        return self.ctx.decide(self.force(self.val(c, env)))

    def has_let(self, c):
        return c["k"] == "LetCond" or c["k"] == "Binary" and c["op"] == "&&" and (self.has_let(c["a"]) or self.has_let(c["b"]))

    def e_LetCond(self, e, env, hint):
        return BoolV(self.cond(e, env))

    def scrut(self, e, env, pat=None, bodies=None):
        """scrutinee: a place reference when it is a place (so patterns can bind by reference), else a value"""
        p = self.place(e, env)
        if p is not None:
            v = self.ctx.load(p)
            if isinstance(v, RefV): return v
            # a variable holding a reference: its parts are bound by reference
            if e["k"] == "Path" and isinstance(env.get(e["path"][0]["id"]).v, RefV) and not deferred(v): return p
            if self.wants_ref(pat) or (e["k"] == "Ref" and e["mut"]): return p
            return self.by_use(v, env, pat, bodies)
        return self.by_use(self.ev(e, env), env, pat, bodies)

    def by_use(self, v, env, pat, bodies):
        """a conversion whose target type follows from how the bound result is used"""
        if not deferred(v) or not v.d.get("fallible"): return v
        ids = []
        def names(p):
            if isinstance(p, list):
                for x in p: names(x)
            elif isinstance(p, dict):
                if p.get("p") == "TupleStruct" or p.get("p") == "Tuple" or p.get("p") == "Type":
                    pass
                if p.get("p") == "Ident": ids.append(p["id"])
                for x in p.values():
                    if isinstance(x, (dict, list)): names(x)
        names(pat)
        if bodies is None: bodies = env.fr.fi.body if env.fr.fi is not None else []
        for i in ids:
            t = self.use_type(i, bodies, env)
            if t is not None:
                try: return v.d["to"](Ty("Result", (t, UNK)))
                except Unsupported as ex:
                    if __import__("os").environ.get("DBG"): print("by_use", i, t, ex)
                    continue
        return v

    def needs_hint(self, e):
        while True:
            k = e["k"]
            if k in ("Try", "Await", "Paren"): e = e["e"]
            elif k == "MCall":
                if e["m"] in ("into", "try_into"): return True
                if e["m"] not in ("map_err", "unwrap", "expect", "unwrap_or_default"): return False
                e = e["e"]
            elif k == "Call": return e["f"]["k"] == "Path" and e["f"]["path"][-1]["id"] in ("from_value", "from_str", "from_slice", "try_from") and not e["f"]["path"][-1]["args"]
            else: return False

    def use_type(self, name, node, env):
        """type of the parameter the variable is passed for somewhere in node"""
        if isinstance(node, list):
            for x in node:
                t = self.use_type(name, x, env)
                if t is not None: return t
            return None
        if not isinstance(node, dict): return None
        isv = lambda a: isinstance(a, dict) and a.get("k") == "Path" and len(a["path"]) == 1 and a["path"][0]["id"] == name
        fi = pos = None
        if node.get("k") == "MCall" and any(isv(a) for a in node["args"]):
            c = {f.qual: f for (tn, mn), fs in self.prog.methods.items() if mn == node["m"] for f in fs if f.has_self}
            for q, ts in self.prog.traits.items():
                for tr in ts[:1]:
                    f = tr.get("_fns", {}).get(node["m"])
                    if f is not None and getattr(f, "has_self", False): c.setdefault(f.qual, f)
            pos = 1 + [isv(a) for a in node["args"]].index(True)
            if len(c) == 1: fi = next(iter(c.values()))
            else:
                tys = {t for t in (self.param_type(f, pos, env) for f in c.values()) if t is not None}
                if len(tys) == 1: return next(iter(tys))
        elif node.get("k") == "Call" and node["f"]["k"] == "Path" and any(isv(a) for a in node["args"]):
            try:
                h = self.arg_hints(node["f"], env, None)
                if h: return h[[isv(a) for a in node["args"]].index(True)]
            except (Unsupported, IndexError): pass
        if node.get("k") == "Struct":
            for f in node["f"]:
                if isv(f[1]):
                    segs = [x["id"] for x in node["path"]]
                    t = env.fr.ty.get(segs[0]) if len(segs) == 1 else None
                    if t is None:
                        c = self.prog.resolve(segs, env.fr.mod)
                        t = Ty(c) if c in self.prog.structs else None
                    if t is not None and t.n in self.prog.structs:
                        ft = dict(self.ctx.struct_fields(t)).get(f[0])
                        if ft is not None and ft.n not in ("param", "impl", "?"): return ft
                        if ft is not None and t.a: return ft
        if fi is not None:
            t = self.param_type(fi, pos, env)
            if t is not None: return t
        for x in node.values():
            if isinstance(x, (dict, list)):
                t = self.use_type(name, x, env)
                if t is not None: return t
        return None

    def param_type(self, fi, pos, env):
        if pos >= len(fi.sig["in"]) or "ty" not in fi.sig["in"][pos]: return None
        te = {g: env.fr.ty.get(g, Ty("param", (Ty(g),))) for g in (fi.impl.gparams if fi.impl else [])}
        te.update({p["id"]: Ty("param", (Ty(p["id"]),)) for p in fi.sig["generics"]["params"]})
        if fi.impl is not None: te["Self"] = self.subst_ty(fi.impl.self_ty, te)
        try: t = self.prog.ty(fi.sig["in"][pos]["ty"], fi.module, te)
        except Unsupported: return None
        return t if t.n not in ("param", "impl", "?") else None

    def wants_ref(self, pat):
        if pat is None: return False
        if isinstance(pat, list): return any(self.wants_ref(x) for x in pat)
        if isinstance(pat, dict):
            if pat.get("p") == "Ident" and pat.get("ref") and pat.get("mut"): return True
            return any(self.wants_ref(x) for x in pat.values() if isinstance(x, (dict, list)))
        return False

    def e_Match(self, e, env, hint):
        scr = self.scrut(e["e"], env, [a["pat"] for a in e["arms"]], [a["body"] for a in e["arms"]])
        for a in e["arms"]:
            sub = Env(env, env.fr)
            if self.match(a["pat"], scr, sub) is False: continue
            if a["guard"] is not None and not self.cond(a["guard"], sub): continue
            return self.ev(a["body"], sub, hint)
        raise Infeasible() if not self.ctx.possible() else Unsupported("match fell through")

    def e_Matches(self, e, env, hint):
        scr = self.scrut(e["e"], env, e["pat"])
        sub = Env(env, env.fr)
        if self.match(e["pat"], scr, sub) is False: return FALSE
        if e["guard"] is not None: return BoolV(self.cond(e["guard"], sub))
        return TRUE

    def match(self, p, v, env):
        """binds p against v (value, or RefV: then parts are bound by reference); False if it does not match"""
        ctx = self.ctx
        k = p["p"]
        if k == "Wild" or k == "Rest": return True
        if k == "Ident":
            if not p["sub"] and not p["ref"] and not p["mut"]:
                # a constant or unit variant imported by name
                canon = self.prog.resolve([p["id"]], env.fr.mod)
                o, _, vn = canon.rpartition("::")
                if canon == "Option::None" or o in self.prog.enums:
                    return self.match({"p": "Path", "path": [{"id": p["id"], "args": None}]}, v, env)
                if canon in self.prog.consts:
                    return ctx.decide(self.equal(self.path_value({"path": [{"id": p["id"], "args": None}]}, env, None), v))
            if p["sub"]:
                if self.match(p["sub"], v, env) is False: return False
            env.vars[p["id"]] = Cell(v, None, p["id"])
            return True
        if k == "Ref": return self.match(p["e"], ctx.deref(v), env)
        if k == "Type": return self.match(p["e"], v, env)
        if k == "Or":
            for q in p["e"]:
                if self.match(q, v, env) is not False: return True
            return False
        if k == "Lit":
            a = ctx.deref(v)
            lit = self.ev(p["e"], env, self.tyof(a))
            return ctx.decide(ctx.eq(a, lit))
        if k == "Range":
            a = ctx.deref(v)
            c = []
            if p["a"] is not None: c.append(self.ctx.deref(self.ev(p["a"], env)).t <= a.t)
            if p["b"] is not None:
                b = self.ctx.deref(self.ev(p["b"], env)).t
                c.append(a.t <= b if p["incl"] else a.t < b)
            return ctx.decide(z3.And(c))
        def sub(path_elem, val):
            return RefV(v.cell, list(v.path) + [path_elem]) if isinstance(v, RefV) else val
        if isinstance(v, RefV):
            while isinstance(ctx.load(v), RefV): v = ctx.load(v)
        a = ctx.deref(v)
        if deferred(a): a = self.force(a)
        if k == "Tuple":
            if not isinstance(a, TupleV): fail("tuple pattern")
            es = p["e"]
            if any(x["p"] == "Rest" for x in es):
                i = [x["p"] for x in es].index("Rest")
                pairs = list(enumerate(es[:i])) + [(len(a.e) - len(es) + 1 + i + j, x) for j, x in enumerate(es[i + 1:])]
            else: pairs = list(enumerate(es))
            for i, x in pairs:
                if self.match(x, sub(("f", str(i)), a.e[i]), env) is False: return False
            return True
        if k == "Slice": return self.lib.match_slice(p, v, a, env)
        if k in ("Path", "TupleStruct", "Struct"):
            if p.get("qself"): fail("qualified pattern")
            segs = [s["id"] for s in p["path"]]
            if isinstance(a, StructV):
                fl = p["f"] if k == "Struct" else [(str(i), x) for i, x in enumerate(p.get("e", []))]
                for n, x in fl:
                    if isinstance(x, dict) and x.get("p") == "Rest": continue
                    if n not in a.f: fail(f"pattern field {n}")
                    if self.match(x, sub(("f", n), a.f[n]), env) is False: return False
                return True
            if isinstance(a, EnumV):
                vn = segs[-1]
                vs = ctx.variants(a.ty)
                if k == "Path" and vn not in [n for n, _ in vs]:
                    c = self.path_value(p, env, None)
                    return ctx.decide(self.equal(c, a))
                i = ctx.vidx(a.ty, vn)
                if not ctx.decide(ctx.tagt(a) == i): return False
                if k == "Path": return True
                pay = a.pay(i)
                if k == "Struct": fl = p["f"]
                else:
                    names = [f for f, _ in vs[i][1]]
                    es = p["e"]
                    if any(x["p"] == "Rest" for x in es): fl = [(n, x) for n, x in zip(names, es[:[y["p"] for y in es].index("Rest")])]
                    else: fl = list(zip(names, es))
                for n, x in fl:
                    if self.match(x, sub(("var", i, n), pay.get(n)), env) is False: return False
                return True
            if isinstance(a, (ObjV, OpV)): return self.lib.match_obj(p, a, env)
            if k == "Path":
                c = self.path_value(p, env, None)
                return ctx.decide(self.equal(c, a))
            fail(f"pattern {segs} against {a!r}"[:200])
        fail(f"pattern {k}")

    def e_Return(self, e, env, hint):
        v = self.ev(e["e"], env, env.fr.ret) if e["e"] is not None else UNITV
        raise Return(v)
    def e_Break(self, e, env, hint):
        raise Break(e["label"], self.ev(e["e"], env) if e["e"] is not None else UNITV)
    def e_Continue(self, e, env, hint): raise Continue(e["label"])

    def e_Loop(self, e, env, hint):
        """one arbitrary iteration: sound when no variable outside the loop is changed by an iteration
        that goes round (checked); the surroundings (clock, shared memory, environment) are re-chosen"""
        ctx = self.ctx
        self.later()
        for it in range(12):
            mark = len(ctx.undo)
            try:
                self.block(e["b"], env)
            except Break as b:
                if b.label is None or b.label == e["label"]: return b.v
                raise
            except Continue as c:
                if not (c.label is None or c.label == e["label"]): raise
            changed = [u for u in ctx.undo[mark:] if u[0] == "cell" and self.owned_outside(u[1], env)]
            if not changed:
                raise IterEnd()
        raise Budget("loop with changing state")

    def later(self):
        """an arbitrary round of a loop starts some time after the loop was entered"""
        ctx = self.ctx
        if ctx.notes.get("stream_loop") and not ctx.nested() and not any(e[0] in ("sleep", "timeout", "select", "recv", "tick", "sql", "table") for e in ctx.trace):
            ctx.notes["round"] = ctx.advance()

    def owned_outside(self, cell, env):
        e = env
        while e is not None:
            if any(c is cell for c in e.vars.values()): return True
            e = e.up
        return False

    def e_While(self, e, env, hint):
        ctx = self.ctx
        c = e["c"]
        if c["k"] == "LetCond" and c["pat"]["p"] == "TupleStruct" and c["pat"]["path"][-1]["id"] == "Some" and c["e"]["k"] == "MCall" and c["e"]["m"] == "next" and not c["e"]["args"] and c["e"]["e"]["k"] == "Path" and len(c["e"]["e"]["path"]) == 1:
            v = env.get(c["e"]["e"]["path"][0]["id"])
            name = c["e"]["e"]["path"][0]["id"]
            if v is not None and isinstance(v.v, SeqV) and v.v.kind == "iter" and any(isinstance(p, Seg) for p in ctx.norm(v.v).parts if v.v.order is None) and not self.mentioned(name, e["b"]) and c["pat"]["e"][0]["p"] != "Rest":
                # every element in order: what is left of the iterator afterwards is not followed
                seq = v.v
                ctx.setcell(v, ObjV("Spent"))
                return self.each(seq, c["pat"]["e"][0], e, env)
        self.later()
        for it in range(64):
            sub = Env(env, env.fr)
            mark = len(ctx.undo)
            if not self.cond(e["c"], sub): return UNITV
            try:
                self.block(e["b"], sub)
            except Break as b:
                if b.label is None or b.label == e["label"]: return UNITV
                raise
            except Continue as c:
                if not (c.label is None or c.label == e["label"]): raise
            if ctx.notes.get("stream_loop") and not [u for u in ctx.undo[mark:] if u[0] == "cell" and self.owned_outside(u[1], env)]:
                raise IterEnd()
        raise Budget("while loop without bound")

    def mentioned(self, name, node):
        if isinstance(node, list): return any(self.mentioned(name, x) for x in node)
        if not isinstance(node, dict): return False
        if node.get("k") == "Path" and node["path"][0]["id"] == name: return True
        return any(self.mentioned(name, x) for x in node.values() if isinstance(x, (dict, list)))

    def each_retain(self, it, pat, e, env):
        """for x in xs { ys.retain(|y| p(x, y)) } is ys.retain(|y| xs.all(|x| p(x, y))), in whatever order"""
        b = [s for s in e["b"] if s.get("s") != "Empty"]
        if len(b) != 1 or b[0].get("s") != "Expr": return None
        c = b[0]["e"]
        if c["k"] != "MCall" or c["m"] != "retain" or len(c["args"]) != 1 or c["args"][0]["k"] != "Closure" or c["e"]["k"] not in ("Path", "Field"): return None
        if not isinstance(it, SeqV) or not any(isinstance(p, Seg) for p in (self.ctx.norm(it) if it.order is None else it).parts): return None
        x = c["e"]
        while x["k"] == "Field": x = x["e"]
        if x["k"] != "Path" or f"'id': '{x['path'][0]['id']}'" in str(pat): return None
        seq = SeqV(it.parts, it.ety, None, "iter")
        def keep(args, hint=None):
            def bad(x):
                sub = Env(env, env.fr)
                if self.match(pat, x, sub) is False: fail("for pattern")
                return BoolV(z3.Not(self.ctx.deref(self.apply(self.ev(c["args"][0], sub), args)).t))
            return BoolV(z3.Not(self.ctx.exists(seq, bad).t))
        sub = Env(env, env.fr)
        sub.vars["keep of a loop"] = Cell(FnV(keep))
        self.ev({"k": "MCall", "l": c["l"], "m": "retain", "targs": None, "e": c["e"], "args": [{"k": "Path", "l": c["l"], "qself": None, "path": [{"id": "keep of a loop", "args": None}]}]}, sub)
        return UNITV

    def e_For(self, e, env, hint):
        return self.each(self.lib.into_iter(self.ev(e["e"], env)), e["pat"], e, env)

    def each(self, it, pat, e, env):
        r = self.each_retain(it, pat, e, env)
        if r is not None: return r
        def body(x):
            sub = Env(env, env.fr)
            if self.match(pat, x, sub) is False: fail("for pattern")
            self.block(e["b"], sub)
            return UNITV
        try:
            self.lib.foreach(it, body, label=e["label"])
        except Break as b:
            if b.label is None or b.label == e["label"]: return UNITV
            raise
        return UNITV

    def e_Closure(self, e, env, hint):
        cap = env
        def fn(args, hint=None, targs=None):
            sub = Env(cap, cap.fr)
            for p, a in zip(e["in"], args):
                ty = None
                if p["p"] == "Type":
                    ty = self.ty(p["ty"], env.fr); p = p["e"]
                    a = self.coerce(a, ty)
                if self.match(p, a, sub) is False: fail("closure pattern")
                if ty is not None and p["p"] == "Ident": sub.vars[p["id"]].ty = ty
            out = self.prog.ty(e["out"], env.fr.mod, env.fr.ty) if e["out"] is not None else None
            fr = Fr(env.fr.mod, env.fr.ty, out, env.fr.fi)
            sub.fr = fr
            def run(h=None):
                mark = len(self.tmpguards)
                try:
                    v = self.ev(e["body"], sub, out or hint)
                except Return as r: v = r.v
                finally:
                    for g in self.tmpguards[mark:]: self.release(g)
                    del self.tmpguards[mark:]
                return self.coerce(v, out) if out is not None else v
            if e["async"]: return FutV(run, "async closure")
            return run()
        return FnV(fn, "closure", e)

    def e_Try(self, e, env, hint):
        ctx = self.ctx
        v = self.val(e["e"], env, None if hint is None else Ty("Result", (hint, UNK)))
        v = self.force_res(v, hint)
        if not isinstance(v, EnumV): fail(f"? on {v!r}"[:160])
        if v.ty.n == "Option":
            if ctx.decide(ctx.tagt(v) == 1): return v.pay(1)["0"]
            raise Return(ctx.none())
        if v.ty.n == "Result":
            if ctx.decide(ctx.tagt(v) == 0): return v.pay(0)["0"]
            err = v.pay(1)["0"]
            ret = env.fr.ret
            if ret is not None and ret.n == "Result" and len(ret.a) > 1 and ret.a[1] != UNK:
                err = self.lib.convert(err, ret.a[1], False)
            raise Return(ctx.err(err, UNK, self.tyof(err)))
        fail("? operand")

    def force_res(self, v, hint):
        if deferred(v): return self.ctx.deref(v.d["to"](Ty("Result", (hint if hint is not None else UNK, UNK))))
        return v

    def e_Macro(self, e, env, hint): return self.lib.macro(e, env, hint)
    def e_Select(self, e, env, hint): return self.lib.select_macro(e, env, hint)
    def e_StreamMac(self, e, env, hint): return ObjV("stream!", run=lambda: self.block(e["b"], env), env=env, node=e)
    def e_Yield(self, e, env, hint):
        v = self.ev(e["e"], env) if e["e"] is not None else UNITV
        self.ctx.emit(("yield", v))
        return UNITV


OPTY = {}

def parse_kind(k):
    """OpV kinds are repr(Ty) of parameters, associated and dyn types"""
    if k in OPTY: return OPTY[k]
    if k.startswith("param<") or k.startswith("assoc<") or k.startswith("dyn<"):
        pos = 0
        def go(i):
            j = i
            while j < len(k) and k[j] not in "<>,": j += 1
            n = k[i:j]; args = []
            if j < len(k) and k[j] == "<":
                j += 1
                while True:
                    a, j = go(j)
                    args.append(a)
                    if k[j] == ",": j += 1; continue
                    if k[j] == ">": j += 1; break
            return Ty(n, args), j
        t, _ = go(0)
    else:
        t = Ty(k)
    OPTY[k] = t
    return t
