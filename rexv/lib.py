"""Contracts of library functions (std, chrono, tokio, futures, serde_json, sqlx, ...), assumed.
Every entry used is counted in stats.assumed and reported as part of the trusted base."""
import z3
from .program import *
from .values import *
from .ctx import *

I = z3.IntSort()
F = lambda n, *s: z3.Function(n, *s)
POW = F("pow", I, I, I)
ENC = F("serde_encode", I, I); ENC_OK = F("serde_encodes", I, z3.BoolSort())
DEC = F("serde_decode", I, I); DEC_OK = F("serde_decodes", I, z3.BoolSort())
HASH = F("hash64", I, I); HSTEP = F("hash_step", I, I, I); HFIN = F("hash_finish", I, I)
SHOW = F("display", I, I); SHOWD = F("debug", I, I)
NSUNIT = {"nanoseconds": 1, "microseconds": 10**3, "milliseconds": 10**6, "seconds": NS, "minutes": 60 * NS,
          "hours": 3600 * NS, "days": 86400 * NS, "weeks": 7 * 86400 * NS}
DURUNIT = {"from_nanos": 1, "from_micros": 10**3, "from_millis": 10**6, "from_secs": NS, "from_mins": 60 * NS, "from_hours": 3600 * NS}


def fill(t, hint):
    """the type t with its unknown parts taken from hint"""
    if hint is None: return t
    if t == UNK: return hint
    if t.n != hint.n or len(t.a) != len(hint.a): return t
    return Ty(t.n, tuple(fill(x, y) for x, y in zip(t.a, hint.a)))


def tdiv(a, n):
    """truncated division by a positive constant"""
    return z3.If(a >= 0, a / n, -((-a) / n))


STD_TRAITS = ("Ord", "PartialOrd", "Iterator", "AsRef", "AsMut", "Borrow", "BorrowMut", "Deref", "DerefMut", "PartialEq", "Hash", "Hasher", "Add", "Sub", "Mul", "Div", "Neg", "Not",
              "IntoIterator", "DoubleEndedIterator", "ExactSizeIterator", "StreamExt", "FutureExt", "TryStreamExt", "Extend", "Any", "Error", "Row", "Executor", "FromIterator")


class Lib:
    def __init__(self, it):
        self.i = it; self.ctx = it.ctx; self.prog = it.prog
        self.sections = []      # lock acquisitions: dict(lock, mode, pre, post)
        self.on_acquire = None
        self.spawned = []
        self.out_of_range = False   # a TimeDelta beyond TimeDelta::MAX may exist

    def used(self, name):
        a = self.ctx.stats.assumed
        a[name] = a.get(name, 0) + 1

    # ------------------------------------------------------------ terms
    def pack(self, name, ts):
        f = F(f"{name}_{len(ts)}", *([I] * len(ts)), I)
        return f(*ts) if ts else z3.IntVal(abs(hash(name)) % 1000 + 1)

    def term(self, v):
        """an Int term identifying the value up to equality"""
        ctx = self.ctx
        v = ctx.deref(v)
        if isinstance(v, (IntV, StrV, OpV, TimeV)): return v.t
        if isinstance(v, BoolV): return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
        if isinstance(v, RealV): return F("real_id", z3.RealSort(), I)(v.t)
        if isinstance(v, TupleV): return self.pack("tup", [self.term(x) for x in v.e])
        if isinstance(v, StructV):
            return self.pack("struct_" + v.ty.n.split("::")[-1], [self.term(x) for x in v.f.values()])
        if isinstance(v, EnumV):
            if ctx.is_clike(v.ty): return ctx.tagt(v)
            c = v.conc()
            if c is None:
                vs = ctx.variants(v.ty)
                t = None
                for i in range(len(vs)):
                    x = self.pack(f"enum_{v.ty.n.split('::')[-1]}_{vs[i][0]}", [self.term(y) for y in v.pay(i).values()])
                    t = x if t is None else z3.If(ctx.tagt(v) == i, x, t)
                return t
            return self.pack(f"enum_{v.ty.n.split('::')[-1]}_{ctx.variants(v.ty)[c][0]}", [self.term(y) for y in v.pay(c).values()])
        if isinstance(v, SeqV):
            v = ctx.norm(v)
            if len(v.parts) == 1 and isinstance(v.parts[0], Seg) and ctx.plain(v.parts[0]): return v.parts[0].leaf.ident
            if any(isinstance(p, Seg) for p in v.parts): fail("identity of a mapped sequence")
            return self.pack("list", [self.term(p.v) for p in v.parts])
        fail(f"identity of {v!r}"[:200])

    def fmt(self, pat, vs):
        vs = [self.ctx.deref(v) for v in vs]
        if pat == "{}" and len(vs) == 1: return self.to_string(vs[0])
        if not vs: return self.ctx.lit_str(pat.replace("{{", "{").replace("}}", "}"))
        def const(v):
            if isinstance(v, StrV): return v.text
            if isinstance(v, IntV) and z3.is_int_value(z3.simplify(v.t)): return str(z3.simplify(v.t))
            return None
        cs = [const(v) for v in vs]
        if None not in cs and pat.count("{}") == len(cs) and "{:" not in pat:
            out = pat.replace("{{", "\0").replace("}}", "\1").split("{}")
            return self.ctx.lit_str("".join(a + b for a, b in zip(out, cs + [""])).replace("\0", "{").replace("\1", "}"))
        return StrV(self.pack("format:" + pat, [self.term(v) for v in vs]))

    def to_string(self, v):
        v = self.ctx.deref(v)
        if isinstance(v, StrV): return v
        if isinstance(v, ObjV) and "show" in v.d: return v.d["show"]
        if isinstance(v, ObjV): return StrV(self.ctx.const(self.ctx.fresh_name("show"), ("id",)))
        if isinstance(v, (EnumV, StructV)):
            fs = [f for f in self.prog.methods.get((v.ty.n, "fmt"), []) if f.trait and f.trait.split("::")[-1] == "Display"]
            if fs and self.i.active.count(fs[0].qual) == 0:
                f = ObjV("Formatter", buf=[])
                self.i.call(fs[0], [v, f], None, self_ty=v.ty)
                b = f.d["buf"]
                return b[0] if len(b) == 1 else StrV(self.pack("concat", [x.t for x in b]))
        return StrV(SHOW(self.term(v)))

    # ------------------------------------------------------------ numbers and time
    def cast(self, v, t):
        v = self.ctx.deref(v)
        if t.n in INTS:
            lo, hi = INTS[t.n]
            if isinstance(v, BoolV): return IntV(z3.If(v.t, z3.IntVal(1), z3.IntVal(0)), t.n)
            if isinstance(v, EnumV) and self.ctx.is_clike(v.ty): return IntV(self.ctx.tagt(v), t.n)
            if isinstance(v, IntV):
                if v.ty in INTS and INTS[v.ty][0] >= lo and INTS[v.ty][1] <= hi: return IntV(v.t, t.n)
                inr = z3.And(v.t >= lo, v.t <= hi)
                if self.ctx.must(inr): return IntV(v.t, t.n)
                m = hi - lo + 1
                w = (v.t - lo) % m + lo
                return IntV(z3.simplify(w), t.n)
            if isinstance(v, RealV):
                # saturating truncation
                tr = z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t))
                return IntV(z3.If(tr > hi, z3.IntVal(hi), z3.If(tr < lo, z3.IntVal(lo), tr)), t.n)
        if t.n in ("f64", "f32"):
            if isinstance(v, IntV): return RealV(z3.ToReal(v.t))
            if isinstance(v, RealV): return v
        if t == UNK or t.n in ("param", "dyn") or self.i.tyof(v).n == t.n: return v
        fail(f"cast to {t}")

    def td_checked(self, t, what):
        if not self.ctx.decide(z3.And(t >= -TD_MAX, t <= TD_MAX)): raise Panic(f"TimeDelta out of range: {what}")
        return TimeV(z3.simplify(t), "TimeDelta")

    def td_opt(self, t):
        t = z3.simplify(t)
        if self.ctx.decide(z3.And(t >= -TD_MAX, t <= TD_MAX)): return self.ctx.some(TimeV(t, "TimeDelta"), TD)
        return self.ctx.none(TD)

    def td_fits(self, t):
        """chrono: a product is refused only when its seconds leave i64, not already beyond TimeDelta::MAX"""
        t = z3.simplify(t)
        if not self.ctx.decide(z3.And(t >= (1 - 2**63) * NS, t < (2**63 - 1) * NS)): return None
        self.out_of_range = True
        return t

    def td_mul(self, t):
        t = self.td_fits(t)
        return self.ctx.none(TD) if t is None else self.ctx.some(TimeV(t, "TimeDelta"), TD)

    def dt_checked(self, t, what):
        if not self.ctx.decide(z3.And(t >= DT_MIN, t <= DT_MAX)): raise Panic(f"DateTime overflow: {what}")
        return TimeV(z3.simplify(t), "DateTime")

    def time_arith(self, op, a, b):
        self.used("chrono arithmetic")
        ctx = self.ctx
        if isinstance(a, TimeV) and isinstance(b, TimeV):
            k = (a.kind, op, b.kind)
            if k == ("DateTime", "-", "DateTime"): return TimeV(z3.simplify(a.t - b.t), "TimeDelta")
            if a.kind == "DateTime" and b.kind in ("TimeDelta", "Duration"):
                return self.dt_checked(a.t + b.t if op == "+" else a.t - b.t, op)
            if a.kind == "TimeDelta" and b.kind == "TimeDelta":
                return self.td_checked(a.t + b.t if op == "+" else a.t - b.t, op)
            if a.kind == "Duration" and b.kind == "Duration":
                t = a.t + b.t if op == "+" else a.t - b.t
                if not ctx.decide(z3.And(t >= 0, t <= DUR_MAX)): raise Panic("Duration overflow")
                return TimeV(z3.simplify(t), "Duration")
        if isinstance(a, TimeV) and isinstance(b, IntV):
            if op == "*":
                if a.kind == "TimeDelta":
                    t = self.td_fits(a.t * b.t)
                    if t is None: raise Panic("TimeDelta out of range: multiplication")
                    return TimeV(t, "TimeDelta")
                t = a.t * b.t
                if not ctx.decide(z3.And(t >= 0, t <= DUR_MAX)): raise Panic("Duration overflow")
                return TimeV(t, "Duration")
            if op == "/":
                if ctx.decide(b.t == 0): raise Panic("division by zero")
                q = z3.If(z3.And(a.t >= 0), a.t / b.t, -((-a.t) / b.t))
                return TimeV(z3.simplify(q), a.kind)
        fail(f"time arithmetic {a!r} {op} {b!r}"[:160])

    def pow(self, b, e):
        bs, es = z3.simplify(b.t), z3.simplify(e.t)
        if z3.is_int_value(bs) and z3.is_int_value(es) and es.as_long() < 4096: return z3.IntVal(bs.as_long() ** es.as_long())
        t = POW(b.t, e.t)
        ctx = self.ctx
        # facts of exponentiation over the integers
        ctx.assume(z3.And(z3.Implies(e.t == 0, t == 1), z3.Implies(e.t == 1, t == b.t),
                          z3.Implies(z3.And(b.t >= 1, e.t >= 0), t >= 1), z3.Implies(z3.And(b.t >= 1, e.t >= 1), t >= b.t), z3.Implies(b.t >= 0, t >= 0),
                          z3.Implies(z3.And(b.t == 0, e.t >= 1), t == 0), z3.Implies(b.t == 1, t == 1)))
        return t

    # ------------------------------------------------------------ options and results
    def is_(self, v, i): return self.ctx.decide(self.ctx.tagt(v) == i)

    def need(self, v, hint=None):
        return self.ctx.deref(v)

    # ------------------------------------------------------------ conversions
    def convert(self, v, ty, fallible=False, hint=None):
        """From/Into/TryFrom/TryInto conversion of v to ty (for fallible: returns the Result)"""
        ctx = self.ctx; it = self.i
        v = ctx.deref(v)
        if deferred_(v): v = it.coerce(v, ty)
        src = it.tyof(v)
        if ty is None or ty == UNK:
            return ObjV("deferred", to=lambda t: self.convert(v, t, fallible), default=lambda: v)
        if ty.n == "Option" and src.n != "Option": return ctx.some(self.convert(v, ty.a[0]) if ty.a else v, ty.a[0] if ty.a else src)
        if not fallible:
            if src.n == ty.n and ty.n not in ("param",) and (src.n not in self.prog.structs or True):
                ims = [im for im in self.prog.trait_impls.get(("From", ty.n), []) if im.trait_args and it.unify(im.trait_args[0], src, {}) and im.trait_args[0].n == src.n]
                if not ims: return v
            for im in self.prog.trait_impls.get(("From", ty.n), []):
                b = {}
                if im.trait_args and self.src_match(im.trait_args[0], src, b):
                    return it.call(im.fns["from"], [it.coerce(v, im.trait_args[0])], ty, self_ty=ty)
            for im in self.prog.trait_impls.get(("Into", src.n), []):
                if im.trait_args and it.unify(im.trait_args[0], ty, {}):
                    return it.call(im.fns["into"], [v], ty, self_ty=src)
            if ty.n in self.prog.enums:
                e, m = self.prog.enums[ty.n]
                for i, va in enumerate(e["variants"]):
                    for f in va["fields"]["f"]:
                        if any("from" == a or a.startswith("from") for a in f[2]):
                            ft = self.prog.ty(f[1], m, {})
                            if self.src_match(ft, src, {}): return EnumV(ty, i, {i: {f[0]: v}})
        if ty.n in INTS and isinstance(v, IntV):
            lo, hi = INTS[ty.n]
            if fallible:
                if ctx.decide(z3.And(v.t >= lo, v.t <= hi)): return ctx.ok(IntV(v.t, ty.n), ty)
                return ctx.err(ObjV("TryFromIntError"), ty)
            return IntV(v.t, ty.n)
        if ty.n in INTS and isinstance(v, BoolV): return self.cast(v, ty)
        if ty.n == "f64" and isinstance(v, IntV): return RealV(z3.ToReal(v.t))
        if fallible:
            for im in self.prog.trait_impls.get(("TryFrom", ty.n), []):
                if im.trait_args and self.src_match(im.trait_args[0], src, {}):
                    r = it.call(im.fns["try_from"], [v], RES(ty, UNK), self_ty=ty)
                    return ctx.deref(r)
            r = self.convert(v, ty, False)
            return ctx.ok(r, ty)
        if ty.n == "str" and isinstance(v, StrV): return v
        if ty.n in ("param", "impl", "dyn", "assoc"): return v
        if ty.n == "Vec" and isinstance(v, SeqV): return v
        if isinstance(v, (OpV, ObjV)) and src.n == ty.n: return v
        if ty.n == "std::io::Error" or ty.n == "sqlx::Error": return OpV(ctx.const(ctx.fresh_name("conv"), ("id",)), ty.n)
        if isinstance(v, ObjV) and ty.n in ("Json",): return v
        if ty.n in self.prog.structs or ty.n in self.prog.enums: fail(f"no conversion from {src} to {ty}")
        return v

    def src_match(self, pat, src, b):
        if pat.n == "param": return False if src.n in ("param",) else True
        if src.n == "int?": return pat.n in INTS
        if pat.n in ("dyn",): return src.n == "dyn" and pat.a == src.a
        return pat.n == src.n and self.i.unify(pat, src, b)

    def trait_path(self, tr, name, targs, hint, env):
        it = self.i; ctx = self.ctx
        from .interp import IterEnd
        if tr == "Default" and name == "default":
            def dflt(a, hint=None, targs2=None):
                if hint is not None and hint != UNK: return it.default(hint)
                return ObjV("deferred", to=lambda t: it.default(t))
            return FnV(dflt, "Default::default")
        if tr in ("From", "TryFrom") and name in ("from", "try_from"):
            def conv(a, hint=None, targs2=None):
                v = a[0]
                if name == "from":
                    return self.convert(v, hint if hint is not None else None)
                def to(t):
                    if t.n == "Result": return self.convert(v, t.a[0] if t.a else UNK, True)
                    return self.convert(v, t, True)
                if hint is not None and hint.n == "Result" and hint.a and hint.a[0] != UNK: return to(hint)
                return ObjV("deferred", to=to)
            return FnV(conv, f"{tr}::{name}")
        if tr in ("Into", "TryInto"):
            def conv(a, hint=None, targs2=None):
                if targs and targs[0] != UNK:
                    return self.convert(a[0], targs[0], tr == "TryInto")
                if tr == "TryInto":
                    v = a[0]
                    return ObjV("deferred", to=lambda t: self.convert(v, t.a[0] if t.n == "Result" and t.a else t, True))
                return self.convert(a[0], hint)
            return FnV(conv, tr)
        if tr in ("ToString", "Clone", "ToOwned"):
            return FnV(lambda a, hint=None, targs2=None: self.to_string(a[0]) if tr == "ToString" else ctx.deref(a[0]), tr)
        if tr in self.prog.traits:
            d = self.prog.traits[tr][0]
            if name in d["_fns"]:
                def call(a, hint=None, targs2=None):
                    return it.method(ctx.deref(a[0]), a[0] if isinstance(a[0], RefV) else None, name, [], env, hint, [], list(a[1:]))
                return FnV(call, f"{tr}::{name}")
        if tr in STD_TRAITS:
            def call(a, hint=None, targs2=None):
                return it.method(ctx.deref(a[0]), a[0] if isinstance(a[0], RefV) else None, name, [], env, hint, [], list(a[1:]))
            return FnV(call, f"{tr}::{name}")
        fail(f"trait item {tr}::{name}")

    def default(self, t):
        ctx = self.ctx
        n = t.n
        if n in ("std::sync::RwLock", "tokio::sync::RwLock", "std::sync::Mutex", "tokio::sync::Mutex"):
            return LockV(Cell(self.i.default(t.a[0]), t.a[0], "lock"), "lock", n)
        if n.startswith("std::sync::atomic::"): return AtomicV(Cell(IntV(0, "i32") if "Int" in n or "I3" in n else BoolV(False), None, "atomic"), "atomic")
        if n == "std::collections::HashMap": return MapV("empty", t.a[1] if len(t.a) > 1 else UNK)
        if "CancellationToken" in n: return ObjV("CancellationToken", id=ctx.fresh_name("token"))
        if n in ("param", "assoc"): return OpV(ctx.const("default:" + repr(t), ("id",)), repr(t))
        if n == "fxhash::FxHasher64" or n.endswith("Hasher") or "FxHasher" in n: return ObjV("Hasher", st=z3.IntVal(7))
        return None

    # ------------------------------------------------------------ paths
    def path(self, canon, targs, hint, env, e, owner=None):
        ctx = self.ctx; it = self.i
        n = EXT.get(canon, canon)
        parts = canon.split("::")
        last = parts[-1]; own = "::".join(parts[:-1]); o2 = parts[-2] if len(parts) > 1 else ""
        ownb = EXT.get(own, own)
        def fn(f): return FnV(lambda a, hint=None, targs2=None: f([ctx.deref(x) if not isinstance(x, RefV) else x for x in a]), canon)
        D = ctx.deref
        if canon in ("std::io::_eprint", "std::io::_print", "$crate::io::_eprint", "$crate::io::_print"): return fn(lambda a: UNITV)
        if "panicking" in parts[:2] or canon.startswith("$crate::panicking"):
            if o2 == "AssertKind": return ObjV("AssertKind")
            def panics(a): raise Panic("assertion failed")
            return fn(panics)
        if ownb in INTS:
            lo, hi = INTS[ownb]
            if last == "MAX": return IntV(hi, ownb)
            if last == "MIN": return IntV(lo, ownb)
            if last == "from": return fn(lambda a: self.convert(D(a[0]), Ty(ownb)))
            if last == "try_from": return fn(lambda a: self.convert(D(a[0]), Ty(ownb), True))
            if last == "default": return fn(lambda a: IntV(0, ownb))
            if last in ("from_ne_bytes", "from_le_bytes", "from_be_bytes"):
                def f(a):
                    b = D(a[0])
                    if not (isinstance(b, ObjV) and b.kind == "IntBytes" and b.d["order"] == last[5:7]): fail("integer from bytes")
                    return self.cast(b.d["v"], Ty(ownb))
                return fn(f)
            return FnV(lambda a, hint=None, targs2=None: it.method(D(a[0]), None, last, [], env, hint, [], list(a[1:])), canon)
        if ownb == "TimeDelta":
            self.used("chrono::TimeDelta")
            if last in NSUNIT: return fn(lambda a: self.td_checked(D(a[0]).t * NSUNIT[last], last))
            if last.startswith("try_") and last[4:] in NSUNIT: return fn(lambda a: self.td_opt(D(a[0]).t * NSUNIT[last[4:]]))
            if last == "zero": return fn(lambda a: TimeV(0, "TimeDelta"))
            if last == "MAX": return TimeV(TD_MAX, "TimeDelta")
            if last == "MIN": return TimeV(-TD_MAX, "TimeDelta")
            if last in ("max_value",): return fn(lambda a: TimeV(TD_MAX, "TimeDelta"))
            if last == "default": return fn(lambda a: TimeV(0, "TimeDelta"))
            if last == "from_std":
                def f(a):
                    d = D(a[0])
                    return ctx.ok(TimeV(d.t, "TimeDelta"), TD) if ctx.decide(d.t <= TD_MAX) else ctx.err(ObjV("OutOfRange"), TD)
                return fn(f)
            return FnV(lambda a, hint=None, targs2=None: it.method(D(a[0]), None, last, [], env, hint, [], list(a[1:])), canon)
        if ownb == "Duration":
            self.used("std::time::Duration")
            if last in DURUNIT: return fn(lambda a: TimeV(z3.simplify(D(a[0]).t * DURUNIT[last]), "Duration"))
            if last == "ZERO": return TimeV(0, "Duration")
            if last == "MAX": return TimeV(DUR_MAX, "Duration")
            if last == "default": return fn(lambda a: TimeV(0, "Duration"))
            return FnV(lambda a, hint=None, targs2=None: it.method(D(a[0]), None, last, [], env, hint, [], list(a[1:])), canon)
        if ownb == "DateTime":
            if last == "MAX_UTC": return TimeV(DT_MAX, "DateTime")
            if last == "MIN_UTC": return TimeV(DT_MIN, "DateTime")
            if last == "UNIX_EPOCH": return TimeV(0, "DateTime")
            return FnV(lambda a, hint=None, targs2=None: it.method(D(a[0]), None, last, [], env, hint, [], list(a[1:])), canon)
        if canon in ("chrono::Utc::now", "Utc::now"): self.used("clock"); return fn(lambda a: ctx.now())
        if n in ("chrono::Utc", "Utc"): return ObjV("Utc")
        if o2 in ("Box", "Arc", "Rc", "Pin", "Cow") and last in ("new", "pin", "from", "clone", "new_unchecked"):
            return fn(lambda a: a[0])
        if last == "pin" and o2 == "Box": return fn(lambda a: a[0])
        if n in ("Vec::new", "Vec::with_capacity", "Vec::default"):
            return FnV(lambda a, hint=None, targs2=None: SeqV([], hint.a[0] if hint is not None and hint.n == "Vec" and hint.a else UNK), canon)
        if ownb == "Vec" and last == "from": return fn(lambda a: D(a[0]))
        if ownb == "str":
            if last == "new": return fn(lambda a: ctx.lit_str(""))
            if last in ("from", "to_owned", "to_string"): return fn(lambda a: self.to_string(D(a[0])))
            return FnV(lambda a, hint=None, targs2=None: it.method(D(a[0]), None, last, [], env, hint, [], list(a[1:])), canon)
        if ownb in ("Option", "Result"):
            return FnV(lambda a, hint=None, targs2=None: it.method(D(a[0]), a[0] if isinstance(a[0], RefV) else None, last, [], env, hint, [], list(a[1:])), canon)
        if ownb == "Ordering" or o2 == "Ordering" and last in ("Less", "Equal", "Greater"):
            return ctx.enum(Ty("Ordering"), last)
        if "atomic::Ordering" in canon or o2 == "Ordering": return ObjV("MemOrder", o=last)
        if canon in ("std::cmp::Reverse",): return fn(lambda a: ObjV("Reverse", v=a[0]))
        if canon in ("std::cmp::min", "std::cmp::max"):
            return FnV(lambda a, hint=None, targs2=None: it.method(D(a[0]), None, last, [], env, hint, [], list(a[1:])), canon)
        if canon == "drop" or canon.endswith("mem::drop"): return fn(lambda a: self.drop(a[0]))
        if canon.endswith("mem::take"):
            def f(a):
                old = ctx.load(a[0])
                ctx.store(a[0], it.default(it.tyof(old)))
                return old
            return fn(f)
        if canon.endswith("mem::replace"):
            def f(a):
                old = ctx.load(a[0]); ctx.store(a[0], D(a[1])); return old
            return fn(f)
        if canon.endswith("mem::swap"):
            def f(a):
                x, y = ctx.load(a[0]), ctx.load(a[1]); ctx.store(a[0], y); ctx.store(a[1], x); return UNITV
            return fn(f)
        if canon in ("std::convert::identity",): return fn(lambda a: a[0])
        if last == "PhantomData": return UNITV
        if canon.startswith("serde_json::"):
            self.used("serde_json as an uninterpreted partial encoding")
            if last == "to_value": return fn(lambda a: self.encode(D(a[0])))
            if last == "from_value" or last == "from_str":
                def f(a, hint=None, targs2=None):
                    v = D(a[0])
                    t = targs[0] if targs and targs[0] != UNK else (hint.a[0] if hint is not None and hint.n == "Result" and hint.a and hint.a[0] != UNK else None)
                    if t is not None: return self.decode(v, t)
                    return ObjV("deferred", to=lambda ty: self.decode(v, ty.a[0] if ty.n == "Result" and ty.a else ty))
                return FnV(f, canon)
            if canon.endswith("Value::Null"): return OpV(z3.IntVal(999999), "Json")
            if last in ("String", "Bool", "Number"): return fn(lambda a: OpV(self.pack("json_" + last, [self.term(a[0])]), "Json"))
        if canon in ("fxhash::hash64", "fxhash::hash"):
            self.used("fxhash as an uninterpreted deterministic function")
            def f(a):
                h = HASH(self.term(a[0]))
                ctx.assume(z3.And(h >= 0, h <= 2**64 - 1))
                return IntV(h, "u64")
            return fn(f)
        if last in ("default", "new") and ("Hasher" in o2): return fn(lambda a: ObjV("Hasher", st=z3.IntVal(7)))
        if last == "resume_unwind":
            def f(a):
                p = Panic("resumed"); v = D(a[0])
                if isinstance(v, ObjV) and v.kind == "PanicPayload": p.payload = v.d["name"]
                raise p
            return fn(f)
        if canon in ("rand::rng", "rand::thread_rng"): return fn(lambda a: ObjV("Rng"))
        if canon in ("rand::random_range",): return fn(lambda a: self.random_range(a[0]))
        if canon in ("rand::random",): return FnV(lambda a, hint=None, targs2=None: ctx.fresh((targs or [hint])[0], ctx.fresh_name("rand")), canon)
        if canon.startswith("tokio::") or canon.startswith("futures::") or canon.startswith("tokio_util::"):
            return self.async_path(canon, last, o2, targs, hint, env)
        if canon.startswith("sqlx::") or canon.startswith("rexecutor_sqlx") or o2 in ("QueryBuilder", "PgPoolOptions", "PgListener") or last in ("Text",):
            from . import sqllib
            return sqllib.path(self, canon, last, o2, targs, hint, env)
        if canon.startswith("tracing::"): return fn(lambda a: ObjV("Span"))
        if last == "other" and o2 == "Error": return fn(lambda a: OpV(ctx.const(ctx.fresh_name("ioerror"), ("id",)), "std::io::Error"))
        if last == "new" and ("RwLock" in o2 or "Mutex" in o2): return fn(lambda a: LockV(Cell(D(a[0]), None, "lock"), "lock", own))
        if last == "new" and o2.startswith("Atomic"): return fn(lambda a: AtomicV(Cell(D(a[0]), None, "atomic"), "atomic"))
        if last == "new" and o2 in ("HashMap", "BTreeMap"): return fn(lambda a: MapV("empty", UNK))
        if last == "new" and o2 in ("HashSet", "BTreeSet"): return fn(lambda a: SeqV([], UNK))
        if owner is not None and last == "default":
            d = self.default(owner)
            if d is not None: return fn(lambda a: d)
        if canon.startswith("std::iter::") or canon.startswith("core::iter::"):
            if last == "once": return fn(lambda a: SeqV([One(ctx.newnode("once"), a[0])], it.tyof(a[0]), kind="iter"))
            if last == "empty": return fn(lambda a: SeqV([], UNK, kind="iter"))
        if o2 in STD_TRAITS: return self.trait_path(o2, last, targs, hint, env)
        fail(f"path {canon}")

    def drop(self, v):
        for g in self.i.tmpguards:
            if g["ref"] is v: self.i.release(g)
        for g in list(getattr(self, "guards", [])):
            if g["ref"] is v: self.i.release(g)
        return UNITV

    def encode(self, v):
        """serde_json::to_value"""
        ctx = self.ctx
        if isinstance(v, OpV) and v.kind == "Json": return ctx.ok(v, JSON, Ty("serde_json::Error"))
        if isinstance(v, EnumV) and v.ty.n == "Option":
            if self.is_(v, 0): return ctx.ok(OpV(z3.IntVal(999999), "Json"), JSON, Ty("serde_json::Error"))
            return self.encode(ctx.deref(v.pay(1)["0"]))
        t = self.term(v)
        if ctx.decide(ENC_OK(t)): return ctx.ok(OpV(ENC(t), "Json"), JSON, Ty("serde_json::Error"))
        return ctx.err(OpV(ctx.const(ctx.fresh_name("serde_error"), ("id",)), "serde_json::Error"), JSON, Ty("serde_json::Error"))

    def decode(self, v, ty):
        ctx = self.ctx
        if ty.n == "Json": return ctx.ok(v, JSON, Ty("serde_json::Error"))
        t = v.t
        k = repr(ty)
        ok = F("serde_decodes:" + k, I, z3.BoolSort())(t)
        ctx.notes.setdefault("decodes", []).append(ok)
        if ctx.decide(ok):
            d = self.decoded(ty, t, k)
            ctx.notes["decoded"] = ctx.notes.get("decoded", []) + [(ty, d)]
            return ctx.ok(d, ty, Ty("serde_json::Error"))
        return ctx.err(OpV(ctx.const(ctx.fresh_name("serde_error"), ("id",)), "serde_json::Error"), ty, Ty("serde_json::Error"))

    def decoded(self, ty, t, k):
        """the value denoted by the json term t at type ty: every leaf is an uninterpreted function of t"""
        ctx = self.ctx
        if ty.n in ("param", "assoc", "dyn"): return OpV(F("serde_decode:" + k, I, I)(t), repr(ty))
        if ty.n in INTS:
            x = F("serde_decode:" + k, I, I)(t); ctx._constrain(z3.And(x >= INTS[ty.n][0], x <= INTS[ty.n][1])); return IntV(x, ty.n)
        if ty.n == "str": return StrV(F("serde_decode:" + k, I, I)(t))
        if ty.n in ("DateTime", "TimeDelta"): return TimeV(F("serde_decode:" + k, I, I)(t), ty.n)
        if ty.n == "Option":
            tag = F("serde_some:" + k, I, I)(t)
            ctx._constrain(z3.And(tag >= 0, tag <= 1))
            return EnumV(ty, tag, None, lambda i: {} if i == 0 else {"0": self.decoded(ty.a[0], t, k)})
        if ty.n in self.prog.structs:
            return StructV(ty, {f: self.decoded(ft, t, k + "." + f) for f, ft in ctx.struct_fields(ty)})
        vs = ctx.variants(ty)
        if vs is not None:
            tag = F("serde_tag:" + k, I, I)(t)
            ctx._constrain(z3.And(tag >= 0, tag < len(vs)))
            return EnumV(ty, tag, None, lambda i: {f: self.decoded(ft, t, f"{k}.{vs[i][0]}.{f}") for f, ft in vs[i][1]})
        fail(f"decoding {ty}")

    def random_range(self, r):
        ctx = self.ctx
        self.used("rand: any value of the range")
        a, b = ctx.deref(r.a), ctx.deref(r.b)
        if not ctx.decide(a.t <= b.t if r.incl else a.t < b.t): raise Panic("empty range for random_range")
        if isinstance(a, RealV):
            x = ctx.const(ctx.fresh_name("rand"), ("real",))
            ctx.assume(z3.And(x >= a.t, x <= b.t)); return RealV(x)
        ty = a.ty or b.ty or "i64"
        x = ctx.const(ctx.fresh_name("rand"), ("int", INTS[ty][0], INTS[ty][1]))
        ctx.assume(z3.And(x >= a.t, x <= b.t if r.incl else x < b.t))
        return IntV(x, ty)

    # ------------------------------------------------------------ macros
    def macro(self, e, env, hint):
        it = self.i; ctx = self.ctx
        name = e["name"]; last = name.split("::")[-1]
        if last == "format_args":
            # the text when it can be rendered; otherwise an opaque value nothing can be concluded from
            if e["args"] and e["args"][0][1]["k"] == "Str":
                try: return self.macro(dict(e, name="format"), env, hint)
                except Unsupported: pass
            return ObjV("Arguments")
        if last in ("format", "write", "writeln"):
            args = e["args"][1:] if last in ("write", "writeln") else e["args"]
            if not args: return ctx.lit_str("")
            pat = args[0][1]
            if pat["k"] != "Str": fail("format string")
            text = pat["v"]
            vs = []
            named = {n: x for n, x in args[1:] if n}
            pos = [x for n, x in args[1:] if not n]
            import re
            out = ""; pi = 0
            i = 0
            for m in re.finditer(r"\{\{|\}\}|\{([^{}:]*)(:[^{}]*)?\}", text):
                if m.group(0) in ("{{", "}}"): continue
                nm = m.group(1)
                if nm == "":
                    if pi >= len(pos): fail("format arguments")
                    v = it.val(pos[pi], env); pi += 1
                elif nm.isdigit(): v = it.val(pos[int(nm)], env)
                elif nm in named: v = it.val(named[nm], env)
                else:
                    c = env.get(nm)
                    v = ctx.deref(c.v) if c is not None else it.val({"k": "Path", "path": [{"id": nm, "args": None}], "qself": None}, env)
                vs.append(it.force(v))
            pat2 = re.sub(r"\{([^{}:]*)(:[^{}]*)?\}", lambda m: "{" + (m.group(2) or "") + "}", text)
            r = self.fmt(pat2, vs)
            if last == "format": return r
            w = it.val(e["args"][0][1], env)
            if isinstance(w, ObjV) and w.kind == "Formatter": w.d["buf"].append(r)
            return ctx.ok(UNITV)
        if last in ("panic", "unreachable", "todo", "unimplemented"): raise Panic(last)
        if last in ("assert", "debug_assert"):
            if not ctx.decide(it.val(e["args"][0][1], env)): raise Panic("assertion failed")
            return UNITV
        if last in ("assert_eq", "assert_ne", "debug_assert_eq"):
            f = it.equal(it.ev(e["args"][0][1], env), it.ev(e["args"][1][1], env))
            if last == "assert_ne": f = z3.Not(f)
            if not ctx.decide(f): raise Panic("assertion failed")
            return UNITV
        if last in ("query", "query_as", "query_scalar", "query_unchecked", "migrate"):
            from . import sqllib
            return sqllib.macro(self, e, env, hint)
        if last in ("json",): return OpV(ctx.const(ctx.fresh_name("json"), ("id",)), "Json")
        if last in ("concat",):
            return ctx.lit_str("".join(str(x["v"]) for _, x in e["args"]))
        if last in ("join", "try_join"):
            vs = [self.await_(it.ev(x, env)) for _, x in e["args"]]
            return TupleV(vs)
        fail(f"macro {name}")

    # ------------------------------------------------------------ futures
    def await_(self, v, hint=None):
        v = self.ctx.deref(v)
        if isinstance(v, FutV): return v.run(hint)
        if isinstance(v, ObjV) and v.kind == "JoinHandle": return self.join(v)
        if isinstance(v, ObjV) and "await" in v.d: return v.d["await"]()
        fail(f"await of {v!r}"[:160])

    def join(self, h):
        ctx = self.ctx
        h.d["state"]["awaited"] = True
        if "result" in h.d["state"]: return h.d["state"]["result"]
        out = ctx.notes.get("blocking", False)
        ctx.notes["blocking"] = h.d.get("blocking", False)
        try:
            r = ctx.ok(h.d["fut"].run(None), UNK, Ty("tokio::task::JoinError"))
        except Panic as p:
            msg = getattr(p, "payload", None) or ctx.fresh_name("panic")
            ctx.notes["panicname"] = msg
            r = ctx.err(ObjV("JoinError", name=msg, panic=p, show=StrV(ctx.const(msg + ".show", ("id",)))), UNK, Ty("tokio::task::JoinError"))
        finally: ctx.notes["blocking"] = out
        h.d["state"]["ended"] = True
        return r

    def async_path(self, canon, last, o2, targs, hint, env):
        ctx = self.ctx; it = self.i
        D = ctx.deref
        def fn(f): return FnV(lambda a, hint=None, targs2=None: f(a), canon)
        if canon in ("tokio::spawn", "tokio::task::spawn", "tokio::task::spawn_local"):
            self.used("tokio::spawn runs the future to completion, a panic gives a JoinError")
            def f(a):
                h = ObjV("JoinHandle", fut=D(a[0]), state={}, blocking=False)
                self.spawned.append(h)
                return h
            return fn(f)
        if last == "block_in_place":
            def f(a):
                out = ctx.notes.get("blocking", False)
                ctx.notes["blocking"] = True
                try: return it.apply(a[0], [])
                finally: ctx.notes["blocking"] = out
            return fn(f)
        if last == "spawn_blocking":
            self.used("tokio::task::spawn_blocking runs the closure, a panic gives a JoinError")
            def f(a):
                h = ObjV("JoinHandle", fut=FutV(lambda h=None: it.apply(a[0], [])), state={}, blocking=True)
                self.spawned.append(h)
                return h
            return fn(f)
        if canon.endswith("executor::block_on") or last == "block_on": return fn(lambda a: self.await_(a[0]))
        if canon.endswith("time::timeout"):
            self.used("tokio::time::timeout: the result, or Elapsed after the duration")
            def f(a):
                d = D(a[0]); inner = D(a[1])
                iinfo = (inner.info if isinstance(inner, FutV) else None) or {}
                def run(h=None):
                    ctx.notes.setdefault("timeouts", []).append(d)
                    if iinfo.get("kind") == "recv": ctx.emit(("timeout", d, iinfo))
                    if ctx.choose(2, "timeout") == 1:
                        # the inner future runs up to where it waits for something outside this program
                        old = ctx.notes.get("suspend"); ctx.notes["suspend"] = True
                        try: ctx.ok(self.await_(inner)); cut = True
                        except Suspended: cut = False
                        except Panic: cut = True
                        finally: ctx.notes["suspend"] = old
                        if cut: raise Infeasible()
                        ctx.emit(("elapsed", d, iinfo))
                        ctx.advance()
                        return ctx.err(ObjV("Elapsed", name="elapsed"))
                    return ctx.ok(self.await_(inner))
                return FutV(run, "timeout", {"kind": "timeout", "d": d, "inner": iinfo})
            return fn(f)
        if canon.endswith("time::sleep"):
            self.used("tokio::time::sleep")
            def f(a):
                d = D(a[0])
                def run(h=None):
                    ctx.emit(("sleep", d))
                    t0 = ctx.now().t
                    ctx.assume(ctx.advance() >= t0 + d.t)
                    return UNITV
                return FutV(run, "sleep", {"kind": "sleep", "d": d})
            return fn(f)
        if canon.endswith("time::sleep_until"):
            fail("sleep_until")
        if last in ("yield_now",): return fn(lambda a: FutV(lambda h=None: UNITV, "yield_now"))
        if last in ("unbounded_channel",) or last == "channel":
            def f(a):
                n = ctx.fresh_name("chan")
                s = OpV(ctx.const(n, ("id",)), "Sender"); r = ObjV("Receiver", id=n)
                return TupleV([s, r])
            return fn(f)
        if canon.endswith("stream::iter") or (o2 == "stream" and last == "iter"):
            return fn(lambda a: ObjV("Stream", seq=self.into_iter(a[0])))
        if last == "new" and o2 == "CancellationToken": return fn(lambda a: ObjV("CancellationToken", id=ctx.fresh_name("token")))
        if last == "const_new" and o2 == "OnceCell": return fn(lambda a: LockV(Cell(None, None, "once"), "once", "OnceCell"))
        if last == "join_all":
            def f(a):
                seq = self.into_iter(a[0])
                def run(h=None):
                    ctx.emit(("join_all",))
                    out = self.seq_map(seq, lambda x: self.await_(x), effects=True)
                    return SeqV(out.parts, out.ety)
                return FutV(run, "join_all")
            return fn(f)
        if o2 in STD_TRAITS: return self.trait_path(o2, last, targs, hint, env)
        if last == "from_fn" or last == "new": fail(f"path {canon}")
        if canon.startswith("tokio::sync::") and last in ("default",): return fn(lambda a: self.default(Ty("::".join(canon.split("::")[:-1]))))
        fail(f"path {canon}")

    def select_macro(self, e, env, hint):
        it = self.i; ctx = self.ctx
        self.used("tokio::select! completes exactly one branch")
        from .interp import Env
        arms = []
        for a in e["arms"]:
            en = True
            if a["guard"] is not None: en = ctx.decide(it.val(a["guard"], env))
            if en: arms.append((a, ctx.deref(it.ev(a["fut"], env))))
        k = ctx.choose(len(arms), "select")
        ctx.emit(("select", [f.info if isinstance(f, FutV) else {"kind": "?"} for _, f in arms], e.get("biased", False), k))
        a, f = arms[k]
        v = self.await_(f)
        sub = Env(env, env.fr)
        if it.match(a["pat"], v, sub) is False: fail("select pattern refused")
        return it.ev(a["body"], sub, hint)

    def opaque_call(self, t, trait, fi, args, hint):
        """a call on a type parameter: known by the trait's signature only"""
        ctx = self.ctx
        it = self.i
        tr = trait.split("::")[-1]
        pn = t.a[0].n if t.n in ("param", "dyn") else t.n
        te = {p["id"]: Ty("param", (Ty(p["id"]),)) for p in fi.sig["generics"]["params"]}
        te["Self"] = t
        ret = self.prog.ty(fi.sig["out"], fi.module, te) if fi.sig["out"] is not None else UNIT
        pts = [t if p.get("self") else self.prog.ty(p["ty"], fi.module, te) for p in fi.sig["in"]]
        args = [it.coerce(ctx.deref(a) if not isinstance(a, RefV) else ctx.deref(a), p) for a, p in zip(args, pts)]
        hook = ctx.notes.get("opaque")
        self.used(f"{tr}::{fi.name} by signature only")
        def run(h=None):
            n = ctx.fresh_name(f"{tr}.{fi.name}")
            if hook is not None:
                r = hook(it, tr, fi.name, args, ret, n)
                if r is not None: return r
            ctx.emit(("call", tr, fi.name, args, n))
            if ret.n == "dyn" and "Stream" in ret.a[0].n: return ObjV("Stream", source=(fi.name, args), item=RES(Ty("rexecutor::backend::Job"), Ty("rexecutor::backend::BackendError")))
            return ctx.fresh(ret, n)
        if fi.name == "execute" and tr == "Executor":
            def ex(h=None):
                n = ctx.fresh_name("execute")
                ctx.emit(("execute", args[0], n, ctx.notes.get("blocking", False)))
                if ctx.notes.get("suspend"): raise Suspended()
                k = ctx.choose(2, "execute")
                ctx.advance()
                if k == 1:
                    ctx.notes.setdefault("panicked", set()).add(n)
                    raise Panic("executor:" + n)
                return ctx.fresh(ret, n)
            return FutV(ex, "execute", {"execute": args[0]})
        if fi.is_async: return FutV(run, f"{pn}::{fi.name}", {"call": fi.name})
        return run()

    # ------------------------------------------------------------ locks
    def acquire(self, lock, mode):
        ctx = self.ctx; it = self.i
        for g in getattr(self, "guards", []):
            if g["held"] and g["lock"] is lock and not (g["mode"] == "read" and mode == "read"):
                raise Panic("deadlock: lock taken while held")
        if self.on_acquire is not None: self.on_acquire(lock, mode)
        if lock is ctx.notes.get("watch") and ctx.notes.get("stream_loop"): ctx.emit(("table",))
        ref = RefV(lock.cell)
        g = {"ref": ref, "lock": lock, "mode": mode, "held": True, "pre": lock.cell.v, "post": None}
        if not hasattr(self, "guards"): self.guards = []
        self.guards.append(g)
        self.sections.append(g)
        it.tmpguards.append(g)
        ctx.undo.append(("call", lambda: (self.guards.remove(g), self.sections.remove(g))))
        return ref

    def unlock(self, g):
        g["post"] = g["lock"].cell.v

    def finish(self):
        for g in self.sections:
            if g["held"]: g["held"] = False; self.unlock(g)

    # ------------------------------------------------------------ iteration
    def into_iter(self, v):
        ctx = self.ctx
        if isinstance(v, RefV):
            x = ctx.load(v)
            while isinstance(x, RefV): v = x; x = ctx.load(v)
            if isinstance(x, SeqV) and x.kind == "vec": return self.iter_ref(v)
            v = x
        if deferred_(v): v = self.i.force(v)
        if isinstance(v, SeqV): return SeqV(v.parts, v.ety, v.order, "iter")
        if isinstance(v, RangeV): return self.range_iter(v)
        if isinstance(v, EnumV) and v.ty.n == "Option":
            if self.is_(v, 0): return SeqV([], UNK, kind="iter")
            return SeqV([One(ctx.newnode("o"), v.pay(1)["0"])], UNK, kind="iter")
        if isinstance(v, OpV) and isinstance(v.data, SeqV): return v.data
        if isinstance(v, MapV): return self.map_iter(v)
        fail(f"iteration over {v!r}"[:160])

    def indexed(self, seq, pair):
        """the indices of a sequence of any length (with the elements, if asked): those after an unbounded part stand
        for the element they index, nothing else is known about them than that they are not zero"""
        ctx = self.ctx
        if seq.order is not None: fail("indices of a sorted sequence")
        if not ctx.nested() and any(isinstance(p, Seg) for p in ctx.norm(seq).parts): self.first(seq)
        base = self.parts_of(seq)
        parts = []
        n, known = 0, True
        for p in base:
            if isinstance(p, Seg) and not ctx.possible(*(p.leaf.facts + [p.guard])): continue
            node = p.node if isinstance(p, One) else p.leaf
            known = known and isinstance(p, One)
            i = IntV(n, "usize") if known else ObjV("Index", node=node, parts=base, above=n)
            if isinstance(p, One):
                parts.append(One(p.node, TupleV([i, p.v]) if pair else i)); n += 1
            else: parts.append(Seg(p.leaf, p.guard, TupleV([i, p.tmpl]) if pair else i))
        return SeqV(parts, UNK if pair else Ty("usize"), None, "iter")

    def cut(self, seq, n, taken):
        """the first n elements of a sequence of any length, or those after them"""
        return self.parted(seq, n)[0 if taken else 1]

    def parted(self, seq, n):
        """(the first n elements, those after them) of a sequence of any length: all that is known of the elements of
        an unbounded part the cut may go through is that each is on one side"""
        ctx = self.ctx
        ps = list(self.parts_of(seq))
        S = lambda x: SeqV(x, seq.ety, None, "iter")
        lead = 0
        while lead < len(ps) and isinstance(ps[lead], One): lead += 1
        if ctx.decide(n <= lead):
            for j in range(lead + 1):
                if j == lead or ctx.decide(n == j): return S(ps[:j]), S(ps[j:])
        if ctx.decide(self.length(SeqV(ps, seq.ety)).t <= n): return S(ps), S([])
        out = ps[:lead], []
        tag = ctx.fresh_name("cut")
        for p in ps[lead:]:
            if isinstance(p, One): out[1 - ctx.choose(2, tag)].append(p)
            else:
                b = ctx.const(f"{p.leaf.name}.{tag}", ("bool",))
                for o, c in zip(out, (b, z3.Not(b))): o.append(Seg(p.leaf, z3.And(p.guard, c), p.tmpl))
        return S(out[0]), S(out[1])

    def range_iter(self, r):
        ctx = self.ctx
        a, b = ctx.deref(r.a), ctx.deref(r.b)
        x, y = z3.simplify(a.t), z3.simplify(b.t)
        if z3.is_int_value(x) and x.as_long() == 0 and not r.incl and not z3.is_int_value(y):
            for t, seq in ctx.notes.get("lengths", []):
                if t.eq(y): return self.indexed(seq, False)
        if z3.is_int_value(x):
            lo = x.as_long(); ty = a.ty or b.ty
            out = []
            for k in range(40):
                if not ctx.decide(lo + k <= b.t if r.incl else lo + k < b.t):
                    return SeqV([One(ctx.newnode("r"), IntV(lo + j, ty)) for j in range(k)], Ty(ty or "int?"), kind="iter")
        raise Budget("range iteration")

    def iter_ref(self, ref):
        """iterator of references into the sequence at ref (iter_mut)"""
        ctx = self.ctx
        v = ctx.load(ref)
        v = ctx.norm(v)
        if v.order is not None: fail("iter_mut over a sorted sequence")
        parts = []
        if any(isinstance(p, One) and isinstance(p.v, RefV) or isinstance(p, Seg) and isinstance(p.tmpl, RefV) for p in v.parts):
            return SeqV(v.parts, v.ety, v.order, "iter")
        for p in v.parts:
            if isinstance(p, One): parts.append(One(p.node, RefV(ref.cell, list(ref.path) + [("node", p.node)])))
            else: parts.append(Seg(p.leaf, p.guard, RefV(ref.cell, list(ref.path) + [("node", p.leaf)])))
        return SeqV(parts, v.ety, None, "iter")

    def seg_run(self, p, fn):
        return self.ctx.summarise(lambda: fn(p.tmpl), list(p.leaf.facts) + [p.guard], p.leaf.g)

    def seq_map(self, seq, fn, effects=False):
        ctx = self.ctx
        seq = ctx.norm(seq) if seq.order is None else seq
        parts = []
        for p in seq.parts:
            if isinstance(p, One): parts.append(One(p.node, fn(p.v)))
            else:
                outs = self.seg_run(p, fn)
                for o in outs:
                    if o.kind == "panic": fail("mapping may panic: " + o.value.msg)
                    if o.kind != "val": fail("control flow in map")
                    if o.events and not effects: fail("effects in map")
                    if o.writes: fail("writes in map")
                if effects: self.emit_each(p, outs)
                if not outs: continue
                parts.append(Seg(p.leaf, p.guard, ctx.merged(outs)))
        ety = UNK
        for p in parts:
            ety = self.i.tyof(p.v if isinstance(p, One) else p.tmpl)
            break
        def order(a, b): fail("order of a mapped sorted sequence")
        return SeqV(parts, ety, None if seq.order is None else order, "iter")

    def emit_each(self, p, outs):
        for o in outs:
            if o.events: self.ctx.emit(("foreach", p.leaf, z3.simplify(z3.And(p.guard, o.cond)), o.events))

    def seq_filter(self, seq, fn):
        ctx = self.ctx
        seq = ctx.norm(seq) if seq.order is None else seq
        parts = []
        for p in seq.parts:
            if isinstance(p, One):
                if ctx.decide(ctx.deref(fn(p.v))): parts.append(p)
            else:
                q = ctx.seg_formula(p, fn)
                parts.append(Seg(p.leaf, z3.simplify(z3.And(p.guard, q)), p.tmpl))
        return SeqV(parts, seq.ety, seq.order, "iter")

    def seq_filter_map(self, seq, fn):
        ctx = self.ctx
        seq = ctx.norm(seq)
        parts = []
        for p in seq.parts:
            if isinstance(p, One):
                r = ctx.deref(fn(p.v))
                if self.is_(r, 1): parts.append(One(p.node, r.pay(1)["0"]))
            else:
                outs = self.seg_run(p, fn)
                sel = []
                for o in outs:
                    if o.kind != "val" or o.events or o.writes: fail("effects in filter_map")
                    r = ctx.deref(o.value)
                    c = r.conc()
                    if c == 0: continue
                    cond = o.cond if c == 1 else z3.And(o.cond, ctx.tagt(r) == 1)
                    sel.append((cond, r.pay(1)["0"]))
                if sel:
                    parts.append(Seg(p.leaf, z3.simplify(z3.And(p.guard, z3.Or([c for c, _ in sel]))), ctx.merge(sel)))
        ety = UNK
        for p in parts:
            ety = self.i.tyof(p.v if isinstance(p, One) else p.tmpl); break
        return SeqV(parts, ety, None, "iter")

    def foreach(self, seq, body, label=None):
        """run body for every element in order"""
        ctx = self.ctx
        self.depth = getattr(self, "depth", 0) + 1
        if self.depth > 40: fail("loop exit depends on more than the elements")
        try: return self.foreach_(seq, body, label)
        finally: self.depth -= 1

    def foreach_(self, seq, body, label):
        ctx = self.ctx
        todo = list((ctx.norm(seq) if seq.order is None else fail("iteration over a sorted sequence")).parts)
        while todo:
            p = todo.pop(0)
            if isinstance(p, Seg) and p.leaf.kids is not None:
                todo = ctx.expand(p) + todo; continue
            if isinstance(p, One):
                try: body(p.v)
                except Continue as c:
                    if c.label is not None and c.label != label: raise
                continue
            if not ctx.possible(*(p.leaf.facts + [p.guard])): continue
            if not ctx.nested() and self.flagged(p, body):
                # the first iteration is special: take it out, then the flag stays as it is
                if self.first(SeqV([p])) is not None: todo = ctx.expand(p) + todo
                continue
            outs, carried = self.carried(p, body)
            outs = [o for o in outs if ctx.possible(*(p.leaf.facts + [p.guard, o.cond]))]
            for o in outs:
                if o.kind == "cont" and (o.value.label is None or o.value.label == label): o.kind = "val"
            exits = [o for o in outs if o.kind != "val"]
            if exits:
                go = [o for o in outs if o.kind == "val"]
                eff = any(o.events or o.writes for o in go)
                if ctx.nested(): fail("search inside an abstracted loop body")
                q = z3.simplify(z3.Or([o.cond for o in exits]))
                if any(ctx.mentions(q, a.decl().name()) for a in carried.values()): fail("loop exit depends on earlier iterations")
                e = ctx.const(ctx.fresh_name("exit." + p.leaf.name), ("bool",))
                if ctx.decide(e):
                    x = ctx.refine_first(p, q)
                    if eff:
                        for y in ctx.expand(p):
                            if isinstance(y, One) and y.node is x: break
                            self.foreach(SeqV([y]), body, label)
                    body(ctx.subst(p.tmpl, p.leaf.g, x.name, p.leaf, x))
                    fail("loop exit not taken")
                p.leaf.facts.append(z3.Not(z3.And(p.guard, q)))
                if eff: self.merge_effects(p, go, carried)
                continue
            self.merge_effects(p, outs, carried)

    def flagged(self, p, body):
        """whether the first iteration sets a boolean once and for all, and what an iteration does depends on it"""
        ctx = self.ctx
        n0 = Cell._n
        inside = list(p.leaf.facts) + [p.guard]
        outs = self.seg_run(p, body)
        flags = {}
        for o in outs:
            if o.kind == "panic": return False
            for k, (c, old, val) in o.writes.items():
                if c.n <= n0 and isinstance(old, BoolV): flags[k] = c
        for k, c in flags.items():
            old = z3.simplify(c.v.t)
            if not (z3.is_true(old) or z3.is_false(old)): continue
            new = z3.simplify(z3.Not(old))
            def sets(os, t):
                return all(k in o.writes and not ctx.possible(*(inside + [o.cond, ctx.deref(o.writes[k][2]).t != t])) if o.kind in ("val", "cont") else True for o in os)
            if not sets(outs, new): continue
            mark = len(ctx.undo)
            ctx.setcell(c, BoolV(new))
            try: again = self.seg_run(p, body)
            finally: ctx.rollback(mark)
            keeps = all(k not in o.writes or not ctx.possible(*(inside + [o.cond, ctx.deref(o.writes[k][2]).t != new])) for o in again)
            if keeps and str([o.events for o in outs]) != str([o.events for o in again]): return True
        return False

    def unchanged(self, p, outs, n0):
        """leaves out writes of booleans that do not change them"""
        ctx = self.ctx
        inside = list(p.leaf.facts) + [p.guard]
        for o in outs:
            for k, (c, old, val) in list(o.writes.items()):
                if c.n <= n0 and isinstance(old, BoolV) and isinstance(v := ctx.deref(val), BoolV) and not ctx.possible(*(inside + [o.cond, v.t != old.t])): del o.writes[k]
        return outs

    def carried(self, p, body):
        """the paths of one arbitrary iteration, from arbitrary values of what earlier iterations changed"""
        ctx = self.ctx
        n0 = Cell._n
        outs = self.unchanged(p, self.seg_run(p, body), n0)
        accs, holes, fields = {}, set(), {}
        for _ in range(6):
            new = False
            for o in outs:
                for k, (c, old, val) in o.writes.items():
                    if c.n > n0 or k in accs or k in holes: continue
                    if isinstance(old, BoolV): accs[k] = (c, ctx.const(ctx.fresh_name("acc!"), ("bool",))); new = True
                    elif isinstance(old, StructV):
                        fs = {f for o2 in outs if k in o2.writes and isinstance(o2.writes[k][2], StructV) for f in old.f if o2.writes[k][2].f.get(f) is not old.f[f]}
                        if not all(isinstance(old.f[f], SeqV) and not any(isinstance(q, Seg) and q.leaf is p.leaf for q in ctx.norm(old.f[f]).parts) for f in fs): fail("loop changes a structure")
                        holes.add(k); accs.setdefault("holes", {})[k] = c; fields[k] = fs; new = True
                    elif isinstance(old, SeqV) and not any(isinstance(q, Seg) and q.leaf is p.leaf for q in ctx.norm(old).parts): holes.add(k); accs.setdefault("holes", {})[k] = c; new = True
            if not new: break
            mark = len(ctx.undo)
            for k, x in accs.items():
                if k == "holes": continue
                ctx.setcell(x[0], BoolV(x[1]))
            for k, c in accs.get("holes", {}).items():
                hole = lambda s: SeqV([Hole()], s.ety, None, s.kind)
                ctx.setcell(c, StructV(c.v.ty, {f: hole(x) if f in fields[k] else x for f, x in c.v.f.items()}) if k in fields else hole(c.v))
            try: outs = self.seg_run(p, body)
            except (AttributeError, TypeError): fail("loop reads what earlier iterations built up")
            finally: ctx.rollback(mark)
        else: fail("loop-carried state")
        return outs, {k: x[1] for k, x in accs.items() if k != "holes"}

    def depends(self, x, name, seen=None):
        """whether a value mentions the constant"""
        d = lambda y: self.depends(y, name)
        if z3.is_expr(x): return self.ctx.mentions(x, name)
        if isinstance(x, (list, tuple)): return any(d(y) for y in x)
        if isinstance(x, dict): return any(d(y) for y in x.values())
        if isinstance(x, StructV): return d(x.f)
        if isinstance(x, TupleV): return d(x.e)
        if isinstance(x, EnumV): return (z3.is_expr(x.tag) and d(x.tag)) or d(x._pay)
        if isinstance(x, SeqV): return d(x.parts)
        if isinstance(x, One): return d(x.v)
        if isinstance(x, Seg): return d(x.guard) or d(x.tmpl)
        if isinstance(x, ObjV): return d(x.d)
        if isinstance(x, (IntV, BoolV, StrV, OpV, TimeV, RealV)): return d(x.t)
        return False

    def merge_effects(self, p, outs, carried={}):
        """effect of a loop body on every element of a segment, by templates"""
        ctx = self.ctx
        for k, a in carried.items():
            for o in outs:
                if self.depends(o.events, a.decl().name()): fail("an effect depends on earlier iterations")
        self.emit_each(p, outs)
        cells = {}
        for o in outs:
            for k, (c, old, new) in o.writes.items(): cells.setdefault(k, c)
        for k, c in cells.items():
            old = c.v
            others = [a for j, a in carried.items() if j != k]
            if k in carried:
                ctx.setcell(c, self.merge_flag(p, old, carried[k], [(o.cond, ctx.deref(o.writes[k][2]) if k in o.writes else BoolV(carried[k])) for o in outs], others))
                continue
            for o in outs:
                if k in o.writes and any(self.depends([o.cond, o.writes[k][2]], a.decl().name()) for a in others): fail("loop-carried state")
            vals = [(o.cond, o.writes[k][2] if k in o.writes else old) for o in outs]
            ctx.setcell(c, self.merge_cell(p, old, vals))

    def merge_flag(self, p, old, acc, vals, others):
        """a boolean built up by a loop: whether some, or every, element has a property"""
        ctx = self.ctx
        if not all(isinstance(v, BoolV) for _, v in vals): fail("loop computes a value")
        step = z3.Or([z3.And(c, v.t) for c, v in vals])
        if any(ctx.mentions(step, a.decl().name()) for a in others): fail("loop-carried state")
        t = z3.simplify(z3.substitute(step, (acc, z3.BoolVal(True)))); f = z3.simplify(z3.substitute(step, (acc, z3.BoolVal(False))))
        some = lambda q: ctx.exists(SeqV([p]), lambda v: BoolV(q)).t if ctx.mem_formula(p, q) is None else ctx.mem_formula(p, q)
        inside = p.leaf.facts + [p.guard]
        if not ctx.possible(*(inside + [z3.Not(t)])): return BoolV(z3.simplify(z3.Or(old.t, some(f))))
        if not ctx.possible(*(inside + [f])): return BoolV(z3.simplify(z3.And(old.t, z3.Not(some(z3.simplify(z3.Not(t)))))))
        fail("loop computes a value")

    def merge_cell(self, p, old, vals):
        ctx = self.ctx
        if isinstance(old, SeqV):
            old = ctx.norm(old)
            # appended elements
            app = []
            same = True
            for cond, v in vals:
                v = ctx.norm(v)
                if v is old or v.parts == old.parts: continue
                if len(v.parts) == 1 and isinstance(v.parts[0], Hole): continue
                if len(v.parts) == 2 and isinstance(v.parts[0], Hole) and isinstance(v.parts[1], One): app.append((cond, v.parts[1].v)); continue
                if any(isinstance(x, Hole) for x in v.parts): fail("loop builds a sequence other than by appending")
                if len(v.parts) == len(old.parts) + 1 and v.parts[:-1] == old.parts and isinstance(v.parts[-1], One): app.append((cond, v.parts[-1].v)); continue
                same = False
            if same and app:
                g = z3.simplify(z3.And(p.guard, z3.Or([c for c, _ in app])))
                v = ctx.merge(app)
                return SeqV(list(old.parts) + [Seg(p.leaf, g, v)], old.ety if old.ety != UNK else self.i.tyof(v), None, old.kind)
            # in-place change of the element
            parts = []
            for i, q in enumerate(old.parts):
                if isinstance(q, Seg) and q.leaf is p.leaf:
                    alts = []
                    for cond, v in vals:
                        v = ctx.norm(v)
                        if len(v.parts) != len(old.parts): fail("loop changes a sequence")
                        for j, w in enumerate(v.parts):
                            if j != i and w is not old.parts[j]: fail("loop changes other elements")
                        alts.append((z3.And(p.guard, cond), v.parts[i].tmpl))
                    alts.append((z3.BoolVal(True), q.tmpl))
                    parts.append(Seg(q.leaf, q.guard, ctx.merge(alts)))
                else: parts.append(q)
            return SeqV(parts, old.ety, old.order, old.kind)
        if isinstance(old, StructV) and all(isinstance(v, StructV) for _, v in vals):
            out = {}
            for f, x in old.f.items():
                alts = [(c, v.f[f]) for c, v in vals]
                if all(a is x for _, a in alts): out[f] = x
                elif isinstance(x, SeqV): out[f] = self.merge_cell(p, x, alts)
                else: fail("loop changes a structure")
            return StructV(old.ty, out)
        if isinstance(old, (StructV, TupleV)):
            fail("loop changes a structure")
        fail(f"loop computes a value of {type(old).__name__}")

    # ---- vectors
    def parts_of(self, v): return self.ctx.norm(v).parts if v.order is None else v.parts

    def length(self, seq):
        ctx = self.ctx
        n = 0; terms = []
        for p in self.parts_of(seq):
            if isinstance(p, One): n += 1
            else:
                f = F("count", I, I)
                if ctx.plain(p):
                    c = ctx.const(p.leaf.name + ".len", ("int", 0, 2**63 - 1))
                    if not hasattr(p.leaf, "lenc"):
                        p.leaf.lenc = c
                else:
                    if not ctx.possible(*(p.leaf.facts + [p.guard])): continue
                    c = ctx.const(ctx.fresh_name("count." + p.leaf.name), ("int", 0, 2**63 - 1))
                terms.append(c)
        t = z3.simplify(z3.Sum([z3.IntVal(n)] + terms)) if terms else z3.IntVal(n)
        if terms and isinstance(seq, SeqV) and seq.order is None: ctx.notes.setdefault("lengths", []).append((t, seq))
        return IntV(t, "usize")

    def is_empty(self, seq):
        ctx = self.ctx
        ps = self.parts_of(seq)
        if any(isinstance(p, One) for p in ps): return FALSE
        if not ps: return TRUE
        r = ctx.exists(SeqV(ps), lambda v: TRUE)
        return BoolV(z3.simplify(z3.Not(r.t)))

    def index_node(self, ref, i):
        ctx = self.ctx
        v = ctx.deref(ctx.load(ref))
        if isinstance(v, MapV): fail("indexing a map")
        i = ctx.deref(i)
        if v.order is not None:
            if z3.is_int_value(z3.simplify(i.t)) and z3.simplify(i.t).as_long() == 0:
                r = self.first(v)
                if r is None: raise Panic("index out of bounds")
                return r[0]
            fail("index into a sorted sequence")
        v = ctx.norm(v)
        nd = self.at_position(v, i)
        if nd is not None: return nd
        if z3.is_int_value(z3.simplify(i.t)) and z3.simplify(i.t).as_long() == 0:
            r = self.first(v)
            if r is None: raise Panic("index out of bounds")
            return r[0]
        k = 0
        for p in v.parts:
            if isinstance(p, Seg):
                if ctx.possible(*(p.leaf.facts + [p.guard])): fail("index into an unbounded sequence")
                continue
            if ctx.decide(i.t == k): return p.node
            k += 1
        raise Panic("index out of bounds")

    def first(self, seq, last=False):
        """(node, value) of the first element, or None"""
        ctx = self.ctx
        if seq.order is not None:
            less = seq.order
            return ctx.select(SeqV(seq.parts, seq.ety), less, True) if not last else ctx.select(SeqV(seq.parts, seq.ety), lambda a, b: less(b, a), False)
        ps = list(ctx.norm(seq).parts)
        if last: ps = ps[::-1]
        for p in ps:
            if isinstance(p, One): return p.node, p.v
            if not ctx.possible(*(p.leaf.facts + [p.guard])): continue
            if ctx.nested(): fail("first element inside an abstracted loop body")
            e = ctx.const(p.leaf.name + ".len", ("int", 0, 2**63 - 1)) >= 1 if ctx.plain(p) else ctx.const(ctx.fresh_name("nonempty." + p.leaf.name), ("bool",))
            if ctx.decide(e):
                full = p.guard
                neg = lambda x, en: z3.Not(ctx.subst_term(full, p.leaf.g, en))
                x = ctx.refine(p.leaf, full, before=None if last else neg, after=neg if last else None)
                return x, ctx.subst(p.tmpl, p.leaf.g, x.name, p.leaf, x)
            p.leaf.facts.append(z3.Not(p.guard))
        return None

    def sort(self, v, less):
        """stable sort; on unbounded sequences the order is remembered"""
        ctx = self.ctx
        if v.order is not None: fail("sorting twice")
        v = ctx.norm(v)
        if all(isinstance(p, One) for p in v.parts):
            out = []
            for p in v.parts:
                i = len(out)
                while i > 0 and ctx.decide(less(p.v, out[i - 1].v)): i -= 1
                out.insert(i, p)
            return SeqV(out, v.ety, None, v.kind)
        return SeqV(v.parts, v.ety, less, v.kind)

    def ranked(self, v, k, front):
        """the first k (or all but the first k) elements of a sorted unbounded sequence, through the rank
        of an element in that order"""
        ctx = self.ctx
        if len(v.parts) != 1 or not isinstance(v.parts[0], Seg): fail("part of a sorted sequence")
        p = v.parts[0]
        if p.leaf.kids is not None: fail("part of a refined sorted sequence")
        rs = ctx.notes.setdefault("ranks", [])
        r = next((x for x in rs if x["seg"] is p), None)
        if r is None:
            r = dict(seg=p, less=v.order, name=f".rank{len(rs)}")
            rs.append(r)
        rank = ctx.const(p.leaf.g + r["name"], ("int", 0, 2**62))
        g = rank < k.t if front else rank >= k.t
        return SeqV([Seg(p.leaf, z3.simplify(z3.And(p.guard, g)), p.tmpl)], v.ety, v.order, v.kind)

    def cmp_less(self, f):
        """less(a, b) formula from a comparator closure returning Ordering"""
        ctx = self.ctx; it = self.i
        def less(a, b):
            outs = ctx.summarise(lambda: it.apply(f, [a, b]))
            alts = []
            for o in outs:
                if o.kind != "val": fail("comparator control flow")
                alts.append(z3.And(o.cond, ctx.tagt(ctx.deref(o.value)) == 0))
            return z3.simplify(z3.Or(alts))
        return less

    def key_less(self, f):
        it = self.i; ctx = self.ctx
        def less(a, b):
            ka, kb = it.ordkey(it.apply(f, [a])), it.ordkey(it.apply(f, [b]))
            return z3.simplify(it.lex_lt(ka, kb))
        return less

    def ord_less(self):
        it = self.i
        return lambda a, b: z3.simplify(it.lex_lt(it.ordkey(a), it.ordkey(b)))

    def ordering(self, ka, kb):
        it = self.i
        lt, gt = it.lex_lt(ka, kb), it.lex_lt(kb, ka)
        return EnumV(Ty("Ordering"), z3.simplify(z3.If(lt, z3.IntVal(0), z3.If(gt, z3.IntVal(2), z3.IntVal(1)))), {0: {}, 1: {}, 2: {}})

    def slice(self, v, r):
        ctx = self.ctx
        v = ctx.deref(v)
        if r.a is None and r.b is None: return v
        ps = self.parts_of(v)
        if any(isinstance(p, Seg) for p in ps): fail("slice of an unbounded sequence")
        n = len(ps)
        def pos(x, d):
            if x is None: return d
            x = ctx.deref(x)
            for k in range(n + 1):
                if ctx.decide(x.t == k): return k
            raise Panic("slice index out of range")
        a = pos(r.a, 0); b = pos(r.b, n)
        if r.b is not None and r.incl: b += 1
        if a > b or b > n: raise Panic("slice index out of range")
        return SeqV(ps[a:b], v.ety)

    def match_slice(self, p, v, a, env):
        ctx = self.ctx
        if not isinstance(a, SeqV): fail("slice pattern")
        ps = list(self.parts_of(a))
        es = p["e"]
        isrest = lambda x: x["p"] == "Rest" or (x["p"] == "Ident" and x["sub"] and x["sub"]["p"] == "Rest")
        ri = [i for i, x in enumerate(es) if isrest(x)]
        if any(isinstance(q, Seg) for q in ps):
            if not es: return ctx.decide(self.is_empty(a))
            if len(ri) > 1 or ctx.nested() and len(es) > 1: fail("slice pattern on an unbounded sequence")
            i = ri[0] if ri else len(es)
            found = []
            for x, last in [(x, False) for x in es[:i]] + [(x, True) for x in es[i + 1:][::-1]]:
                b = ctx.norm(a)
                r = self.first(SeqV([q for q in b.parts if not (isinstance(q, One) and any(q.node is n for n in found))], b.ety), last)
                if r is None: return False
                found.append(r[0])
                if self.i.match(x, r[1], env) is False: return False
            b = ctx.norm(a)
            rest = SeqV([q for q in b.parts if not (isinstance(q, One) and any(q.node is n for n in found))], b.ety)
            if not ri: return ctx.decide(self.is_empty(rest))
            if es[i]["p"] == "Ident": env.vars[es[i]["id"]] = Cell(rest)
            return True
        if not ri:
            if len(ps) != len(es): return False
            return all(self.i.match(x, q.v, env) is not False for x, q in zip(es, ps))
        i = ri[0]
        if len(ps) < len(es) - 1: return False
        k = len(es) - 1 - i
        for x, q in zip(es[:i], ps[:i]):
            if self.i.match(x, q.v, env) is False: return False
        for x, q in zip(es[i + 1:], ps[len(ps) - k:] if k else []):
            if self.i.match(x, q.v, env) is False: return False
        if es[i]["p"] == "Ident": env.vars[es[i]["id"]] = Cell(SeqV(ps[i:len(ps) - k], a.ety))
        return True

    def match_obj(self, p, a, env):
        h = a.d.get("match") if isinstance(a, ObjV) else None
        segs = [s["id"] for s in p["path"]]
        if isinstance(a, OpV):
            # variants of an external enum: uninterpreted tag
            if a.kind == "sqlx::Error":
                from . import sqllib
                return sqllib.match_error(self, p, a, env)
            if a.kind == "Json" and segs[-1] == "Null": return self.ctx.decide(a.t == 999999)
        if h is not None: return h(p, env)
        fail(f"pattern {segs} on {a!r}"[:160])

    def obj_field(self, v, f):
        if v.kind == "Row" or v.kind == "Record":
            from . import sqllib
            return sqllib.row_field(self, v, f)
        if f in v.d: return v.d[f]
        fail(f"field {f} of {v.kind}")

    def map_iter(self, m): fail("iteration over a map")

    # ------------------------------------------------------------ method dispatch
    def method(self, v, ref, name, argx, env, hint, targs, args=None):
        ctx = self.ctx; it = self.i
        cache = list(args) if args is not None else [None] * len(argx)
        def A(i, h=None):
            if cache[i] is None: cache[i] = it.ev(argx[i], env, h)
            return cache[i]
        def AV(i, h=None): return ctx.deref(A(i, h))
        def fnarg(i):
            f = A(i)
            return lambda *xs, hint=None: it.apply(f, list(xs), hint)
        n = len(cache)
        if deferred_(v):
            return self.m_deferred(v, name, A, AV, fnarg, n, hint)
        # universal
        if name in ("clone", "to_owned", "cloned", "borrow", "as_ref", "as_mut", "by_ref", "as_deref", "copied", "in_current_span", "instrument", "boxed", "as_slice", "to_vec", "into_boxed_slice", "as_mut_slice", "into_inner_", "fuse") :
            if name == "as_mut" and isinstance(v, EnumV) and ref is not None:
                if v.ty.n == "Option":
                    if self.is_(v, 1): return ctx.some(RefV(ref.cell, list(ref.path) + [("var", 1, "0")]))
                    return ctx.none()
            if name == "as_mut" and ref is not None: return ref
            if isinstance(v, SeqV) and name in ("cloned", "copied"):
                return self.seq_map(v, lambda x: ctx.deref(x))
            if isinstance(v, EnumV) and v.ty.n == "Option" and name in ("cloned", "copied"):
                c = v.conc()
                if c == 1: return ctx.some(ctx.deref(v.pay(1)["0"]), v.ty.a[0] if v.ty.a else UNK)
            if isinstance(v, SeqV) and name == "to_vec": return SeqV(v.parts, v.ety, v.order)
            if name == "clone" and isinstance(v, ObjV) and v.kind == "CancellationToken": return v
            if name == "as_ref" and isinstance(v, LockV): pass
            if name == "by_ref" and ref is not None: return ref
            return v
        if name == "into":
            if hint is not None and hint != UNK: return self.convert(v, hint)
            return ObjV("deferred", to=lambda t: self.convert(v, t), default=lambda: v)
        if name == "try_into":
            if hint is not None and hint.n == "Result" and hint.a and hint.a[0] != UNK: return self.convert(v, hint.a[0], True)
            return ObjV("deferred", to=lambda t: self.convert(v, t.a[0] if t.n == "Result" and t.a else t, True), fallible=True, src=v)
        if name in ("eq", "ne") and n == 1:
            f = it.equal(v, A(0))
            return BoolV(f if name == "eq" else z3.Not(f))
        if name in ("lt", "le", "gt", "ge") and n == 1:
            return it.binop({"lt": "<", "le": "<=", "gt": ">", "ge": ">="}[name], v, AV(0))
        if name in ("cmp", "partial_cmp") and n == 1:
            o = self.ordering(it.ordkey(v), it.ordkey(AV(0)))
            return o if name == "cmp" else ctx.some(o, Ty("Ordering"))
        if name in ("to_string",) and not isinstance(v, ObjV): return self.to_string(v)
        if name == "hash" and n == 1:
            h = A(0)
            cell = h if isinstance(h, RefV) else None
            if cell is None: fail("hash state")
            st = ctx.deref(ctx.load(cell))
            ctx.store(cell, st.with_(st=HSTEP(st.d["st"], self.term(v))))
            return UNITV
        if name in ("min", "max", "clamp") and isinstance(v, (IntV, TimeV, RealV)):
            b = ctx.deref(it.coerce(A(0, it.tyof(v)), it.tyof(v)))
            if name == "clamp":
                c = ctx.deref(A(1, it.tyof(v)))
                if not ctx.decide(z3.Not(it.lex_lt(it.ordkey(c), it.ordkey(b)))): raise Panic("clamp bounds")
                t = z3.If(v.t < b.t, b.t, z3.If(v.t > c.t, c.t, v.t))
            elif name == "min": t = z3.If(v.t <= b.t, v.t, b.t)
            else: t = z3.If(v.t <= b.t, b.t, v.t)
            t = z3.simplify(t)
            if isinstance(v, IntV): return IntV(t, v.ty or b.ty)
            if isinstance(v, TimeV): return TimeV(t, v.kind)
            return RealV(t)
        if name in ("add", "sub", "mul", "div", "rem", "not", "neg") and not isinstance(v, (StructV, EnumV)):
            if name == "not": return BoolV(z3.Not(v.t))
            if name == "neg": return it.arith("-", IntV(0, v.ty), v) if isinstance(v, IntV) else self.td_checked(-v.t, "neg")
            return it.arith({"add": "+", "sub": "-", "mul": "*", "div": "/", "rem": "%"}[name], v, AV(0))
        if name in ("add_assign", "sub_assign"):
            ctx.store(ref, it.arith("+" if name[0] == "a" else "-", v, AV(0))); return UNITV
        for cls, h in ((EnumV, self.m_enum), (SeqV, self.m_seq), (IntV, self.m_int), (TimeV, self.m_time), (StrV, self.m_str),
                       (BoolV, self.m_bool), (RealV, self.m_real), (LockV, self.m_lock), (AtomicV, self.m_atomic),
                       (MapV, self.m_map), (OpV, self.m_op), (ObjV, self.m_obj), (RangeV, self.m_range), (FutV, self.m_fut), (FnV, self.m_fn), (StructV, self.m_struct)):
            if isinstance(v, cls):
                return h(v, ref, name, A, AV, fnarg, n, hint, targs, env)
        return NotImplemented

    def m_struct(self, v, ref, name, A, AV, fnarg, n, hint, targs, env):
        if name in ("deref",): return NotImplemented
        return NotImplemented

    def m_deferred(self, v, name, A, AV, fnarg, n, hint):
        ctx = self.ctx; it = self.i
        if not v.d.get("fallible") and "default" in v.d:
            return self.method(ctx.deref(v.d["default"]()), None, name, [], None, hint, [], [A(i) for i in range(n)])
        if name in ("unwrap", "expect", "unwrap_or_default", "unwrap_or"):
            def to(t):
                r = ctx.deref(v.d["to"](Ty("Result", (t, UNK))))
                return self.method(r, None, name, [], None, t, [], [A(i) for i in range(n)])
            if hint is not None and hint != UNK: return to(hint)
            return ObjV("deferred", to=to)
        if name in ("map_err", "map", "and_then"):
            args = [A(i) for i in range(n)]
            def to(t):
                h = t if t.n == "Result" else Ty("Result", (t, UNK))
                r = ctx.deref(v.d["to"](h))
                return self.method(r, None, name, [], None, h, [], args)
            if name == "map_err": return ObjV("deferred", to=to, fallible=True)
        fail(f"method {name} of an untyped conversion")

    # ---- Option, Result, Ordering
    def m_enum(self, v, ref, name, A, AV, fnarg, n, hint, targs, env):
        ctx = self.ctx; it = self.i
        t = v.ty
        if t.n == "Ordering":
            if name == "then":
                b = AV(0)
                return ctx.ite(ctx.tagt(v) == 1, b, v)
            if name == "then_with":
                if self.is_(v, 1): return it.apply(A(0), [])
                return v
            if name == "reverse": return EnumV(t, z3.simplify(2 - ctx.tagt(v)), {0: {}, 1: {}, 2: {}})
            for nm, f in (("is_lt", lambda x: x == 0), ("is_gt", lambda x: x == 2), ("is_eq", lambda x: x == 1), ("is_le", lambda x: x <= 1), ("is_ge", lambda x: x >= 1), ("is_ne", lambda x: x != 1)):
                if name == nm: return BoolV(f(ctx.tagt(v)))
            return NotImplemented
        opt = t.n == "Option"
        if not opt and t.n != "Result": return NotImplemented
        good, bad = (1, 0) if opt else (0, 1)
        ht = t.a[0] if t.a else UNK
        et = t.a[1] if len(t.a) > 1 else UNK
        isgood = lambda: self.is_(v, good)
        def gv():
            x = v.pay(good)
            if "0" not in x: fail("payload of a value without one")
            return x["0"]
        def ev(): return v.pay(bad)["0"]
        mk = (lambda x: ctx.some(x, it.tyof(x))) if opt else (lambda x: ctx.ok(x, it.tyof(x), et))
        if name in ("is_some", "is_ok"): return BoolV(z3.simplify(ctx.tagt(v) == good))
        if name in ("is_none", "is_err"): return BoolV(z3.simplify(ctx.tagt(v) == bad))
        if name in ("unwrap", "expect"):
            if isgood(): return it.coerce(gv(), hint) if hint else gv()
            raise Panic(f"{name} on {'None' if opt else 'Err'}")
        if name in ("unwrap_err", "expect_err"):
            if not isgood(): return ev()
            raise Panic("unwrap_err on Ok")
        if name == "unwrap_or":
            if isgood(): return gv()
            return it.coerce(A(0, ht), ht)
        if name == "unwrap_or_else":
            if isgood(): return gv()
            return it.apply(A(0), [] if opt else [ev()])
        if name == "unwrap_or_default":
            if isgood(): return gv()
            return it.default(ht if ht != UNK else (hint or UNK))
        if name == "map":
            if isgood():
                h = hint.a[0] if hint is not None and hint.n == t.n and hint.a else None
                return mk(it.apply(A(0), [gv()], h))
            return ctx.none() if opt else EnumV(RES(UNK, et), 1, {1: {"0": ev()}})
        if name == "map_err":
            if isgood(): return v
            x = it.apply(A(0), [ev()])
            return ctx.err(x, ht, it.tyof(x))
        if name in ("map_or",):
            if isgood(): return it.apply(A(1), [gv()])
            return A(0)
        if name == "map_or_else":
            if isgood(): return it.apply(A(1), [gv()])
            return it.apply(A(0), [] if opt else [ev()])
        if name in ("is_some_and", "is_ok_and"):
            if isgood(): return it.apply(A(0), [gv()])
            return FALSE
        if name == "is_none_or":
            if isgood(): return it.apply(A(0), [gv()])
            return TRUE
        if name == "and_then":
            if isgood(): return it.apply(A(0), [gv()], hint)
            return ctx.none() if opt else EnumV(RES(UNK, et), 1, {1: {"0": ev()}})
        if name == "and":
            if isgood(): return A(0)
            return v
        if name == "or":
            if isgood(): return v
            return A(0, t)
        if name == "or_else":
            if isgood(): return v
            return it.apply(A(0), [] if opt else [ev()], hint)
        if name == "xor" and opt:
            b = AV(0)
            if isgood(): return ctx.none() if self.is_(b, 1) else v
            return b
        if name == "filter":
            if isgood() and ctx.decide(ctx.deref(it.apply(A(0), [gv()]))): return v
            return ctx.none()
        if name == "ok":
            return ctx.some(gv(), ht) if isgood() else ctx.none(ht)
        if name == "err":
            return ctx.none(et) if isgood() else ctx.some(ev(), et)
        if name == "ok_or":
            return ctx.ok(gv(), ht) if isgood() else ctx.err(A(0), ht)
        if name == "ok_or_else":
            return ctx.ok(gv(), ht) if isgood() else ctx.err(it.apply(A(0), []), ht)
        if name in ("inspect",):
            if isgood(): it.apply(A(0), [gv()])
            return v
        if name == "inspect_err":
            if not isgood(): it.apply(A(0), [ev()])
            return v
        if name in ("iter", "into_iter"):
            return SeqV([One(ctx.newnode("o"), gv())], ht, kind="iter") if isgood() else SeqV([], ht, kind="iter")
        if name == "iter_mut":
            return SeqV([One(ctx.newnode("o"), RefV(ref.cell, list(ref.path) + [("var", good, "0")]))], ht, kind="iter") if isgood() else SeqV([], ht, kind="iter")
        if name == "flatten":
            if isgood(): return ctx.deref(gv())
            return ctx.none() if opt else v
        if name == "transpose":
            if opt:
                if not isgood(): return ctx.ok(ctx.none())
                x = ctx.deref(gv())
                if self.is_(x, 0): return ctx.ok(ctx.some(x.pay(0)["0"]))
                return ctx.err(x.pay(1)["0"])
            if not isgood(): return ctx.some(v)
            x = ctx.deref(gv())
            return ctx.some(ctx.ok(x.pay(1)["0"])) if self.is_(x, 1) else ctx.none()
        if name == "take" and opt:
            ctx.store(ref, ctx.none(ht)); return v
        if name == "replace" and opt:
            ctx.store(ref, ctx.some(A(0), ht)); return v
        if name == "insert" and opt:
            ctx.store(ref, ctx.some(A(0), ht)); return RefV(ref.cell, list(ref.path) + [("var", 1, "0")])
        if name in ("get_or_insert_with", "get_or_insert") and opt:
            if not isgood(): ctx.store(ref, ctx.some(it.apply(A(0), []) if name.endswith("with") else A(0), ht))
            return RefV(ref.cell, list(ref.path) + [("var", 1, "0")])
        if name == "zip" and opt:
            b = AV(0)
            return ctx.some(TupleV([gv(), b.pay(1)["0"]])) if isgood() and self.is_(b, 1) else ctx.none()
        if name == "as_deref_mut": return v
        return NotImplemented

    # ---- integers
    def m_int(self, v, ref, name, A, AV, fnarg, n, hint, targs, env):
        ctx = self.ctx; it = self.i
        ty = v.ty or (hint.n if hint is not None and hint.n in INTS else None) or "i32"
        lo, hi = INTS[ty]
        T = Ty(ty)
        def b(): return it.coerce(AV(0, T), T)
        def rng(t): return z3.And(t >= lo, t <= hi)
        ops = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y}
        for pre in ("checked_", "saturating_", "wrapping_", "overflowing_"):
            if name.startswith(pre):
                op = name[len(pre):]
                if op in ops: t = ops[op](v.t, b().t)
                elif op == "pow":
                    e = it.coerce(AV(0, Ty("u32")), Ty("u32"))
                    t = self.pow(v, e)
                elif op == "neg": t = -v.t
                elif op == "abs": t = z3.If(v.t < 0, -v.t, v.t)
                elif op in ("div", "rem") and pre == "checked_":
                    d = b()
                    if ctx.decide(d.t == 0): return ctx.none(T)
                    return ctx.some(it.arith("/" if op == "div" else "%", IntV(v.t, ty), d), T)
                else: return NotImplemented
                if pre == "checked_":
                    return ctx.some(IntV(t, ty), T) if ctx.decide(rng(t)) else ctx.none(T)
                if pre == "saturating_": return IntV(z3.simplify(z3.If(t > hi, z3.IntVal(hi), z3.If(t < lo, z3.IntVal(lo), t))), ty)
                w = z3.simplify((t - lo) % (hi - lo + 1) + lo)
                if pre == "wrapping_": return IntV(w, ty)
                return TupleV([IntV(w, ty), BoolV(z3.Not(rng(t)))])
        if name == "pow":
            e = it.coerce(AV(0, Ty("u32")), Ty("u32"))
            return it.int_checked(self.pow(v, e), ty, "multiply with overflow")
        if name == "abs": return it.int_checked(z3.If(v.t < 0, -v.t, v.t), ty, "negate with overflow")
        if name in ("to_ne_bytes", "to_le_bytes", "to_be_bytes"): return ObjV("IntBytes", v=IntV(v.t, ty), order=name[3:5])
        if name in ("cast_signed", "cast_unsigned"): return self.cast(IntV(v.t, ty), Ty(("i" if name == "cast_signed" else "u") + ty[1:]))
        if name == "unsigned_abs": return IntV(z3.If(v.t < 0, -v.t, v.t), {"i8": "u8", "i16": "u16", "i32": "u32", "i64": "u64", "isize": "usize", "i128": "u128"}[ty])
        if name == "signum": return IntV(z3.If(v.t > 0, z3.IntVal(1), z3.If(v.t < 0, z3.IntVal(-1), z3.IntVal(0))), ty)
        if name == "is_positive": return BoolV(v.t > 0)
        if name == "is_negative": return BoolV(v.t < 0)
        if name == "abs_diff":
            d = v.t - b().t
            return IntV(z3.If(d < 0, -d, d), {"i32": "u32", "i64": "u64"}.get(ty, ty))
        if name in ("rem_euclid", "div_euclid"):
            d = b()
            if ctx.decide(d.t == 0): raise Panic("division by zero")
            return IntV(v.t % d.t if name == "rem_euclid" else v.t / d.t, ty)
        return NotImplemented

    def m_bool(self, v, ref, name, A, AV, fnarg, n, hint, targs, env):
        ctx = self.ctx
        if name == "then": return ctx.some(self.i.apply(A(0), [])) if ctx.decide(v) else ctx.none()
        if name == "then_some": return ctx.some(A(0)) if ctx.decide(v) else ctx.none()
        return NotImplemented

    def m_real(self, v, ref, name, A, AV, fnarg, n, hint, targs, env):
        self.used("f64 as mathematical reals")
        if name == "round":
            h = z3.RealVal("1/2")
            return RealV(z3.If(v.t >= 0, z3.ToReal(z3.ToInt(v.t + h)), -z3.ToReal(z3.ToInt(-v.t + h))))
        if name == "floor": return RealV(z3.ToReal(z3.ToInt(v.t)))
        if name == "ceil": return RealV(-z3.ToReal(z3.ToInt(-v.t)))
        if name == "trunc": return RealV(z3.If(v.t >= 0, z3.ToReal(z3.ToInt(v.t)), -z3.ToReal(z3.ToInt(-v.t))))
        if name == "abs": return RealV(z3.If(v.t < 0, -v.t, v.t))
        return NotImplemented

    # ---- time
    def m_time(self, v, ref, name, A, AV, fnarg, n, hint, targs, env):
        ctx = self.ctx; it = self.i
        self.used("chrono / Duration arithmetic")
        k = v.kind
        if k == "TimeDelta":
            u = {"num_nanoseconds": None, "num_microseconds": None, "num_milliseconds": 10**6, "num_seconds": NS, "num_minutes": 60 * NS, "num_hours": 3600 * NS, "num_days": 86400 * NS, "num_weeks": 7 * 86400 * NS}
            if name in u and u[name]:
                q = z3.simplify(tdiv(v.t, u[name]))
                if u[name] < NS and self.out_of_range and not ctx.decide(z3.And(q >= -2**63, q < 2**63)): raise Panic("overflow in num_milliseconds")
                return IntV(q, "i64")
            if name in ("num_nanoseconds", "num_microseconds"):
                q = v.t if name == "num_nanoseconds" else tdiv(v.t, 1000)
                return ctx.some(IntV(q, "i64")) if ctx.decide(z3.And(q >= -2**63, q < 2**63)) else ctx.none()
            if name == "subsec_nanos": return IntV(v.t - tdiv(v.t, NS) * NS, "i32")
            if name == "abs": return TimeV(z3.simplify(z3.If(v.t < 0, -v.t, v.t)), k)
            if name == "is_zero": return BoolV(v.t == 0)
            if name in ("checked_add", "checked_sub"):
                t = z3.simplify(v.t + AV(0).t if name == "checked_add" else v.t - AV(0).t)
                if self.out_of_range and not ctx.decide(z3.And(t >= (1 - 2**63) * NS, t < (2**63 - 1) * NS)): raise Panic("overflow in TimeDelta addition")
                return self.td_opt(t)
            if name == "checked_mul": return self.td_mul(v.t * AV(0, Ty("i32")).t if not deferred_(A(0, Ty("i32"))) else v.t * ctx.deref(it.coerce(A(0), Ty("i32"))).t)
            if name == "checked_div":
                d = AV(0, Ty("i32"))
                if ctx.decide(d.t == 0): return ctx.none(TD)
                return ctx.some(TimeV(z3.If((v.t >= 0) == (d.t > 0), z3.If(v.t >= 0, v.t, -v.t) / z3.If(d.t > 0, d.t, -d.t), -(z3.If(v.t >= 0, v.t, -v.t) / z3.If(d.t > 0, d.t, -d.t))), k), TD)
            if name == "to_std":
                if ctx.decide(v.t >= 0): return ctx.ok(TimeV(v.t, "Duration"), DUR)
                return ctx.err(ObjV("OutOfRangeError"), DUR)
        if k == "DateTime":
            if name in ("to_utc", "with_timezone", "naive_utc", "fixed_offset"): return v
            if name == "checked_add_signed" or name == "checked_sub_signed":
                d = AV(0)
                t = z3.simplify(v.t + d.t if "add" in name else v.t - d.t)
                return ctx.some(TimeV(t, k), DT) if ctx.decide(z3.And(t >= DT_MIN, t <= DT_MAX)) else ctx.none(DT)
            if name == "signed_duration_since": return TimeV(z3.simplify(v.t - AV(0).t), "TimeDelta")
            if name == "timestamp": return IntV(v.t / NS, "i64")
            if name == "timestamp_millis": return IntV(v.t / 10**6, "i64")
            if name == "timestamp_micros": return IntV(v.t / 10**3, "i64")
        if k == "Duration":
            if name == "as_secs": return IntV(v.t / NS, "u64")
            if name == "as_millis": return IntV(v.t / 10**6, "u128")
            if name == "as_nanos": return IntV(v.t, "u128")
            if name == "is_zero": return BoolV(v.t == 0)
            if name in ("saturating_sub",):
                t = v.t - AV(0).t
                return TimeV(z3.simplify(z3.If(t < 0, z3.IntVal(0), t)), k)
            if name == "saturating_add":
                t = v.t + AV(0).t
                return TimeV(z3.simplify(z3.If(t > DUR_MAX, z3.IntVal(DUR_MAX), t)), k)
            if name in ("checked_sub", "checked_add"):
                t = v.t - AV(0).t if "sub" in name else v.t + AV(0).t
                return ctx.some(TimeV(t, k), DUR) if ctx.decide(z3.And(t >= 0, t <= DUR_MAX)) else ctx.none(DUR)
        return NotImplemented

    # ---- strings
    def m_str(self, v, ref, name, A, AV, fnarg, n, hint, targs, env):
        ctx = self.ctx
        if name in ("as_str", "to_owned", "into_string", "deref", "into_boxed_str", "as_bytes", "into_bytes", "chars"): return v
        if name == "is_empty": return BoolV(v.t == ctx.lit_str("").t)
        if name in ("to_lowercase", "to_uppercase", "trim", "to_ascii_lowercase", "to_ascii_uppercase", "trim_end", "trim_start"):
            return StrV(F("str_" + name, I, I)(v.t))
        if name == "eq_ignore_ascii_case":
            lc = F("str_to_ascii_lowercase", I, I)
            return BoolV(lc(v.t) == lc(AV(0).t))
        if name in ("starts_with", "ends_with", "contains"):
            b = AV(0)
            f = F("str_" + name, I, I, z3.BoolSort())
            ctx.assume(z3.Implies(v.t == b.t, f(v.t, b.t)))
            return BoolV(f(v.t, b.t))
        if name == "len": return IntV(F("str_len", I, I)(v.t), "usize")
        if name in ("push_str", "push"):
            ctx.store(ref, self.fmt("concat", [v, AV(0)])); return UNITV
        return NotImplemented

    # ---- sequences and iterators
    def m_seq(self, v, ref, name, A, AV, fnarg, n, hint, targs, env):
        ctx = self.ctx; it = self.i
        parts = lambda: self.parts_of(v)
        isiter = v.kind == "iter"
        def upd(parts_, order=None, ety=None):
            ctx.store(ref, SeqV(parts_, ety or v.ety, order, v.kind))
        if name == "iter" or (name == "into_iter" and not (ref is not None and False)):
            return SeqV(v.parts, v.ety, v.order, "iter")
        if name in ("iter_mut",):
            if any(isinstance(p, One) and isinstance(p.v, RefV) or isinstance(p, Seg) and isinstance(p.tmpl, RefV) for p in v.parts): return SeqV(v.parts, v.ety, v.order, "iter")
            if ref is None: fail("iter_mut of a temporary")
            return self.iter_ref(ref)
        if name in ("drain",):
            r = AV(0)
            if isinstance(r, RangeV) and r.a is None and r.b is None:
                upd([]); return SeqV(v.parts, v.ety, v.order, "iter")
            if isinstance(r, RangeV) and r.a is None and r.b is not None and not r.incl and v.order is None:
                k = ctx.deref(r.b)
                if not ctx.decide(k.t <= self.length(v).t): raise Panic("drain out of range")
                x, y = self.parted(v, k.t)
                upd(list(y.parts)); return x
            if isinstance(r, RangeV) and r.a is not None and r.b is None and v.order is None:
                k = ctx.deref(r.a)
                if not ctx.decide(k.t <= self.length(v).t): raise Panic("drain out of range")
                x, y = self.parted(v, k.t)
                upd(list(x.parts)); return y
            fail("drain range")
        if name == "collect":
            t = fill(targs[0], hint) if targs and targs[0] != UNK else hint
            return self.collect(v, t)
        if name == "push":
            x = A(0, v.ety)
            x = it.coerce(x, v.ety) if v.ety is not None else x
            if v.order is not None: fail("push on a sorted sequence")
            upd(list(parts()) + [One(ctx.newnode("new"), ctx.deref(x) if not isinstance(x, RefV) else x)], None, v.ety if v.ety not in (None, UNK) else it.tyof(x))
            return UNITV
        if name in ("push_back",): return self.m_seq(v, ref, "push", A, AV, fnarg, n, hint, targs, env)
        if name == "insert" and n == 2:
            i = AV(0)
            ps = list(parts())
            if z3.is_int_value(z3.simplify(i.t)) and z3.simplify(i.t).as_long() == 0:
                upd([One(ctx.newnode("new"), it.coerce(A(1, v.ety), v.ety))] + ps); return UNITV
            if any(isinstance(p, Seg) for p in ps): fail("insert at a position")
            for k in range(len(ps) + 1):
                if ctx.decide(i.t == k):
                    ps.insert(k, One(ctx.newnode("new"), it.coerce(A(1, v.ety), v.ety))); upd(ps); return UNITV
            raise Panic("insertion index out of range")
        if name == "insert" and n == 1:
            return self.m_seq(v, ref, "push", A, AV, fnarg, n, hint, targs, env)
        if name in ("extend", "append", "extend_from_slice"):
            o = self.into_iter(A(0, v.ety))
            oo = ctx.norm(o)
            if v.ety not in (None, UNK):
                oo = SeqV([One(p.node, it.coerce(p.v, v.ety)) if isinstance(p, One) else p for p in oo.parts], oo.ety)
                if any(isinstance(p, Seg) and deferred_(p.tmpl) for p in oo.parts):
                    oo = self.seq_map(oo, lambda x: it.coerce(x, v.ety))
            upd(list(parts()) + list(oo.parts))
            return UNITV
        if name == "pop":
            r = self.first(v, last=True)
            if r is None: return ctx.none(v.ety)
            ps = self.parts_of(ctx.deref(ctx.load(ref)))
            upd([p for p in ps if not (isinstance(p, One) and p.node is r[0])])
            return ctx.some(r[1], v.ety)
        if name in ("remove", "swap_remove"):
            i = AV(0)
            nd = self.index_node(ref, i)
            val = [p.v for p in self.parts_of(ctx.deref(ctx.load(ref))) if isinstance(p, One) and p.node is nd][0]
            if name == "swap_remove":
                l = self.first(ctx.deref(ctx.load(ref)), last=True)
                ps = list(self.parts_of(ctx.deref(ctx.load(ref))))
                mv = [p for p in ps if isinstance(p, One) and p.node is l[0]][0]
                if mv.node is not nd:
                    upd([mv if isinstance(p, One) and p.node is nd else p for p in ps if p is not mv])
                    return val
            upd([p for p in self.parts_of(ctx.deref(ctx.load(ref))) if not (isinstance(p, One) and p.node is nd)])
            return val
        if name == "clear": upd([]); return UNITV
        if name in ("truncate", "split_off"):
            ps = list(parts())
            if v.order is not None:
                k = AV(0)
                if name == "truncate":
                    ctx.store(ref, self.ranked(v, k, True)); return UNITV
            if v.order is not None: fail("truncate of a sorted sequence")
            k = AV(0)
            if any(isinstance(p, Seg) for p in ps):
                if name == "split_off" and not ctx.decide(k.t <= self.length(v).t): raise Panic("split_off out of range")
                x, y = self.parted(v, k.t)
                upd(list(x.parts))
                return UNITV if name == "truncate" else SeqV(y.parts, v.ety)
            for j in range(len(ps)):
                if ctx.decide(k.t == j):
                    upd(ps[:j])
                    return UNITV if name == "truncate" else SeqV(ps[j:], v.ety)
            if name == "split_off" and not ctx.decide(k.t == len(ps)): raise Panic("split_off out of range")
            return UNITV if name == "truncate" else SeqV([], v.ety)
        if name in ("retain", "retain_mut"):
            f = fnarg(0)
            if v.order is not None: fail("retain on a sorted sequence")
            r = self.seq_filter(v, f)
            upd(r.parts); return UNITV
        if name in ("sort", "sort_unstable"): upd(self.sort(v, self.ord_less()).parts, None) if all(isinstance(p, One) for p in parts()) else ctx.store(ref, self.sort(v, self.ord_less())); return UNITV
        if name in ("sort_by", "sort_unstable_by"): ctx.store(ref, self.sort(v, self.cmp_less(A(0)))); return UNITV
        if name in ("sort_by_key", "sort_unstable_by_key", "sort_by_cached_key"): ctx.store(ref, self.sort(v, self.key_less(A(0)))); return UNITV
        if name == "reverse":
            if v.order is not None:
                o = v.order
                ctx.store(ref, SeqV(v.parts, v.ety, lambda a, b: o(b, a), v.kind)); return UNITV
            if any(isinstance(p, Seg) for p in parts()): fail("reverse of an unbounded sequence")
            upd(parts()[::-1]); return UNITV
        if name in ("dedup",): fail("dedup")
        if name == "len" or name == "count": return self.length(v)
        if name == "is_empty": return self.is_empty(v)
        if name in ("contains",):
            x = A(0, v.ety)
            x = it.coerce(x, v.ety) if v.ety is not None else x
            x = ctx.deref(x)
            return ctx.exists(v, lambda y: BoolV(it.equal(y, x)))
        if name == "any":
            f = fnarg(0); return ctx.exists(v, lambda y: f(y))
        if name == "all":
            f = fnarg(0)
            r = ctx.exists(v, lambda y: BoolV(z3.Not(ctx.deref(f(y)).t)))
            return BoolV(z3.simplify(z3.Not(r.t)))
        if name == "filter": f = fnarg(0); return self.seq_filter(v, f)
        if name == "map":
            f = fnarg(0)
            return self.seq_map(v, lambda x: f(x))
        if name == "filter_map": f = fnarg(0); return self.seq_filter_map(v, f)
        if name == "flat_map" or name == "flatten":
            ps = []
            for p in parts():
                if isinstance(p, Seg): fail("flat_map over an unbounded sequence")
                x = fnarg(0)(p.v) if name == "flat_map" else p.v
                ps.extend(ctx.norm(self.into_iter(x)).parts)
            return SeqV(ps, UNK, kind="iter")
        if name == "inspect":
            f = fnarg(0)
            self.foreach(v, lambda x: f(x)); return v
        if name in ("for_each",):
            f = fnarg(0)
            self.foreach(v, lambda x: f(x)); return UNITV
        if name == "try_for_each":
            f = fnarg(0)
            class Stop(Exception): pass
            def body(x):
                r = ctx.deref(f(x))
                if self.is_(r, 1 if r.ty.n == "Result" else 0): raise Return(r)
            try: self.foreach(v, body)
            except Return as r: return r.v
            return ctx.ok(UNITV)
        if name in ("find", "position", "find_map"):
            f = fnarg(0)
            if name == "position":
                if any(isinstance(p, Seg) for p in parts()): return self.position(v, f)
                for k, p in enumerate(parts()):
                    if ctx.decide(ctx.deref(f(p.v))): return ctx.some(IntV(k, "usize"))
                return ctx.none(Ty("usize"))
            if name == "find_map":
                r = ctx.find_first(v, lambda x: BoolV(ctx.tagt(ctx.deref(f(x))) == 1))
                return f(r[1]) if r else ctx.none()
            r = ctx.find_first(v, lambda x: f(x))
            return ctx.some(r[1], v.ety) if r else ctx.none(v.ety)
        if name in ("first", "last", "first_mut", "last_mut", "peek"):
            lastp = name.startswith("last")
            r = self.first(v, lastp)
            if r is None: return ctx.none(v.ety)
            val = r[1]
            if name.endswith("_mut") and not isinstance(val, RefV):
                if ref is None: fail("first_mut of a temporary")
                val = RefV(ref.cell, list(ref.path) + [("node", r[0])])
            return ctx.some(val, v.ety)
        if name in ("get", "get_mut"):
            i = AV(0)
            if isinstance(i, RangeV): return ctx.some(self.slice(v, i))
            try: nd = self.index_node(ref if ref is not None else RefV(Cell(v)), i)
            except Panic: return ctx.none(v.ety)
            val = [p.v if isinstance(p, One) else p.tmpl for p in self.parts_of(ctx.deref(ctx.load(ref)) if ref is not None else v) if (p.node if isinstance(p, One) else p.leaf) is nd][0]
            if name == "get_mut" and not isinstance(val, RefV): val = RefV(ref.cell, list(ref.path) + [("node", nd)])
            return ctx.some(val, v.ety)
        if name in ("split_last", "split_first"):
            lastp = name == "split_last"
            r = self.first(v, lastp)
            if r is None: return ctx.none()
            nd, val = r
            ps = self.parts_of(v)
            return ctx.some(TupleV([val, SeqV([p for p in ps if not (isinstance(p, One) and p.node is nd)], v.ety)]))
        if name == "split_at":
            ps = list(parts()); k = AV(0)
            if any(isinstance(p, Seg) for p in ps): fail("split_at")
            for j in range(len(ps) + 1):
                if ctx.decide(k.t == j): return TupleV([SeqV(ps[:j], v.ety), SeqV(ps[j:], v.ety)])
            raise Panic("split_at out of range")
        if name == "next" or name == "next_back":
            if v.order is not None:
                fail("next of a sorted iterator") if ref is not None and False else None
                r = self.first(v, name == "next_back")
                return ctx.some(r[1], v.ety) if r else ctx.none(v.ety)
            if any(isinstance(p, Seg) for p in parts()):
                r = self.first(v, name == "next_back")
                if ref is not None and isinstance(ctx.load(ref), SeqV) and r is not None:
                    ps = self.parts_of(ctx.load(ref))
                    j = [i for i, p in enumerate(ps) if isinstance(p, One) and p.node is r[0]]
                    if j: ctx.store(ref, SeqV(ps[j[0] + 1:] if name == "next" else ps[:j[0]], v.ety, None, "iter"))
                return ctx.some(r[1], v.ety) if r else ctx.none(v.ety)
            ps = parts()
            if not ps: return ctx.none(v.ety)
            if ref is not None and isinstance(ctx.load(ref), SeqV):
                ctx.store(ref, SeqV(ps[1:] if name == "next" else ps[:-1], v.ety, None, "iter"))
            return ctx.some(ps[0].v if name == "next" else ps[-1].v, v.ety)
        if name == "nth":
            ps = list(parts()); k = AV(0)
            if any(isinstance(p, Seg) for p in ps) or v.order is not None:
                if z3.is_int_value(z3.simplify(k.t)) and z3.simplify(k.t).as_long() == 0:
                    r = self.first(v); return ctx.some(r[1], v.ety) if r else ctx.none(v.ety)
                fail("nth")
            for j, p in enumerate(ps):
                if ctx.decide(k.t == j): return ctx.some(p.v, v.ety)
            return ctx.none(v.ety)
        if name in ("skip", "take", "step_by"):
            ps = list(parts()); k = AV(0)
            if v.order is not None and name != "step_by": return self.ranked(v, k, name == "take")
            if any(isinstance(p, Seg) for p in ps) or v.order is not None:
                kk = z3.simplify(k.t)
                if name == "skip" and z3.is_int_value(kk) and kk.as_long() == 0: return v
                if name == "take" and z3.is_int_value(kk) and kk.as_long() == 1:
                    r = self.first(v)
                    return SeqV([One(r[0], r[1])] if r else [], v.ety, kind="iter")
                if name == "step_by" or ctx.nested(): fail(f"{name} on an unbounded sequence")
                return self.cut(v, kk, name == "take")
            if name == "step_by": fail("step_by")
            for j in range(len(ps)):
                if ctx.decide(k.t == j): return SeqV(ps[j:] if name == "skip" else ps[:j], v.ety, None, "iter")
            return SeqV([] if name == "skip" else ps, v.ety, None, "iter")
        if name in ("skip_while", "take_while"):
            ps = list(parts()); f = fnarg(0)
            if any(isinstance(p, Seg) for p in ps): fail(name)
            j = 0
            while j < len(ps) and ctx.decide(ctx.deref(f(ps[j].v))): j += 1
            return SeqV(ps[j:] if name == "skip_while" else ps[:j], v.ety, None, "iter")
        if name == "chain":
            o = self.into_iter(A(0))
            return SeqV(list(parts()) + list(self.parts_of(o)), v.ety, None, "iter")
        if name == "rev":
            if v.order is not None:
                o = v.order
                return SeqV(v.parts, v.ety, lambda a, b: o(b, a), "iter")
            ps = parts()
            if any(isinstance(p, Seg) for p in ps):
                fail("reversed unbounded iteration")
            return SeqV(ps[::-1], v.ety, None, "iter")
        if name == "enumerate":
            ps = parts()
            if any(isinstance(p, Seg) for p in ps): return self.indexed(SeqV(ps, v.ety, v.order), True)
            return SeqV([One(p.node, TupleV([IntV(k, "usize"), p.v])) for k, p in enumerate(ps)], UNK, None, "iter")
        if name == "zip":
            ps = parts(); qs = self.parts_of(self.into_iter(A(0)))
            if any(isinstance(p, Seg) for p in list(ps) + list(qs)): fail("zip on an unbounded sequence")
            return SeqV([One(p.node, TupleV([p.v, q.v])) for p, q in zip(ps, qs)], UNK, None, "iter")
        if name in ("fold", "reduce", "try_fold"):
            ps = parts()
            if any(isinstance(p, Seg) for p in ps): fail("fold on an unbounded sequence")
            if name == "reduce":
                if not ps: return ctx.none(v.ety)
                acc = ps[0].v
                for p in ps[1:]: acc = it.apply(A(0), [acc, p.v])
                return ctx.some(acc)
            acc = A(0)
            for p in ps: acc = it.apply(A(1), [acc, p.v])
            return acc
        if name in ("min", "max", "min_by_key", "max_by_key", "min_by", "max_by"):
            if name.endswith("_key"): less = self.key_less(A(0))
            elif name.endswith("_by"): less = self.cmp_less(A(0))
            else: less = self.ord_less()
            if name.startswith("min"): r = ctx.select(v, less, True)
            else: r = ctx.select(v, lambda a, b: less(b, a), False)
            return ctx.some(r[1], v.ety) if r else ctx.none(v.ety)
        if name in ("sum", "product"):
            ps = parts()
            if any(isinstance(p, Seg) for p in ps): fail("sum on an unbounded sequence")
            acc = IntV(0 if name == "sum" else 1, (targs[0].n if targs and targs[0].n in INTS else None))
            for p in ps: acc = it.arith("+" if name == "sum" else "*", acc, ctx.deref(p.v))
            return acc
        if name in ("partition",):
            f = fnarg(0)
            a = self.seq_filter(v, f); b = self.seq_filter(v, lambda x: BoolV(z3.Not(ctx.deref(f(x)).t)))
            return TupleV([SeqV(a.parts, v.ety), SeqV(b.parts, v.ety)])
        if name == "unzip":
            return TupleV([SeqV(self.seq_map(v, lambda x: ctx.deref(x).e[0]).parts, UNK), SeqV(self.seq_map(v, lambda x: ctx.deref(x).e[1]).parts, UNK)])
        if name in ("peekable", "values_mut", "as_ptr"): return v
        if name in ("sorted", "sorted_by", "sorted_by_key"): fail(name)
        if name == "join" or name == "concat": fail("join of strings")
        if name in ("binary_search", "binary_search_by"): fail(name)
        if name in ("reserve", "shrink_to_fit"): return UNITV
        return NotImplemented

    def position(self, v, f):
        """the index of the first element satisfying f: a constant standing for that element of that sequence"""
        ctx = self.ctx
        r = ctx.find_first(v, lambda x: f(x))
        if r is None: return ctx.none(Ty("usize"))
        ps = ctx.norm(v).parts
        j = [i for i, p in enumerate(ps) if isinstance(p, One) and p.node is r[0]]
        if not j: fail("position in an unbounded sequence")
        if not any(isinstance(p, Seg) for p in ps[:j[0]]): return ctx.some(IntV(j[0], "usize"))
        t = ctx.const(ctx.fresh_name("position"), ("int", 0, 2**63 - 1))
        ctx.notes.setdefault("positions", []).append((t, ps[:j[0]], r[0]))
        return ctx.some(IntV(t, "usize"))

    def at_position(self, v, i):
        """the element a position stands for, if the sequence before it is still the same one"""
        ctx = self.ctx
        if isinstance(i, ObjV) and i.kind == "Index":
            same = lambda a, b: (a.node is b.node if isinstance(b, One) else False) if isinstance(a, One) else isinstance(b, Seg) and a.leaf is b.leaf and a.guard.eq(b.guard)
            now, was = ctx.norm(v).parts, ctx.norm(SeqV(i.d["parts"])).parts
            for a, b in zip(was, now):
                if not same(a, b): break
                if (b.node if isinstance(b, One) else b.leaf) is i.d["node"]:
                    if isinstance(b, Seg) and not ctx.must(b.guard): fail("index into a filtered sequence")
                    return i.d["node"]
            fail("an index into a sequence that has changed")
        for t, pre, node in ctx.notes.get("positions", []):
            if not z3.simplify(i.t).eq(t): continue
            same = lambda a, b: (a.node is b.node if isinstance(b, One) else False) if isinstance(a, One) else isinstance(b, Seg) and a.leaf is b.leaf and a.guard.eq(b.guard)
            now = ctx.norm(v).parts
            was = ctx.norm(SeqV(pre)).parts
            if len(now) > len(was) and all(same(a, b) for a, b in zip(was, now)) and isinstance(now[len(was)], One) and now[len(was)].node is node: return node
            fail("a position in a sequence that has changed")
        return None

    def collect(self, v, t):
        ctx = self.ctx; it = self.i
        if t is None or t == UNK:
            return SeqV(v.parts, v.ety, v.order)
        if t.n == "Vec" or t.n in ("std::collections::HashSet", "std::collections::BTreeSet", "HashSet", "std::collections::VecDeque"):
            et = t.a[0] if t.a else UNK
            if et != UNK and any(deferred_(p.v if isinstance(p, One) else p.tmpl) for p in v.parts):
                v = self.seq_map(v, lambda x: it.coerce(x, et))
            return SeqV(v.parts, et if et != UNK else v.ety, v.order)
        if t.n in ("Result", "Option"):
            inner = t.a[0] if t.a else UNK
            et = inner.a[0] if inner.n == "Vec" and inner.a else UNK
            good = 0 if t.n == "Result" else 1
            def res(x):
                x = ctx.deref(x)
                if deferred_(x): x = ctx.deref(it.coerce(x, Ty("Result", (et, UNK))))
                return x
            v = ctx.norm(v)
            bad = lambda x: BoolV(ctx.tagt(res(x)) != good)
            if any(isinstance(p, Seg) for p in v.parts):
                # element conversions are forked per element: keep the generic outcome set
                r = self.collect_seg(v, res, good, et, t)
                return r
            out = []
            for p in v.parts:
                x = res(p.v)
                if self.is_(x, good): out.append(One(p.node, x.pay(good)["0"]))
                else: return EnumV(t, 1 - good, {1 - good: dict(x.pay(1 - good))})
            return EnumV(Ty(t.n, (VEC(et),) + tuple(t.a[1:])), good, {good: {"0": SeqV(out, et)}})
        if t.n == "str": fail("collect into a string")
        return SeqV(v.parts, v.ety, v.order)

    def collect_seg(self, v, res, good, et, t):
        ctx = self.ctx
        parts = []
        for p in v.parts:
            if isinstance(p, One):
                x = res(p.v)
                if not self.is_(x, good): return EnumV(t, 1 - good, {1 - good: dict(x.pay(1 - good))})
                parts.append(One(p.node, x.pay(good)["0"])); continue
            outs = self.seg_run(p, lambda y: res(y))
            ok = []; bad = []
            for o in outs:
                if o.kind != "val" or o.events or o.writes: fail("effects in a collected conversion")
                x = ctx.deref(o.value)
                c = x.conc()
                if c is None:
                    ok.append((z3.And(o.cond, ctx.tagt(x) == good), x.pay(good).get("0"))); bad.append((z3.And(o.cond, ctx.tagt(x) != good), x))
                elif c == good: ok.append((o.cond, x.pay(good)["0"]))
                else: bad.append((o.cond, x))
            bq = z3.simplify(z3.And(p.guard, z3.Or([c for c, _ in bad]) if bad else z3.BoolVal(False)))
            if bad and ctx.possible(*(p.leaf.facts + [bq])):
                if ctx.nested(): fail("fallible collection inside an abstracted body")
                e = ctx.const(ctx.fresh_name("undecodable." + p.leaf.name), ("bool",))
                if ctx.decide(e):
                    x = ctx.refine_first(p, z3.Or([c for c, _ in bad]))
                    val = res(ctx.subst(p.tmpl, p.leaf.g, x.name, p.leaf, x)) if not deferred_(p.tmpl) else None
                    return EnumV(t, 1 - good, {1 - good: {"0": OpV(ctx.const(ctx.fresh_name("collect_error"), ("id",)), t.a[1].n if len(t.a) > 1 and t.a[1] != UNK else self.i.tyof(ctx.deref(bad[0][1].pay(1 - good)["0"])).n)} if good == 0 else {}})
                p.leaf.facts.append(z3.Not(bq))
            parts.append(Seg(p.leaf, p.guard, ctx.merge(ok) if ok else p.tmpl))
        return EnumV(Ty(t.n, (VEC(et),) + tuple(t.a[1:])), good, {good: {"0": SeqV(parts, et)}})

    # ---- locks, atomics, maps
    def m_lock(self, v, ref, name, A, AV, fnarg, n, hint, targs, env):
        ctx = self.ctx; it = self.i
        if v.kind == "OnceCell":
            self.used("OnceCell: set once")
            if name == "set":
                x = A(0)
                if v.cell.v is None:
                    if ctx.notes.get("once_state") == "set": return ctx.err(ObjV("SetError"))
                    ctx.emit(("once_set", v.name, x)); ctx.setcell(v.cell, x); return ctx.ok(UNITV)
                return ctx.err(ObjV("SetError"))
            if name in ("get",):
                return ctx.none() if v.cell.v is None else ctx.some(v.cell.v)
            if name in ("initialized", "is_initialized"): return BoolV(v.cell.v is not None)
            if name == "get_or_init":
                if v.cell.v is None: ctx.setcell(v.cell, it.apply(A(0), []))
                return v.cell.v
            return NotImplemented
        if name in ("read", "write", "lock"):
            self.used("RwLock: exclusive/shared access; not poisoned")
            mode = "read" if name == "read" else "write"
            if "tokio" in v.kind: return FutV(lambda h=None: self.acquire(v, mode), "lock")
            return ctx.ok(self.acquire(v, mode))
        return NotImplemented

    def m_atomic(self, v, ref, name, A, AV, fnarg, n, hint, targs, env):
        ctx = self.ctx
        cur = v.cell.v
        self.used("atomics: sequentially consistent")
        h = ctx.notes.get("atomic")
        if h is not None:
            r = h(self.i, v, name, [AV(i) for i in range(n)])
            if r is not None: return r
        if name == "load": return cur
        if name == "store": ctx.setcell(v.cell, AV(0)); ctx.emit(("store", v.name, AV(0))); return UNITV
        if name == "swap": ctx.setcell(v.cell, AV(0)); return cur
        if name in ("fetch_add", "fetch_sub"):
            d = AV(0)
            t = cur.t + d.t if name == "fetch_add" else cur.t - d.t
            lo, hi = INTS[cur.ty]
            ctx.setcell(v.cell, IntV(z3.If(t > hi, t - (hi - lo + 1), z3.If(t < lo, t + (hi - lo + 1), t)), cur.ty))
            return cur
        return NotImplemented

    def subs_leaf(self, m, key):
        """the subscribers registered under a key, as a sequence"""
        ctx = self.ctx
        name = f"subs[{z3.simplify(key)}]" if key is not None else "subs[*]"
        l = ctx.leaf(name.replace(" ", "").replace("\n", ""), Ty("Sender"))
        l.fam["key"] = key
        ctx.notes.setdefault("subs", {})[l.name] = l
        return l

    def m_map(self, v, ref, name, A, AV, fnarg, n, hint, targs, env):
        ctx = self.ctx; it = self.i
        self.used("HashMap: lookup by key")
        if name == "insert" and n == 2 and ctx.must(z3.Not(ctx.const(self.subs_leaf(v, AV(0).t).name + ".present", ("bool",)))):
            parts = ctx.norm(AV(1)).parts if isinstance(AV(1), SeqV) else [None]
            if all(isinstance(p, One) for p in parts):
                for p in parts: ctx.emit(("subscribe", AV(0), p.v))
                return ctx.none()
        if v.ident == "empty":
            if name in ("get", "get_mut"): return ctx.none()
            if name == "contains_key": return FALSE
            if name in ("values", "values_mut", "iter", "into_iter"): return SeqV([], UNK, kind="iter")
        if name in ("get", "get_mut"):
            k = AV(0)
            leaf = self.subs_leaf(v, k.t)
            ex = ctx.const(leaf.name + ".present", ("bool",))
            if ctx.nested(): fail("lookup inside an abstracted body")
            if not ctx.decide(ex): return ctx.none()
            if name == "get_mut": return ctx.some(RefV(Cell(ObjV("SubsEntry", key=k, leaf=leaf), None, "entry")))
            return ctx.some(SeqV([Seg(leaf, z3.BoolVal(True), ctx.generic(leaf))], Ty("Sender")))
        if name == "contains_key":
            leaf = self.subs_leaf(v, AV(0).t)
            return BoolV(ctx.const(leaf.name + ".present", ("bool",)))
        if name in ("values", "values_mut"):
            leaf = self.subs_leaf(v, None)
            # all subscribers of all keys; the grouping is irrelevant
            inner = SeqV([Seg(leaf, z3.BoolVal(True), ctx.generic(leaf))], Ty("Sender"))
            return SeqV([One(ctx.newnode("allsubs"), inner)], VEC(Ty("Sender")), kind="iter")
        if name in ("iter", "into_iter"):
            leaf = self.subs_leaf(v, None)
            inner = SeqV([Seg(leaf, z3.BoolVal(True), ctx.generic(leaf))], Ty("Sender"))
            k = StrV(ctx.const(ctx.fresh_name("anykey"), ("id",)))
            return SeqV([One(ctx.newnode("allsubs"), TupleV([k, inner]))], UNK, kind="iter")
        if name == "entry":
            return ObjV("Entry", map=v, key=AV(0))
        if name in ("insert", "remove", "clear", "retain"):
            ctx.emit(("map_" + name, [AV(i) for i in range(n) if not isinstance(A(i), FnV)])); return ctx.none()
        if name == "is_empty": return BoolV(ctx.const("subs.empty", ("bool",)))
        return NotImplemented

    def m_fn(self, v, ref, name, A, AV, fnarg, n, hint, targs, env): return NotImplemented

    def m_range(self, v, ref, name, A, AV, fnarg, n, hint, targs, env):
        ctx = self.ctx
        if name == "contains":
            x = AV(0)
            c = []
            if v.a is not None: c.append(x.t >= ctx.deref(v.a).t)
            if v.b is not None: c.append(x.t <= ctx.deref(v.b).t if v.incl else x.t < ctx.deref(v.b).t)
            return BoolV(z3.And(c) if c else True)
        s = self.range_iter(v)
        return self.m_seq(s, None, name, A, AV, fnarg, n, hint, targs, env)

    def m_fut(self, v, ref, name, A, AV, fnarg, n, hint, targs, env):
        ctx = self.ctx; it = self.i
        if name in ("boxed", "fuse", "instrument", "in_current_span", "shared"): return v
        if name == "map": return FutV(lambda h=None: it.apply(A(0), [v.run(None)]), "map")
        if name == "then": return FutV(lambda h=None: self.await_(it.apply(A(0), [v.run(None)])), "then")
        if name == "catch_unwind":
            def run(h=None):
                try: return ctx.ok(v.run(None))
                except Panic as p:
                    return ctx.err(self.panic_payload(p))
            return FutV(run, "catch_unwind")
        return NotImplemented

    def panic_payload(self, p):
        ctx = self.ctx
        return ObjV("PanicPayload", name=p.msg)

    # ---- opaque values
    def m_op(self, v, ref, name, A, AV, fnarg, n, hint, targs, env):
        ctx = self.ctx; it = self.i
        if v.kind == "Sender" or "Sender" in v.kind:
            if name == "send":
                w = ctx.notes.get("watch")
                held = [g for g in self.sections if g["held"] and g["lock"] is w and g["mode"] == "write"]
                ctx.emit(("send", v.t, AV(0), held[0] if held else None, w.cell.v if w is not None else None))
                k = F("receiver_alive", I, z3.BoolSort())(v.t)
                return EnumV(RES(UNIT, UNK), z3.If(k, z3.IntVal(0), z3.IntVal(1)), {0: {"0": UNITV}, 1: {"0": ObjV("SendError")}})
            if name == "is_closed": return BoolV(z3.Not(F("receiver_alive", I, z3.BoolSort())(v.t)))
        if v.kind == "Json":
            if name == "is_null": return BoolV(v.t == 999999)
            if name == "take":
                ctx.store(ref, OpV(z3.IntVal(999999), "Json")); return v
        t = it.tyof(v)
        if t.n == "dyn" and name == "error_type" and n == 0: return StrV(F("error_type", I, I)(v.t))
        if t.n in ("param", "dyn"):
            q = t.a[0].n
            for tr, (d, m) in it.traits_for(q):
                if name in d["_fns"] and (t.n == "param" or tr == q or q.split("::")[-1] == tr.split("::")[-1]):
                    fi = d["_fns"][name]
                    if fi.body is None or name in it.opaque_methods:
                        te = {p["id"]: Ty("param", (Ty(p["id"]),)) for p in fi.sig["generics"]["params"]}
                        te["Self"] = t
                        pts = [self.prog.ty(p["ty"], fi.module, te) for p in fi.sig["in"] if not p.get("self")]
                        args = [A(i, h) for i, h in zip(range(n), pts)]
                        return self.opaque_call(t, tr, fi, [v] + args, hint)
            if name == "deref":
                if "pointee" in ctx.notes: return ctx.notes["pointee"](v)
                return v
            if name == "clone": return v
            if name in ("to_string",): return StrV(SHOW(v.t))
            if name == "error_type": return StrV(F("error_type", I, I)(v.t))
        if v.kind.startswith("cron") or "Schedule" in v.kind:
            if name == "upcoming":
                return ObjV("Upcoming", sched=v, tz=AV(0))
        if name == "to_string": return StrV(SHOW(v.t))
        if "Schedule" in v.kind: return NotImplemented
        if v.kind.startswith("sqlx") or "PgPool" in v.kind:
            from . import sqllib
            return sqllib.op_method(self, v, name, A, AV, n, hint)
        return NotImplemented

    # ---- library objects
    def m_obj(self, v, ref, name, A, AV, fnarg, n, hint, targs, env):
        ctx = self.ctx; it = self.i
        k = v.kind
        if k == "Span" and name in ("record", "clone", "enter", "entered", "follows_from"): return v
        if k == "Hasher":
            if name == "finish":
                h = HFIN(v.d["st"]); ctx.assume(z3.And(h >= 0, h <= 2**64 - 1)); return IntV(h, "u64")
            if name.startswith("write"):
                ctx.store(ref, v.with_(st=HSTEP(v.d["st"], self.term(A(0))))); return UNITV
        if k == "Rng":
            if name in ("random_range", "gen_range"): return self.random_range(AV(0))
            if name in ("random_bool", "gen_bool"): return BoolV(ctx.const(ctx.fresh_name("randbool"), ("bool",)))
        if k == "Reverse" and name in ("cmp",): return NotImplemented
        if k == "Entry":
            if name in ("or_default", "or_insert_with", "or_insert"):
                return RefV(Cell(ObjV("SubsEntry", key=v.d["key"]), None, "entry"))
        if k == "SubsEntry":
            if name == "push": ctx.emit(("subscribe", v.d["key"], AV(0))); return UNITV
            if name in ("iter", "iter_mut", "len", "is_empty") and v.d.get("leaf") is not None:
                return self.m_seq(SeqV([Seg(v.d["leaf"], z3.BoolVal(True), ctx.generic(v.d["leaf"]))], Ty("Sender")), None, name, A, AV, fnarg, n, hint, targs, env)
        if k == "Receiver":
            if name == "recv":
                def run(h=None):
                    ctx.emit(("recv", v.d["id"])); ctx.advance()
                    return ctx.fresh(OPT(DT), ctx.fresh_name("recv"))
                return FutV(run, "recv", {"kind": "recv", "id": v.d["id"]})
            if name == "try_recv":
                ctx.emit(("try_recv", v.d["id"]))
                return ctx.err(ObjV("TryRecvError")) if ctx.choose(2, "try_recv") else ctx.ok(ctx.fresh(DT, ctx.fresh_name("recv")))
        if k == "CancellationToken":
            self.used("CancellationToken")
            if name in ("clone",): return v
            if name == "child_token": return ObjV("CancellationToken", id=v.d["id"] + "/child", parent=v)
            if name in ("cancelled", "cancelled_owned"):
                def run(h=None):
                    ctx.emit(("cancelled", v.d["id"])); return UNITV
                return FutV(run, "cancelled", {"kind": "cancelled", "id": v.d["id"]})
            if name == "is_cancelled":
                b = BoolV(ctx.const(ctx.fresh_name("is_cancelled." + v.d["id"]), ("bool",)))
                ctx.emit(("is_cancelled", v.d["id"], b.t)); return b
            if name == "cancel": ctx.emit(("cancel", v.d["id"])); return UNITV
            if name == "drop_guard": return ObjV("TokenDropGuard", id=v.d["id"])
        if k == "JoinHandle":
            if name in ("abort",): v.d["state"]["ended"] = True; ctx.emit(("abort",)); return UNITV
            if name in ("is_finished",): return BoolV(ctx.const(ctx.fresh_name("finished"), ("bool",)))
            if name == "map": return FutV(lambda h=None: it.apply(A(0), [self.join(v)]), "map")
        if k == "JoinError":
            self.used("JoinError: carries the panic payload")
            nm = v.d["name"]
            if name == "to_string": return v.d["show"]
            if name == "try_into_panic": return ctx.ok(ObjV("PanicPayload", name=nm))
            if name == "into_panic": return ObjV("PanicPayload", name=nm)
            if name == "is_panic": return TRUE
            if name == "is_cancelled": return FALSE
        if k == "PanicPayload":
            if name in ("downcast_ref", "downcast", "is", "downcast_mut"):
                nm = v.d["name"]
                kind = ctx.const(nm + ".payload", ("int", 0, 2))   # 0: &str, 1: String, 2: other
                src = targs[0] if targs else UNK
                # &str and String are both strings here: told apart by the written type
                want = v.d.get("want")
                txt = self.targ_text(env, name)
                raise_kind = 0 if ctx.notes.get("last_targ_ref") else 1
                f = ctx.decide(kind == raise_kind)
                s = StrV(ctx.const(f"{nm}.text{raise_kind}", ("id",)))
                if name == "is": return BoolV(f)
                if name == "downcast": return ctx.ok(s) if f else ctx.err(v)
                return ctx.some(s, STR) if f else ctx.none(STR)
        if k == "Stream": return self.m_stream(v, ref, name, A, AV, fnarg, n, hint, targs, env)
        if k == "stream!": return NotImplemented
        if k == "Upcoming":
            self.used("cron: upcoming gives the next ticks after now")
            if name == "next":
                t = ctx.const(ctx.fresh_name("tick"), ("int", 0, DT_MAX))
                ctx.assume(t > ctx.now().t)
                ctx.emit(("tick", v.d["sched"].t, t, v.d.get("tz")))
                return ctx.some(TimeV(t, "DateTime"), DT)
            if name == "take": return v
        if k == "Formatter" and name in ("write_str", "pad"):
            v.d["buf"].append(AV(0)); return ctx.ok(UNITV)
        if k == "Utc": return v if name == "clone" else NotImplemented
        if k == "MemOrder": return v
        if name == "to_string": return self.to_string(v)
        from . import sqllib
        return sqllib.method(self, v, ref, name, A, AV, fnarg, n, hint, targs, env)

    def targ_text(self, env, name): return None

    def m_stream(self, v, ref, name, A, AV, fnarg, n, hint, targs, env):
        ctx = self.ctx; it = self.i
        self.used("futures::Stream combinators")
        if name in ("take_until",):
            f = AV(0)
            return v.with_(until=f)
        if name in ("fuse", "boxed", "into_stream"): return v
        if name in ("for_each_concurrent", "for_each"):
            limit = AV(0) if name == "for_each_concurrent" else None
            f = A(n - 1)
            def run(h=None):
                if name == "for_each_concurrent":
                    lim = limit if isinstance(limit, EnumV) else ctx.some(limit, Ty("usize"))
                else: lim = ctx.some(IntV(1, "usize"))
                ctx.emit(("for_each", lim, v.d.get("until"), v.d.get("source")))
                if "seq" in v.d:
                    self.foreach(v.d["seq"], lambda x: self.await_(it.apply(f, [x])))
                    return UNITV
                m = ctx.fresh(v.d["item"], ctx.fresh_name("message"))
                ctx.notes["message"] = m
                if "on_message" in ctx.notes: ctx.notes["on_message"](m)
                ctx.emit(("message", m))
                self.await_(it.apply(f, [m]))
                ctx.emit(("message_done",))
                return UNITV
            return FutV(run, "for_each")
        if name == "next":
            def run(h=None):
                if "seq" in v.d:
                    fail("next of a finite stream")
                if ctx.choose(2, "stream") == 1: return ctx.none()
                m = ctx.fresh(v.d["item"], ctx.fresh_name("message"))
                ctx.notes["message"] = m
                ctx.emit(("for_each", ctx.some(IntV(1, "usize")), v.d.get("until"), v.d.get("source")))
                if "on_message" in ctx.notes: ctx.notes["on_message"](m)
                ctx.emit(("message", m))
                return ctx.some(m)
            return FutV(run, "next", {"kind": "next"})
        if name == "filter_map" or name == "map" or name == "then" or name == "buffer_unordered":
            fail(f"stream combinator {name}")
        return NotImplemented


def deferred_(v): return isinstance(v, ObjV) and v.kind == "deferred"

def it_match(it, p, v, env): return it.match(p, v, env)
