"""Index of the parsed source: module tree, name resolution, types, functions, impls."""
import json, os, subprocess

REPO = os.environ.get("REXV_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


class Unsupported(Exception):
    """The construct is outside the generator's reach (never an alarm)."""


def fail(msg):
    raise Unsupported(msg)


def find_sources():
    out = []
    for crate, root in (("rexecutor", "rexecutor/src"), ("rexecutor_sqlx", "rexecutor-sqlx/src")):
        base = os.path.join(REPO, root)
        for d, _, fs in sorted(os.walk(base)):
            for f in sorted(fs):
                if f.endswith(".rs"):
                    out.append((crate, os.path.join(d, f), os.path.relpath(os.path.join(d, f), base)))
    return out


def build_rsast():
    exe = os.path.join(VERIF, "rsast", "target", "debug", "rsast")
    src = os.path.join(VERIF, "rsast", "src", "main.rs")
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
        r = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=os.path.join(VERIF, "rsast"),
                           capture_output=True, text=True)
        if r.returncode != 0:
            raise RuntimeError("building rsast failed: " + r.stderr[-2000:])
    return exe


def dump():
    srcs = find_sources()
    r = subprocess.run([build_rsast()] + [s[1] for s in srcs], capture_output=True, text=True)
    if r.returncode != 0:
        raise RuntimeError("parsing the sources failed: " + r.stderr[-2000:])
    return srcs, json.loads(r.stdout)


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("n", "a")

    def __init__(self, n, a=()):
        self.n = n
        self.a = tuple(a)

    def __eq__(self, o):
        return isinstance(o, Ty) and self.n == o.n and self.a == o.a

    def __hash__(self):
        return hash((self.n, self.a))

    def __repr__(self):
        return self.n + ("<" + ",".join(map(repr, self.a)) + ">" if self.a else "")


INTS = {"i8": (-2**7, 2**7-1), "i16": (-2**15, 2**15-1), "i32": (-2**31, 2**31-1), "i64": (-2**63, 2**63-1),
        "i128": (-2**127, 2**127-1), "isize": (-2**63, 2**63-1), "u8": (0, 2**8-1), "u16": (0, 2**16-1),
        "u32": (0, 2**32-1), "u64": (0, 2**64-1), "u128": (0, 2**128-1), "usize": (0, 2**64-1)}
STR = Ty("str"); BOOL = Ty("bool"); UNIT = Ty("tuple"); UNK = Ty("?"); JSON = Ty("Json")
DT = Ty("DateTime"); TD = Ty("TimeDelta"); DUR = Ty("Duration"); F64 = Ty("f64")
def OPT(t): return Ty("Option", (t,))
def VEC(t): return Ty("Vec", (t,))
def RES(t, e): return Ty("Result", (t, e))

EXT = {  # external canonical path -> builtin type name
    "chrono::DateTime": "DateTime", "chrono::TimeDelta": "TimeDelta", "chrono::Duration": "TimeDelta",
    "std::time::Duration": "Duration", "core::time::Duration": "Duration", "serde_json::Value": "Json",
    "std::string::String": "str", "std::vec::Vec": "Vec", "std::option::Option": "Option",
    "core::option::Option": "Option", "core::result::Result": "Result", "alloc::vec::Vec": "Vec", "alloc::string::String": "str",
    "core::cmp::Ordering": "Ordering", "std::result::Result": "Result", "std::cmp::Ordering": "Ordering", "sqlx::Result": "sqlx::Result",
    "chrono::Utc": "Utc", "tokio::time::Duration": "Duration",
}
PRELUDE = {"Option": "Option", "Result": "Result", "Vec": "Vec", "String": "str", "str": "str", "Box": "Box",
           "bool": "bool", "f64": "f64", "f32": "f32", "char": "char", "Some": "Option::Some", "None": "Option::None",
           "Ok": "Result::Ok", "Err": "Result::Err", "Default": "Default", "From": "From", "Into": "Into",
           "TryFrom": "TryFrom", "TryInto": "TryInto", "ToString": "ToString", "Clone": "Clone", "Iterator": "Iterator",
           "IntoIterator": "IntoIterator", "drop": "drop", "ToOwned": "ToOwned", "AsRef": "AsRef", "Ord": "Ord",
           "PartialOrd": "PartialOrd", "PartialEq": "PartialEq", "Self": "Self"}
TRANSPARENT = {"Box", "std::boxed::Box", "std::sync::Arc", "std::rc::Rc", "std::pin::Pin", "std::borrow::Cow", "alloc::sync::Arc"}


class Module:
    def __init__(self, path):
        self.path = path            # tuple of names
        self.items = {}             # name -> [(kind, node)]
        self.uses = {}              # name -> list of segs
        self.globs = []
        self.impls = []


class FnItem:
    def __init__(self, node, module, impl=None, trait=None, file=None, name=None):
        self.node = node; self.sig = node["sig"]; self.body = node["body"]
        self.module = module; self.impl = impl; self.trait = trait
        self.name = node["sig"]["id"]; self.is_async = node["sig"]["async"]
        self.file = file
        self.qual = name or self.name
        self.has_self = bool(self.sig["in"]) and self.sig["in"][0].get("self", False)

    def __repr__(self):
        return "fn " + self.qual


class ImplItem:
    def __init__(self, node, module, file):
        self.node = node; self.module = module; self.file = file
        self.gparams = [p["id"] for p in node["generics"]["params"]]
        self.fns = {}; self.consts = {}; self.types = {}
        self.self_ty = None; self.trait = None; self.trait_args = ()


class Program:
    def __init__(self):
        self.srcs, self.ast = dump()
        self.mods = {}
        self.structs = {}; self.enums = {}; self.traits = {}; self.fns = {}; self.consts = {}; self.aliases = {}
        self.impls = []             # ImplItem
        self.methods = {}           # (type name, fn name) -> [FnItem]
        self.trait_impls = {}       # (trait name, type name) -> [ImplItem]
        self.blanket = []           # impls for a type parameter
        self.lines = 0
        self.scopes = {}
        for crate, f, rel in self.srcs:
            mp = [crate] + [p for p in rel[:-3].split(os.sep)]
            if mp[-1] in ("lib", "main", "mod"):
                mp = mp[:-1]
            self.add_mod(tuple(mp), self.ast[f], rel_path(f))
        self.resolve_impls()

    def add_mod(self, path, items, file):
        m = self.mods.setdefault(path, Module(path))
        m.file = file
        for it in items:
            k = it["i"]
            if k == "Mod":
                m.items.setdefault(it["id"], []).append(("mod", it))
                if it["items"] is not None:
                    self.add_mod(path + (it["id"],), it["items"], file)
            elif k == "Use":
                for name, segs in it["u"]:
                    if name == "*":
                        m.globs.append(segs)
                    elif name != "_":
                        m.uses[name] = segs
            elif k in ("Struct", "Enum", "Trait", "Const", "Static", "Type", "Fn"):
                name = it["sig"]["id"] if k == "Fn" else it["id"]
                m.items.setdefault(name, []).append((k, it))
                q = "::".join(path + (name,))
                if k == "Struct": self.structs[q] = (it, m)
                elif k == "Enum": self.enums[q] = (it, m)
                elif k == "Trait": self.traits[q] = (it, m)
                elif k in ("Const", "Static"): self.consts[q] = (it, m)
                elif k == "Type": self.aliases[q] = (it, m)
                elif k == "Fn": self.fns[q] = FnItem(it, m, file=file, name=q)
            elif k == "Impl":
                m.impls.append(ImplItem(it, m, file))

    # ---- name resolution
    def with_use(self, mod, uses):
        """the module as seen from inside a block with a use declaration"""
        key = (id(mod), json.dumps(uses))
        if key not in self.scopes:
            m = Module(mod.path)
            m.__dict__.update(mod.__dict__)
            m.uses, m.globs, m.items = dict(mod.uses), list(mod.globs), dict(mod.items)
            for name, segs in uses:
                if name == "*": m.globs.insert(0, segs)
                elif name != "_":
                    m.uses[name] = segs
                    m.items.pop(name, None)
            self.scopes[key] = m
        return self.scopes[key]

    def resolve(self, segs, mod, seen=None):
        """segs: list of identifiers -> canonical path string (internal or external)."""
        seen = seen or set()
        segs = list(segs)
        key = (mod.path, tuple(segs))
        if key in seen:
            return "::".join(segs)
        seen.add(key)
        h = segs[0]
        if h == "crate":
            return self.abs_resolve((mod.path[0],), segs[1:], seen)
        if h == "self":
            return self.abs_resolve(mod.path, segs[1:], seen)
        if h == "super":
            p = mod.path[:-1]
            r = segs[1:]
            while r and r[0] == "super":
                p = p[:-1]; r = r[1:]
            return self.abs_resolve(p, r, seen)
        if h in mod.items:
            return self.abs_resolve(mod.path, segs, seen)
        if h in mod.uses:
            return self.resolve_use(mod.uses[h] + segs[1:], mod, seen)
        if h in INTS or h in PRELUDE:
            if not self.glob_lookup(h, mod):
                return "::".join([PRELUDE.get(h, h)] + segs[1:])
        if (h,) in self.mods:
            return self.abs_resolve((h,), segs[1:], seen)
        g = self.glob_lookup(h, mod)
        if g:
            return self.abs_resolve(g, segs, seen)
        return "::".join(segs)

    def glob_lookup(self, name, mod):
        for g in mod.globs:
            p = self.resolve_mod(g, mod)
            if p and p in self.mods and p != mod.path and (name in self.mods[p].items or name in self.mods[p].uses):
                return p
        return None

    def resolve_mod(self, segs, mod):
        h = segs[0]
        if h == "crate": p = (mod.path[0],); segs = segs[1:]
        elif h == "self": p = mod.path; segs = segs[1:]
        elif h == "super":
            p = mod.path
            while segs and segs[0] == "super":
                p = p[:-1]; segs = segs[1:]
        elif h in mod.items: p = mod.path
        elif (h,) in self.mods: p = (h,); segs = segs[1:]
        else: return None
        for s in segs:
            p = p + (s,)
        return p if p in self.mods else None

    def resolve_use(self, segs, mod, seen):
        h = segs[0]
        if h in ("crate", "self", "super"):
            return self.resolve(segs, mod, seen)
        if (h,) in self.mods:
            return self.abs_resolve((h,), segs[1:], seen)
        if h in mod.items and any(k == "mod" for k, _ in mod.items[h]):
            return self.abs_resolve(mod.path, segs, seen)
        if h in mod.items:
            return self.abs_resolve(mod.path, segs, seen)
        return "::".join(segs)

    def abs_resolve(self, path, segs, seen):
        if not segs:
            return "::".join(path)
        if tuple(path) not in self.mods:
            return "::".join(tuple(path) + tuple(segs))
        m = self.mods[tuple(path)]
        h = segs[0]
        if h in m.items:
            kinds = [k for k, _ in m.items[h]]
            if "mod" in kinds and (len(segs) > 1 or kinds == ["mod"]):
                if len(segs) > 1 and tuple(path) + (h,) in self.mods:
                    return self.abs_resolve(tuple(path) + (h,), segs[1:], seen)
            q = "::".join(tuple(path) + (h,))
            return "::".join([q] + segs[1:])
        if h in m.uses:
            return self.resolve_use(m.uses[h] + segs[1:], m, seen)
        g = self.glob_lookup(h, m)
        if g:
            return self.abs_resolve(g, segs, seen)
        return "::".join(tuple(path) + tuple(segs))

    # ---- types
    def ty(self, t, mod, tyenv=None):
        tyenv = tyenv or {}
        if t is None:
            return UNIT
        k = t["t"]
        if k == "Ref":
            return self.ty(t["e"], mod, tyenv)
        if k in ("Slice", "Array"):
            return VEC(self.ty(t["e"], mod, tyenv))
        if k == "Tuple":
            return Ty("tuple", [self.ty(x, mod, tyenv) for x in t["e"]])
        if k == "Infer":
            return UNK
        if k == "Never":
            return Ty("!")
        if k in ("Dyn", "Impl"):
            for b in t["b"]:
                n = self.resolve([s["id"] for s in b], mod)
                last = b[-1]
                if last["id"] in ("Into", "IntoIterator", "Iterator") and last["args"]:
                    a = last["args"][0]
                    if a["t"] == "Assoc":
                        return Ty("impl", (Ty(last["id"]), self.ty(a["ty"], mod, tyenv)))
                    return Ty("impl", (Ty(last["id"]), self.ty(a, mod, tyenv)))
                return Ty("dyn", (Ty(n),))
            return UNK
        if k == "Path":
            segs = [s["id"] for s in t["path"]]
            args = t["path"][-1]["args"] or []
            if t.get("qself"):
                q = self.ty(t["qself"]["ty"], mod, tyenv)
                return Ty("assoc", (q, Ty(segs[-1])))
            if segs[0] in tyenv:
                if len(segs) == 1:
                    return tyenv[segs[0]]
                base = tyenv[segs[0]]
                return self.assoc(base, segs[1])
            n = self.resolve(segs, mod)
            if n in self.aliases:
                it, m2 = self.aliases[n]
                g = [p["id"] for p in it["generics"]["params"]]
                sub = dict(zip(g, [self.ty(a, mod, tyenv) for a in args]))
                return self.ty(it["ty"], m2, sub)
            n = EXT.get(n, n)
            if n == "sqlx::Result":
                return RES(self.ty(args[0], mod, tyenv) if args else UNIT, Ty("sqlx::Error"))
            if n == "std::io::Result":
                return RES(self.ty(args[0], mod, tyenv), Ty("std::io::Error"))
            if n in TRANSPARENT:
                return self.ty(args[-1], mod, tyenv) if args else UNK
            if n in ("DateTime",):
                return DT
            targs = [self.ty(a, mod, tyenv) for a in args if a["t"] not in ("Const",)]
            if n == "Result" and len(targs) == 1:
                targs.append(UNK)
            return Ty(n, targs)
        if k == "Fn":
            return Ty("fn")
        return UNK

    def assoc(self, base, name):
        if base.n == "param":
            return Ty("assoc", (base, Ty(name)))
        for im in self.impls:
            if im.self_ty is not None and im.self_ty.n == base.n and name in im.types:
                return self.ty(im.types[name], im.module, {"Self": base})
        return Ty("assoc", (base, Ty(name)))

    def resolve_impls(self, mods=None):
        for m in mods or self.mods.values():
            for im in m.impls:
                node = im.node
                env = {g: Ty("param", (Ty(g),)) for g in im.gparams}
                im.self_ty = self.ty(node["self"], m, env)
                if node["trait"]:
                    im.trait = self.resolve([s["id"] for s in node["trait"]], m)
                    env2 = dict(env); env2["Self"] = im.self_ty
                    im.trait_args = tuple(self.ty(a, m, env2) for a in (node["trait"][-1]["args"] or []))
                for it in node["items"]:
                    if it["i"] == "Fn":
                        q = f"{im.self_ty.n}::{it['sig']['id']}"
                        if im.trait:
                            q = f"<{im.self_ty!r} as {im.trait.split('::')[-1]}{list(im.trait_args) if im.trait_args else ''}>::{it['sig']['id']}"
                        fi = FnItem(it, m, impl=im, trait=im.trait, file=im.file, name=q)
                        im.fns[fi.name] = fi
                    elif it["i"] == "Const":
                        im.consts[it["id"]] = it
                    elif it["i"] == "Type":
                        im.types[it["id"]] = it["ty"]
                self.impls.append(im)
                if im.self_ty.n == "param":
                    self.blanket.append(im)
                    continue
                for n, fi in im.fns.items():
                    self.methods.setdefault((im.self_ty.n, n), []).append(fi)
                if im.trait:
                    self.trait_impls.setdefault((im.trait, im.self_ty.n), []).append(im)
        for q, (it, m) in self.traits.items() if mods is None else ():
            d = {}
            for x in it["items"]:
                if x["i"] == "Fn":
                    d[x["sig"]["id"]] = FnItem(x, m, trait=q, file=m.file, name=f"{q}::{x['sig']['id']}")
            it["_fns"] = d
            it["_consts"] = {x["id"]: x for x in it["items"] if x["i"] == "Const"}


def rel_path(f):
    return os.path.relpath(f, REPO)
