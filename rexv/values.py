"""Values of the symbolic semantics. All values are immutable; memory is Cells and paths into them."""
import z3
from .program import Ty, INTS, STR, BOOL, UNIT, UNK, JSON, DT, TD, DUR, F64, OPT, VEC, RES, Unsupported, fail

NS = 10**9
TD_MAX = (2**63-1) * 10**6               # chrono: +-i64::MAX milliseconds
DT_MIN = -8334601228800 * NS             # chrono DateTime<Utc>::MIN_UTC
DT_MAX = 8210266876799 * NS + 999999999  # chrono DateTime<Utc>::MAX_UTC
DUR_MAX = (2**64-1) * NS + 999999999


class V:
    __slots__ = ()


class IntV(V):
    """t: z3 Int term; ty: Rust integer type name or None for an untyped literal."""
    __slots__ = ("t", "ty")
    def __init__(self, t, ty=None):
        self.t = z3.IntVal(t) if isinstance(t, int) else t
        self.ty = ty
    def __repr__(self): return f"{self.t}"


class RealV(V):
    __slots__ = ("t",)
    def __init__(self, t): self.t = t
    def __repr__(self): return f"{self.t}"


class BoolV(V):
    __slots__ = ("t",)
    def __init__(self, t): self.t = z3.BoolVal(t) if isinstance(t, bool) else t
    def __repr__(self): return f"{self.t}"


class StrV(V):
    """t: Int-coded identity; text: known literal or None."""
    __slots__ = ("t", "text")
    def __init__(self, t, text=None): self.t = t; self.text = text
    def __repr__(self): return repr(self.text) if self.text is not None else f"str:{self.t}"


class OpV(V):
    """Opaque value of a type outside the language of contracts, identified by an Int term.
    kind: type name (Json, assoc type, dyn trait, external)."""
    __slots__ = ("t", "kind", "data")
    def __init__(self, t, kind, data=None): self.t = t; self.kind = kind; self.data = data
    def __repr__(self): return f"<{self.kind}:{self.t}>"


class TimeV(V):
    """kind: DateTime | TimeDelta | Duration, t in nanoseconds."""
    __slots__ = ("t", "kind")
    def __init__(self, t, kind):
        self.t = z3.IntVal(t) if isinstance(t, int) else t
        self.kind = kind
    def __repr__(self): return f"{self.kind}({self.t})"


class StructV(V):
    __slots__ = ("ty", "f")
    def __init__(self, ty, f): self.ty = ty; self.f = f
    def with_(self, k, v):
        g = dict(self.f); g[k] = v
        return StructV(self.ty, g)
    def __repr__(self): return f"{self.ty.n.split('::')[-1]}{self.f}"


class TupleV(V):
    __slots__ = ("e",)
    def __init__(self, e): self.e = tuple(e)
    def __repr__(self): return f"{self.e}"


UNITV = TupleV(())


class EnumV(V):
    """tag: python int or z3 Int; pay: dict idx -> dict field->value, or callable idx -> dict (lazy, memoised).
    origin: (ty, name) if the value is a fresh symbolic value (payload created from the name)."""
    __slots__ = ("ty", "tag", "_pay", "lazy", "origin")
    def __init__(self, ty, tag, pay=None, lazy=None, origin=None):
        self.ty = ty; self.tag = tag; self._pay = dict(pay or {}); self.lazy = lazy; self.origin = origin
    def pay(self, i):
        if i not in self._pay:
            if self.lazy is None:
                return {}
            self._pay[i] = self.lazy(i)
        return self._pay[i]
    def conc(self):
        if isinstance(self.tag, int): return self.tag
        if z3.is_int_value(self.tag): return self.tag.as_long()
        return None
    def __repr__(self):
        return f"{self.ty.n.split('::')[-1]}#{self.tag}{self._pay if self._pay else ''}"


class FnV(V):
    """A callable: python function (args, hint) -> value."""
    __slots__ = ("fn", "name", "node")
    def __init__(self, fn, name="closure", node=None): self.fn = fn; self.name = name; self.node = node
    def __repr__(self): return f"<fn {self.name}>"


class FutV(V):
    """A future: run() performs it."""
    __slots__ = ("run", "name", "info")
    def __init__(self, run, name="future", info=None): self.run = run; self.name = name; self.info = info or {}
    def __repr__(self): return f"<fut {self.name}>"


class Cell:
    _n = 0
    __slots__ = ("v", "ty", "name", "n")
    def __init__(self, v, ty=None, name=""):
        self.v = v; self.ty = ty; self.name = name
        Cell._n += 1; self.n = Cell._n
    def __repr__(self): return f"cell({self.name}={self.v})"


class RefV(V):
    """Reference to a place."""
    __slots__ = ("cell", "path")
    def __init__(self, cell, path=()): self.cell = cell; self.path = tuple(path)
    def __repr__(self): return f"&{self.cell.name}{list(self.path)}"


class LockV(V):
    """RwLock / Mutex / OnceCell content; shared by identity."""
    __slots__ = ("cell", "name", "kind")
    def __init__(self, cell, name, kind="RwLock"): self.cell = cell; self.name = name; self.kind = kind


class AtomicV(V):
    __slots__ = ("cell", "name")
    def __init__(self, cell, name): self.cell = cell; self.name = name


class MapV(V):
    """HashMap<&str, Vec<..>> with opaque content: entries are functions of the key term (see lib)."""
    __slots__ = ("ident", "vty", "ins")
    def __init__(self, ident, vty, ins=()): self.ident = ident; self.vty = vty; self.ins = tuple(ins)


class RangeV(V):
    __slots__ = ("a", "b", "incl")
    def __init__(self, a, b, incl): self.a = a; self.b = b; self.incl = incl


class ObjV(V):
    """Library object with python state in a cell-like immutable dict (query builders, streams, ...)."""
    __slots__ = ("kind", "d")
    def __init__(self, kind, **d): self.kind = kind; self.d = d
    def with_(self, **k):
        d = dict(self.d); d.update(k)
        return ObjV(self.kind, **d)
    def __repr__(self): return f"<{self.kind} {self.d}>"


# ---------------------------------------------------------------- sequences
class Leaf:
    """An unbounded run of elements of an abstract sequence. facts: formulas over the consts named
    `g`.*; pair: functions (prefix_x, prefix_e) -> formula for distinct elements."""
    def __init__(self, name, ety, ident, facts=(), pair=(), memroot=None):
        self.name = name; self.ety = ety; self.ident = ident
        self.facts = list(facts); self.pair = list(pair); self.kids = None
        self.g = name + "!g"
        self.memroot = memroot if memroot is not None else ident
        self.fam = {"nodes": [], "leaves": [self]}    # all elements and live runs of the same sequence
    def __repr__(self): return f"Leaf({self.name})"


class Node:
    """A single element extracted from a leaf (or created in place)."""
    _c = 0
    def __init__(self, name): self.name = name
    def __repr__(self): return f"Node({self.name})"


class One:
    __slots__ = ("node", "v")
    def __init__(self, node, v): self.node = node; self.v = v
    def __repr__(self): return f"{self.v}"


class Seg:
    """for each element g of leaf with guard(g): tmpl(g), in order."""
    __slots__ = ("leaf", "guard", "tmpl")
    def __init__(self, leaf, guard, tmpl): self.leaf = leaf; self.guard = guard; self.tmpl = tmpl
    def __repr__(self): return f"[{self.tmpl} for {self.leaf.name} if {self.guard}]"


class Hole:
    """what a sequence built up by a loop holds before an arbitrary iteration: anything. It can only be appended to."""
    __slots__ = ()


class SeqV(V):
    """kind: vec | iter. order: None or FnV comparator meaning 'sorted by'."""
    __slots__ = ("parts", "ety", "order", "kind")
    def __init__(self, parts, ety=UNK, order=None, kind="vec"):
        self.parts = tuple(parts); self.ety = ety; self.order = order; self.kind = kind
    def __repr__(self): return f"Seq{list(self.parts)}"


def mk_int(n, ty=None): return IntV(z3.IntVal(n), ty)
TRUE = BoolV(True); FALSE = BoolV(False)
