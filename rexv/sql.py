"""The statements sent to Postgres: lexing, parsing with Postgres' precedence rules, and their meaning for one
row as z3 formulas (three-valued). Texts are lists of parts: ("text", s), ("bind", value), ("sub", query),
("each", leaf, guard, parts), ("raw", value)."""
import re
import z3
from .program import *
from .values import *
from .ctx import *

STATUSES = ["scheduled", "executing", "retryable", "complete", "cancelled", "discarded"]


class BadSql(Exception):
    """the statement is certainly not what it should be (not a limit of this parser)"""


# ------------------------------------------------------------------ lexing
LEX = re.compile(r"\s+|--[^\n]*|'(?:[^']|'')*'|\"[^\"]*\"|\d+(?:\.\d+)?|[A-Za-z_][A-Za-z_0-9$]*|\$\d+|::|<>|!=|<=|>=|@>|<@|&&|\|\||->>|->|[-+*/%<>=(),.\[\];]")


def lex(parts, args=None):
    """-> tokens; args: values of $1.. for statements with numbered parameters"""
    out = []
    prev = None      # last character class of what precedes: 'word' | 'bind' | 'sub' | None
    for p in parts:
        if p[0] == "text":
            s = p[1]; i = 0
            if s and prev == "bind" and (s[0].isalnum() or s[0] in "_$"): raise BadSql(f"a parameter runs into the text {s[:20]!r}")
            if s and prev == "sub" and (s[0].isalnum() or s[0] in "_$"): raise BadSql(f"a sub-query runs into the text {s[:20]!r}")
            if s and prev == "word" and (s[0].isalnum() or s[0] == "_"):
                # the word continues in this piece of text
                if out and out[-1][0] in ("id", "num"):
                    s = out.pop()[2] + s
            while i < len(s):
                m = LEX.match(s, i)
                if m is None: fail(f"sql text {s[i:i+20]!r}")
                t = m.group(0); i = m.end()
                if t[0].isspace() or t.startswith("--"): continue
                if t[0] == "'": out.append(("str", t[1:-1].replace("''", "'"), t))
                elif t[0] == '"': out.append(("qid", t[1:-1], t))
                elif t[0].isdigit(): out.append(("num", float(t) if "." in t else int(t), t))
                elif t[0] == "$":
                    n = int(t[1:])
                    if args is None: fail("numbered parameter")
                    if not 1 <= n <= len(args): raise BadSql(f"parameter ${n} of {len(args)}")
                    out.append(("bind", args[n - 1], t))
                elif t[0].isalpha() or t[0] == "_": out.append(("id", t.lower(), t))
                else: out.append(("op", t, t))
            if s: prev = "word" if (s[-1].isalnum() or s[-1] == "_") else ("dollar" if s[-1] == "$" else None)
        elif p[0] == "bind":
            if prev == "word": raise BadSql("a parameter is glued to the word before it")
            if prev == "bind": raise BadSql("two parameters in a row")
            out.append(("bind", p[1], "$")); prev = "bind"
        elif p[0] == "sub":
            out.append(("sub", p[1], "<sub-query>")); prev = "sub"
        elif p[0] == "each":
            inner = lex(p[3])
            out.append(("each", (p[1], p[2], inner), "<for each>")); prev = "sub"
        elif p[0] == "raw": raise BadSql("a value is part of the statement's text instead of a bound parameter")
        else: fail(f"sql part {p[0]}")
    return out


# ------------------------------------------------------------------ parsing
KEYWORDS = {"and", "or", "not", "where", "from", "order", "limit", "offset", "set", "values", "returning", "for", "select", "by", "asc", "desc",
            "in", "is", "then", "else", "end", "when", "case", "as", "group", "having", "update", "delete", "insert", "into", "between"}


class Parser:
    def __init__(self, toks): self.t = toks; self.i = 0
    def peek(self, k=0): return self.t[self.i + k] if self.i + k < len(self.t) else ("end", None, "end of statement")
    def next(self): x = self.peek(); self.i += 1; return x
    def isop(self, s, k=0): x = self.peek(k); return x[0] == "op" and x[1] == s
    def isid(self, *s, k=0): x = self.peek(k); return x[0] == "id" and x[1] in s
    def op(self, s):
        if not self.isop(s): self.bad(s)
        self.i += 1
    def kw(self, *ss):
        for s in ss:
            if not self.isid(s): self.bad(s.upper())
            self.i += 1
    def try_kw(self, *ss):
        for k, s in enumerate(ss):
            if not self.isid(s, k=k): return False
        self.i += len(ss); return True
    def bad(self, want): raise BadSql(f"{want} expected, found {self.peek()[2]!r}")

    # ---- expressions
    def expr(self): return self.nary("or", lambda: self.nary("and", self.notx))
    def nary(self, op, sub):
        items = []
        while True:
            if self.peek()[0] == "each":
                it = self.each(op)
                if it is not None:
                    items.append(it[0])
                    if it[1] == "trailing": continue          # expects another operand
                    if it[1] == "leading" and len(items) == 1: raise BadSql(f"{op.upper()} without a left operand")
                    if self.isid(op): self.i += 1; continue
                    if self.peek()[0] == "each": continue
                    break
            items.append(sub())
            if self.isid(op): self.i += 1; continue
            if self.peek()[0] == "each" and self.each_op() == op: continue
            break
        return items[0] if len(items) == 1 else (op, items)
    def each_op(self):
        leaf, guard, inner = self.peek()[1]
        for e in (inner[-1:], inner[:1]):
            if e and e[0][0] == "id" and e[0][1] in ("and", "or"): return e[0][1]
        return None
    def each(self, op):
        """for each element: operand and connective (or connective and operand)"""
        leaf, guard, inner = self.peek()[1]
        if self.each_op() is None:
            if inner and all(e[0] in ("sub", "bind", "num", "str") or (e[0] == "op" and e[1] in "()") for e in (inner[0], inner[-1])):
                raise BadSql("operands follow each other without AND or OR")
            fail("repeated text without connective")
        if self.each_op() != op: return None
        self.i += 1
        lvl = (lambda p: p.notx()) if op == "and" else (lambda p: p.nary("and", p.notx))
        if inner[-1][0] == "id" and inner[-1][1] == op: body, kind = inner[:-1], "trailing"
        else: body, kind = inner[1:], "leading"
        p = Parser(body)
        e = lvl(p)
        if p.peek()[0] != "end": raise BadSql(f"unexpected {p.peek()[2]!r} in a repeated part")
        return ("each", leaf, guard, e), kind
    def notx(self):
        if self.isid("not"):
            self.i += 1
            return ("not", self.notx())
        if self.peek()[0] == "sub": return ("sub", self.next()[1])
        return self.cmp()
    def cmp(self):
        a = self.other()
        while True:
            if self.isid("is"):
                self.i += 1
                n = self.try_kw("not")
                if self.try_kw("null"): r = ("isnull", a)
                elif self.try_kw("true"): r = ("istrue", a)
                elif self.try_kw("false"): r = ("isfalse", a)
                elif self.try_kw("distinct", "from"): r = ("not", ("notdistinct", a, self.other()))
                else: fail("IS")
                a = ("not3", r) if n else r
                continue
            if self.isid("in") or (self.isid("not") and self.isid("in", k=1)):
                n = self.try_kw("not"); self.kw("in"); self.op("(")
                if self.isid("select"):
                    s = self.select(); r = ("insel", a, s)
                else:
                    xs = [self.expr()]
                    while self.isop(","): self.i += 1; xs.append(self.expr())
                    r = ("inlist", a, xs)
                self.op(")")
                a = ("not", r) if n else r
                continue
            if self.isid("between"):
                self.i += 1
                lo = self.other(); self.kw("and"); hi = self.other()
                a = ("and", [("cmp", ">=", a, lo), ("cmp", "<=", a, hi)])
                continue
            x = self.peek()
            if x[0] == "op" and x[1] in ("=", "<", ">", "<=", ">=", "<>", "!="):
                self.i += 1
                o = "<>" if x[1] == "!=" else x[1]
                if self.isid("any", "some", "all") and self.isop("(", 1):
                    q = self.next()[1]; self.op("("); b = self.expr(); self.op(")")
                    a = ("quant", o, "all" if q == "all" else "any", a, b)
                elif self.peek()[0] == "sub" or self.isid("not"): raise BadSql("a condition where a value is expected")
                else: a = ("cmp", o, a, self.other())
                continue
            return a
    def other(self):
        a = self.add()
        while self.peek()[0] == "op" and self.peek()[1] in ("@>", "<@", "&&", "||", "->", "->>"):
            o = self.next()[1]
            a = ("bin", o, a, self.add())
        return a
    def add(self):
        a = self.mul()
        while self.peek()[0] == "op" and self.peek()[1] in ("+", "-"):
            o = self.next()[1]; a = ("bin", o, a, self.mul())
        return a
    def mul(self):
        a = self.cast()
        while self.peek()[0] == "op" and self.peek()[1] in ("*", "/", "%"):
            o = self.next()[1]; a = ("bin", o, a, self.cast())
        return a
    def cast(self):
        if self.isop("-"): self.i += 1; return ("neg", self.cast())
        a = self.primary()
        while self.isop("::"):
            self.i += 1
            a = ("cast", a, self.typename())
        return a
    def typename(self):
        x = self.next()
        if x[0] not in ("id", "qid"): raise BadSql(f"type expected, found {x[2]!r}")
        n = x[1].lower()
        if n == "character" and self.isid("varying"): self.i += 1; n = "varchar"
        if n == "timestamp" and self.try_kw("with", "time", "zone"): n = "timestamptz"
        if n == "timestamp" and self.try_kw("without", "time", "zone"): pass
        if n == "double" and self.isid("precision"): self.i += 1
        while self.isop("["): self.i += 1; self.op("]"); n += "[]"
        return n
    def primary(self):
        x = self.peek()
        if x[0] == "op" and x[1] == "(":
            self.i += 1
            if self.isid("select"): e = ("scalar", self.select())
            else: e = self.expr()
            self.op(")"); return e
        if x[0] == "bind": self.i += 1; return ("bind", x[1])
        if x[0] == "num": self.i += 1; return ("num", x[1])
        if x[0] == "str": self.i += 1; return ("lit", x[1])
        if x[0] == "qid": self.i += 1; return ("col", x[1])
        if x[0] == "sub": raise BadSql("a condition where a value is expected")
        if x[0] == "each": fail("repeated part in a value")
        if x[0] == "id":
            n = x[1]
            if n == "case":
                self.i += 1
                if not self.isid("when"): fail("simple CASE")
                arms = []
                while self.try_kw("when"):
                    c = self.expr(); self.kw("then"); arms.append((c, self.expr()))
                e = self.expr() if self.try_kw("else") else ("null",)
                self.kw("end"); return ("case", arms, e)
            if n in ("true", "false"): self.i += 1; return ("bool", n == "true")
            if n == "null": self.i += 1; return ("null",)
            if n == "array" and self.isop("[", 1):
                self.i += 2; xs = []
                while not self.isop("]"):
                    xs.append(self.expr())
                    if self.isop(","): self.i += 1
                self.i += 1
                return ("array", xs)
            if n == "interval" and self.peek(1)[0] == "str": self.i += 1; return ("interval", self.next()[1])
            if n == "exists" and self.isop("(", 1):
                self.i += 2; s = self.select(); self.op(")"); return ("exists", s)
            if n in ("current_timestamp",): self.i += 1; return ("call", "now", [])
            if n in KEYWORDS: raise BadSql(f"a value was expected, found {x[2]!r}")
            self.i += 1
            if self.isop("("):
                self.i += 1; xs = []
                if self.isop("*"): self.i += 1; xs = ["*"]
                while not self.isop(")"):
                    xs.append(self.expr())
                    if self.isop(","): self.i += 1
                    elif not self.isop(")"): self.bad(")")
                self.i += 1
                return ("call", n, xs)
            while self.isop(".") and self.peek(1)[0] in ("id", "qid"):
                self.i += 1; n = self.next()[1]
            return ("col", n)
        raise BadSql(f"a value was expected, found {x[2]!r}")

    # ---- statements
    def table(self):
        x = self.next()
        if x[0] not in ("id", "qid"): raise BadSql(f"table expected, found {x[2]!r}")
        n = x[1]
        while self.isop("."): self.i += 1; n = self.next()[1]
        return n
    def items(self):
        out = []
        while True:
            if self.isop("*"): self.i += 1; out.append(("*", None))
            else:
                e = self.expr(); al = None
                if self.try_kw("as"): al = self.next()[1]
                elif self.peek()[0] == "qid": al = self.next()[1]
                out.append((e, al))
            if self.isop(","): self.i += 1; continue
            return out
    def select(self):
        self.kw("select")
        s = {"k": "select", "cols": self.items(), "table": None, "where": None, "order": [], "limit": None, "offset": None, "lock": None}
        if self.try_kw("from"):
            s["table"] = self.table()
        if self.isid("join", "left", "inner", "group", "union", "having"): fail("sql " + self.peek()[1])
        if self.try_kw("where"): s["where"] = self.expr()
        if self.isid("group", "union", "having"): fail("sql " + self.peek()[1])
        if self.try_kw("order", "by"):
            while True:
                e = self.other(); d = "asc"
                if self.isid("asc", "desc"): d = self.next()[1]
                if self.isid("nulls"): fail("NULLS")
                s["order"].append((e, d))
                if self.isop(","): self.i += 1; continue
                break
        while self.isid("limit", "offset"):
            k = self.next()[1]; s[k] = self.add()
        if self.try_kw("for", "update"):
            s["lock"] = "update"
            if self.try_kw("skip", "locked"): s["lock"] = "skip locked"
            elif self.try_kw("nowait"): s["lock"] = "nowait"
        return s
    def returning(self): return self.items() if self.try_kw("returning") else None
    def statement(self):
        if self.isid("select"): s = self.select()
        elif self.try_kw("delete", "from"):
            s = {"k": "delete", "table": self.table(), "where": None}
            if self.isid("using"): fail("USING")
            if self.try_kw("where"): s["where"] = self.expr()
            s["returning"] = self.returning()
        elif self.try_kw("update"):
            s = {"k": "update", "table": self.table(), "set": [], "where": None}
            self.kw("set")
            while True:
                x = self.next()
                if x[0] not in ("id", "qid") or x[1] in KEYWORDS: raise BadSql(f"column expected, found {x[2]!r}")
                self.op("=")
                s["set"].append((x[1], self.expr()))
                if self.isop(","): self.i += 1; continue
                break
            if self.isid("from"): fail("UPDATE FROM")
            if self.try_kw("where"): s["where"] = self.expr()
            s["returning"] = self.returning()
        elif self.try_kw("insert", "into"):
            s = {"k": "insert", "table": self.table(), "cols": [], "vals": [], "conflict": None}
            self.op("(")
            while True:
                s["cols"].append(self.next()[1])
                if self.isop(","): self.i += 1; continue
                break
            self.op(")"); self.kw("values"); self.op("(")
            while True:
                s["vals"].append(self.expr())
                if self.isop(","): self.i += 1; continue
                break
            self.op(")")
            if self.isop(",") or self.isid("on"): fail("INSERT form")
            s["returning"] = self.returning()
            if len(s["cols"]) != len(s["vals"]): raise BadSql("as many values as columns expected")
        else: fail(f"statement starting with {self.peek()[2]!r}")
        if self.isop(";"): self.i += 1
        if self.peek()[0] != "end":
            if self.isop(")"): raise BadSql("unbalanced parenthesis")
            if self.peek()[0] in ("sub", "each", "bind", "num", "str"): raise BadSql(f"unexpected {self.peek()[2]!r}")
            fail(f"sql {self.peek()[2]!r}")
        return s


def parse(parts, args=None): return Parser(lex(parts, args)).statement()


# ------------------------------------------------------------------ meaning
class B3:
    """three-valued truth: t holds if TRUE, f holds if FALSE (neither: NULL)"""
    __slots__ = ("t", "f")
    def __init__(self, t, f=None):
        if isinstance(t, bool): t = z3.BoolVal(t)
        self.t = t; self.f = z3.Not(t) if f is None else f


class N:
    """a nullable value"""
    __slots__ = ("null", "v")
    def __init__(self, v, null=None): self.v = v; self.null = z3.BoolVal(False) if null is None else null


NULL = N(None, z3.BoolVal(True))


def label(prog, ty, i):
    """the database label of variant i of the enum ty (sqlx::Type derive)"""
    e, m = prog.enums[ty.n]
    va = e["variants"][i]
    for a in va.get("attrs") or []:
        mm = re.search(r'rename\s*=\s*"([^"]*)"', a)
        if mm and a.replace(" ", "").startswith("sqlx"): return mm.group(1)
    ra = None
    for a in e.get("attrs") or []:
        mm = re.search(r'rename_all\s*=\s*"([^"]*)"', a)
        if mm and a.replace(" ", "").startswith("sqlx("): ra = mm.group(1)
    n = va["id"]
    if ra == "lowercase": return n.lower()
    if ra == "snake_case": return re.sub(r"(?<!^)([A-Z])", r"_\1", n).lower()
    if ra is None: return n
    fail(f"rename_all {ra}")


def each_const(ctx, tag, leaf, guard, f):
    """truth of `for all / for some element of the run`: one constant per condition up to equivalence"""
    s = z3.simplify(z3.And(guard, f) if tag == "or" else z3.Implies(guard, f))
    if ctx.check(*leaf.facts, guard) == z3.unsat: return z3.BoolVal(tag == "and")     # no elements
    known = ctx.notes.setdefault("each", {}).setdefault((tag, leaf.name.replace("~stored", "")), [])
    for s2, c in known:
        if s2.eq(s) or ctx.check(*leaf.facts, s2 != s) == z3.unsat: return c
    c = ctx.const(f"{tag} over {leaf.name}: {s}".replace("~stored", ""), ("bool",))
    known.append((s, c))
    return c


def over(ctx, tag, seq, fn):
    """conditions that fn holds for all / some elements (to be joined)"""
    out = []
    for p in ctx.norm(ctx.deref(seq)).parts:
        if isinstance(p, One): out.append(fn(p.v))
        else: out.append(each_const(ctx, tag, p.leaf, p.guard, fn(p.tmpl)))
    return out + [z3.BoolVal(tag == "and")]


class Meaning:
    """of expressions, for one row"""
    def __init__(self, h, row, sub=None, dbnow=None):
        self.h = h; self.ctx = h.ctx; self.row = row; self.sub = sub; self.dbnow = dbnow

    # ---- values
    def wrap(self, v):
        ctx = self.ctx
        v = ctx.deref(v)
        if isinstance(v, EnumV) and v.ty.n == "Option":
            x = self.wrap(v.pay(1)["0"]) if not (v.conc() == 0) else NULL
            if v.conc() == 0: return NULL
            return N(x.v, z3.Or(x.null, ctx.tagt(v) == 0))
        if isinstance(v, EnumV) and ctx.is_clike(v.ty): return N(("status", self.status(v)))
        if isinstance(v, ObjV) and v.kind == "Text": return N(self.h.lib.to_string(v.d["v"]))
        if isinstance(v, StructV) and len(v.f) == 1: return self.wrap(next(iter(v.f.values())))
        if isinstance(v, ObjV) and v.kind == "deferred": return self.wrap(self.h.it.force(v))
        return N(v)
    def status(self, v):
        """the position of the enum's value in the database type"""
        ctx = self.ctx
        vs = ctx.variants(v.ty)
        if v.ty.n.startswith("rexecutor::"): lab = [n.lower() for n, _ in vs]
        else: lab = [label(ctx.prog, v.ty, i) for i in range(len(vs))]
        t = None
        for i, l in enumerate(lab):
            if l not in STATUSES: raise BadSql(f"{l!r} is not a status")
            x = z3.IntVal(STATUSES.index(l))
            t = x if t is None else z3.If(ctx.tagt(v) == i, x, t)
        return t
    def lit_as(self, s, like):
        """an untyped literal next to a value of another type"""
        if isinstance(like, tuple) and like[0] == "status":
            if s not in STATUSES: raise BadSql(f"{s!r} is not a status")
            return ("status", z3.IntVal(STATUSES.index(s)))
        if isinstance(like, TimeV) and like.kind == "TimeDelta": return TimeV(interval(s), "TimeDelta")
        if isinstance(like, StrV): return self.ctx.lit_str(s)
        fail(f"literal {s!r} next to {like!r}"[:100])
    def val(self, e):
        ctx = self.ctx
        k = e[0]
        if k == "bind": return self.wrap(e[1])
        if k == "col":
            if e[1] not in self.row: raise BadSql(f"unknown column {e[1]}")
            return self.wrap(self.row[e[1]])
        if k == "num":
            if isinstance(e[1], float): fail("decimal number")
            return N(IntV(e[1]))
        if k == "lit": return N(("lit", e[1]))
        if k == "null": return NULL
        if k == "interval": return N(TimeV(interval(e[1]), "TimeDelta"))
        if k == "neg":
            a = self.val(e[1])
            if isinstance(a.v, IntV): return N(IntV(-a.v.t, a.v.ty), a.null)
        if k == "cast":
            a = self.val(e[1]); t = e[2]
            if isinstance(a.v, tuple) and a.v[0] == "lit":
                if t == "rexecutor_job_state": return N(self.lit_as(a.v[1], ("status", None)), a.null)
                if t == "interval": return N(TimeV(interval(a.v[1]), "TimeDelta"), a.null)
                if t in ("text", "varchar"): return N(ctx.lit_str(a.v[1]), a.null)
            if isinstance(a.v, tuple) and a.v[0] == "case":
                if t == "rexecutor_job_state": return N(("status", self.case_status(a.v)), a.null)
            if a.v is None: return a
            ok = {"text": (StrV,), "varchar": (StrV,), "varchar[]": (SeqV,), "text[]": (SeqV,), "timestamptz": (TimeV,), "timestamp": (TimeV,),
                  "int": (IntV,), "int4": (IntV,), "integer": (IntV,), "int8": (IntV,), "bigint": (IntV,), "int[]": (SeqV,), "int4[]": (SeqV,), "integer[]": (SeqV,),
                  "jsonb": (OpV,), "rexecutor_job_state": (tuple,), "rexecutor_job_state[]": (SeqV,)}.get(t)
            if ok and isinstance(a.v, ok): return a
            fail(f"cast of {a.v!r} to {t}"[:100])
        if k == "call":
            f, xs = e[1], e[2]
            if f in ("now", "transaction_timestamp") and not xs: return N(TimeV(self.dbnow, "DateTime"))
            if f == "timezone" and len(xs) == 2:
                z = self.val(xs[0]).v
                if (isinstance(z, tuple) and z[1] == "UTC") or (isinstance(z, StrV) and z.text == "UTC"): return self.val(xs[1])
            if f in ("cardinality", "array_length") and isinstance((a := self.val(xs[0])).v, SeqV):
                if f == "array_length" and (len(xs) != 2 or xs[1] != ("num", 1)): fail("array_length of another dimension")
                n = self.h.lib.length(a.v)
                none = self.h.lib.is_empty(a.v)
                self.ctx.assume(none.t == (n.t == 0))
                return N(IntV(n.t, "i32"), z3.Or(a.null, n.t == 0) if f == "array_length" else a.null)
            if f == "array_append" and len(xs) == 2: return N(("append", self.val(xs[0]).v, self.val(xs[1]).v))
            if f in ("jsonb_build_object", "json_build_object"):
                if len(xs) % 2: raise BadSql("jsonb_build_object takes pairs")
                d = {}
                for a, b in zip(xs[::2], xs[1::2]):
                    key = self.val(a).v
                    key = key[1] if isinstance(key, tuple) else key.text
                    d[key] = self.val(b)
                return N(("object", d))
            fail(f"sql function {f}")
        if k == "bin" and e[1] in ("+", "-"):
            a, b = self.val(e[2]), self.val(e[3])
            nul = z3.simplify(z3.Or(a.null, b.null))
            if isinstance(a.v, tuple) and a.v[0] == "lit" and isinstance(b.v, TimeV): fail("literal time")
            if isinstance(a.v, IntV) and isinstance(b.v, IntV): return N(IntV(a.v.t + b.v.t if e[1] == "+" else a.v.t - b.v.t, a.v.ty or b.v.ty), nul)
            if isinstance(a.v, TimeV) and isinstance(b.v, TimeV):
                t = a.v.t + b.v.t if e[1] == "+" else a.v.t - b.v.t
                kind = "TimeDelta" if a.v.kind == b.v.kind else "DateTime"
                return N(TimeV(t, kind), nul)
            if isinstance(a.v, TimeV) and isinstance(b.v, tuple) and b.v[0] == "lit":
                fail("untyped literal in time arithmetic")
        if k == "bin" and e[1] == "||":
            a, b = self.val(e[2]), self.val(e[3])
            if isinstance(b.v, tuple) and b.v[0] == "object": return N(("append", a.v, b.v))
        if k == "case":
            return N(("case", [(self.truth(c), self.val(x)) for c, x in e[1]], self.val(e[2])))
        if k in ("and", "or", "not", "cmp", "quant", "inlist", "isnull", "bool"): return N(("b3", self.truth(e)))
        fail(f"sql value {k}")
    def case_status(self, c):
        one = lambda x: x.v[1] if x.v[0] == "status" else self.lit_as(x.v[1], ("status", None))[1]
        t = one(c[2])
        for cond, x in reversed(c[1]): t = z3.If(cond.t, one(x), t)
        return t

    # ---- conditions
    def comparable(self, a, b):
        if isinstance(a, tuple) and a[0] == "lit" and not (isinstance(b, tuple) and b[0] == "lit"): a = self.lit_as(a[1], b)
        if isinstance(b, tuple) and b[0] == "lit" and not (isinstance(a, tuple) and a[0] == "lit"): b = self.lit_as(b[1], a)
        if isinstance(a, tuple) and a[0] == "lit": a, b = self.ctx.lit_str(a[1]), self.ctx.lit_str(b[1])
        kind = lambda x: x[0] if isinstance(x, tuple) else (x.kind if isinstance(x, (TimeV, OpV)) else type(x).__name__)
        if kind(a) != kind(b): raise BadSql(f"{kind(a)} compared with {kind(b)}")
        term = lambda x: x[1] if isinstance(x, tuple) else x.t
        if isinstance(a, SeqV): fail("comparing arrays")
        if isinstance(a, tuple) and a[0] != "status": fail(f"comparing {a[0]}")
        return term(a), term(b), kind(a)
    def compare(self, op, a, b):
        if a.v is None or b.v is None: return B3(z3.BoolVal(False), z3.BoolVal(False))
        x, y, kind = self.comparable(a.v, b.v)
        if op not in ("=", "<>") and kind in ("StrV", "Json", "OpV"): fail(f"order of {kind}")
        c = {"=": lambda: x == y, "<>": lambda: x != y, "<": lambda: x < y, ">": lambda: x > y, "<=": lambda: x <= y, ">=": lambda: x >= y}[op]()
        ok = z3.Not(z3.Or(a.null, b.null))
        return B3(z3.And(ok, c), z3.And(ok, z3.Not(c)))
    def truth(self, e):
        ctx = self.ctx
        k = e[0]
        if k == "and":
            xs = [self.each(k, x) if x[0] == "each" else self.truth(x) for x in e[1]]
            return B3(z3.And([x.t for x in xs]), z3.Or([x.f for x in xs]))
        if k == "or":
            xs = [self.each(k, x) if x[0] == "each" else self.truth(x) for x in e[1]]
            return B3(z3.Or([x.t for x in xs]), z3.And([x.f for x in xs]))
        if k == "each": fail("repeated condition outside of its connective")
        if k == "not":
            x = self.truth(e[1]); return B3(x.f, x.t)
        if k == "not3":
            x = self.truth(e[1]); return B3(x.f, x.t)
        if k == "bool": return B3(e[1])
        if k == "sub":
            if self.sub is None: fail("sub-query")
            return B3(self.sub(e[1]))
        if k == "cmp": return self.compare(e[1], self.val(e[2]), self.val(e[3]))
        if k == "isnull":
            a = self.val(e[1]); return B3(a.null)
        if k == "istrue":
            a = self.truth(e[1]); return B3(a.t)
        if k == "isfalse":
            a = self.truth(e[1]); return B3(a.f)
        if k == "inlist":
            a = self.val(e[1])
            xs = [self.compare("=", a, self.val(x)) for x in e[2]]
            return B3(z3.Or([x.t for x in xs]), z3.And([x.f for x in xs]))
        if k == "quant":
            a, b = self.val(e[3]), self.val(e[4])
            if e[4][0] == "array":
                xs = [self.compare(e[1], a, self.val(x)) for x in e[4][1]]
                return B3(z3.Or([x.t for x in xs]), z3.And([x.f for x in xs])) if e[2] == "any" else B3(z3.And([x.t for x in xs]), z3.Or([x.f for x in xs]))
            if not isinstance(b.v, SeqV): raise BadSql("ANY/ALL of something that is no array")
            if (e[1], e[2]) not in (("=", "any"), ("<>", "all")): 
                if (e[1], e[2]) in (("<>", "any"), ("=", "all")): return self.odd_quant(e[1], a, b.v)
                fail(f"{e[1]} {e[2]}")
            m = self.mem(b.v, a.v)
            return B3(m if e[2] == "any" else z3.Not(m))
        if k == "bin" and e[1] in ("+", "-", "*", "/", "%", "||", "->", "->>"): raise BadSql(f"a value ({e[1]}) used as condition")
        if k == "bin" and e[1] in ("@>", "<@", "&&"):
            a, b = self.val(e[2]), self.val(e[3])
            ta, tb = self.array_type(e[2]), self.array_type(e[3])
            if ta and tb and ta != tb: raise BadSql(f"there is no operator {ta} {e[1]} {tb}")
            if e[1] == "<@": a, b = b, a
            if not (isinstance(a.v, SeqV) and isinstance(b.v, SeqV)): fail(f"{e[1]} on {a.v!r}"[:80])
            op = "and" if e[1] == "@>" else "or"
            fs = over(self.ctx, op, b.v, lambda x: self.mem(a.v, self.wrap(x).v))
            return B3(z3.And(fs) if op == "and" else z3.Or(fs))
        if k in ("col", "bind"):
            v = self.val(e)
            if isinstance(v.v, BoolV): return B3(z3.And(z3.Not(v.null), v.v.t), z3.And(z3.Not(v.null), z3.Not(v.v.t)))
        if k == "case":
            fail("CASE as condition")
        if k in ("insel", "exists", "scalar"): fail("nested SELECT")
        if k in ("lit", "num", "null"): 
            raise BadSql("a value used as condition")
        fail(f"sql condition {k}")
    def array_type(self, e):
        """the database type of an array operand, where it is certain"""
        norm = lambda t: {"character varying[]": "varchar[]"}.get(t, t)
        if e[0] == "cast": return norm(e[2])
        if e[0] == "col":
            from . import schema
            t = schema.types().get(e[1])
            return norm(t) if t and t.endswith("[]") else None
        if e[0] == "bind":
            v = self.wrap(e[1]).v
            ps = self.ctx.norm(v).parts if isinstance(v, SeqV) else []
            if ps and all(isinstance(self.wrap(p.v if isinstance(p, One) else p.tmpl).v, StrV) for p in ps): return "text[]"
        return None
    def each(self, op, x):
        return B3(each_const(self.ctx, op, x[1], x[2], self.truth(x[3]).t))
    def odd_quant(self, op, a, seq):
        """x <> ANY(s) / x = ALL(s): decided by cases of small concrete lists only"""
        ps = self.ctx.norm(seq).parts
        if any(isinstance(p, Seg) for p in ps):
            n = self.ctx.const(f"odd_quant:{op}", ("bool",))      # differs from membership for some list
            return B3(n)
        xs = [self.compare(op, a, self.wrap(p.v)) for p in ps]
        return B3(z3.Or([x.t for x in xs] + [z3.BoolVal(False)])) if op == "<>" else B3(z3.And([x.t for x in xs] + [z3.BoolVal(True)]))
    def mem(self, seq, v):
        """v is an element of the array"""
        ctx = self.ctx
        fs = []
        for p in ctx.norm(ctx.deref(seq)).parts:
            x = self.wrap(p.v if isinstance(p, One) else p.tmpl).v
            a, b, kind = self.comparable(v, x)
            if isinstance(p, One): fs.append(a == b)
            else: fs.append(self.mem_seg(p, a, b))
        return z3.Or(fs + [z3.BoolVal(False)])
    def mem_seg(self, p, a, b):
        ctx = self.ctx
        g = z3.simplify(z3.And(p.guard, a == b))
        gt = ctx.prim(ctx.generic(p.leaf))
        if gt is None:
            # enum elements: all possible tags
            gen = ctx.generic(p.leaf)
            if isinstance(gen, EnumV) and ctx.is_clike(gen.ty):
                tag = ctx.tagt(gen)
                return z3.Or([z3.And(MEM(p.leaf.memroot, z3.IntVal(i)), z3.substitute(g, (tag, z3.IntVal(i)))) for i in range(len(ctx.variants(gen.ty)))])
            fail("membership in a list of structures")
        m = ctx.mem_formula(p, g)
        if m is None: m = each_const(ctx, "or", p.leaf, p.guard, a == b)
        return m


def interval(s):
    """nanoseconds of an interval literal"""
    m = re.fullmatch(r"(\d+):(\d+):(\d+)(\.\d+)?", s.strip())
    if m:
        h, mi, se = int(m.group(1)), int(m.group(2)), int(m.group(3))
        fr = int(((m.group(4) or ".0")[1:] + "0" * 9)[:9])
        return ((h * 60 + mi) * 60 + se) * NS + fr
    m = re.fullmatch(r"(\d+(?:\.\d+)?)\s*([a-z]+)", s.strip())
    if m:
        u = {"ms": 10**6, "milliseconds": 10**6, "millisecond": 10**6, "s": NS, "second": NS, "seconds": NS, "minute": 60 * NS, "minutes": 60 * NS,
             "hour": 3600 * NS, "hours": 3600 * NS, "day": 86400 * NS, "days": 86400 * NS}.get(m.group(2))
        if u: return int(float(m.group(1)) * u)
    fail(f"interval {s!r}")


def row_of(h, job, key=None):
    """the columns of a job's row"""
    r = dict(job.f)
    r["uniqueness_key"] = key if key is not None else h.ctx.none(Ty("i64"))
    return r
