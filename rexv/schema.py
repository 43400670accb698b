"""The database side as the migrations define it: column defaults, triggers and the trigger functions (a small
subset of PL/pgSQL), read from the migration files of the working tree on every run."""
import os, re, glob
from . import sql
from .ctx import fail


def text():
    from .program import REPO
    fs = sorted(glob.glob(os.path.join(REPO, "rexecutor-sqlx/migrations/*.sql")))
    fs = [f for f in fs if not f.endswith(".down.sql")]
    if not fs: fail("no migrations")
    s = "\n".join(open(f).read() for f in fs)
    s = re.sub(r"/\*.*?\*/", " ", s, flags=re.S)
    return re.sub(r"--[^\n]*", " ", s)


def alters(s):
    """later changes of what was created are outside of this reader"""
    if re.search(r"\b(alter\s+table|drop\s+trigger|drop\s+function|alter\s+type|create\s+rule)\b", s, re.I): fail("migrations that alter what was created")


def columns():
    """the column definitions of the job table: (name, rest)"""
    s = text(); alters(s)
    m = re.search(r"create\s+table\s+(?:if\s+not\s+exists\s+)?(?:public\.)?rexecutor_jobs\s*\(", s, re.I)
    if not m: fail("the job table in the migrations")
    depth, i, cols, cur = 1, m.end(), [], ""
    while depth:
        c = s[i]; i += 1
        if c in "([": depth += 1
        if c in ")]": depth -= 1
        if depth == 0 or (c == "," and depth == 1): cols.append(cur.strip()); cur = ""
        else: cur += c
    ws = [c.split(None, 1) for c in cols]
    return [(w[0].strip('"').lower(), w[1]) for w in ws if w[0].lower() not in ("primary", "unique", "constraint", "check", "foreign")]


def types():
    """column -> its type, in lower case"""
    out = {}
    for c, r in columns():
        m = re.match(r"((?:character\s+varying|timestamp\s+with\s+time\s+zone|double\s+precision|\w+)\s*(?:\(\d+\))?)\s*((?:\[\s*\])*)", r.strip(), re.I)
        out[c] = re.sub(r"\s+", " ", m.group(1)).strip().lower() + m.group(2).replace(" ", "") if m else None
    return out


def defaults():
    """column -> text of its default, or None"""
    out = {}
    for w in columns():
        d = re.search(r"\bdefault\s+(.*?)(?=\s+(?:not\s+null|null|primary|unique|check|references)\b|$)", w[1], re.I | re.S)
        out[w[0]] = d.group(1).strip() if d else ("serial" if re.match(r"(big|small)?serial\b", w[1], re.I) else None)
    return out


def triggers():
    """-> [(events, condition or None, function name)] on the job table, after each row"""
    s = text(); alters(s)
    out = []
    for m in re.finditer(r"create\s+(?:or\s+replace\s+)?(?:constraint\s+)?trigger\s+\S+\s+(before|after|instead\s+of)\s+(.*?)\s+on\s+(?:public\.)?(\w+)\s+(.*?)execute\s+(?:function|procedure)\s+(?:public\.)?(\w+)\s*\(", s, re.I | re.S):
        when, evs, tab, rest, fn = m.groups()
        if tab.lower() != "rexecutor_jobs": continue
        evs = [e.strip().lower() for e in re.split(r"\s+or\s+", evs, flags=re.I)]
        w = re.search(r"when\s*\((.*)\)\s*$", rest.strip(), re.I | re.S)
        if not re.search(r"for\s+(each\s+)?row", rest, re.I): fail("trigger for each statement")
        if when.lower() != "after": fail("trigger before the change")
        out.append((evs, w.group(1) if w else None, fn.lower()))
    return out


class Body:
    def __init__(self, toks): self.p = sql.Parser(toks)
    def stmts(self, *end):
        out = []
        while not self.p.isid(*end):
            if self.p.peek()[0] == "end": fail("end of a trigger function")
            out.append(self.stmt())
        return out
    def stmt(self):
        p = self.p
        if p.try_kw("if"): return self.if_()
        if p.try_kw("perform"):
            e = p.expr(); p.op(";"); return ("perform", e)
        if p.try_kw("return"):
            if not p.isop(";"): p.expr()
            p.op(";"); return ("return",)
        if p.isid("null") and p.isop(";", 1): p.i += 2; return ("skip",)
        x = p.next()
        if x[0] != "id": fail(f"statement of a trigger function at {x[2]!r}")
        if p.isop("="): p.i += 1
        else: fail(f"statement {x[1]} of a trigger function")
        e = p.expr(); p.op(";")
        return ("set", x[1], e)
    def if_(self):
        p = self.p
        c = p.expr(); p.kw("then")
        a = self.stmts("elsif", "elseif", "else", "end")
        b = []
        if p.try_kw("elsif") or p.try_kw("elseif"): b = [self.if_()]; return ("if", c, a, b)
        if p.try_kw("else"): b = self.stmts("end")
        p.kw("end"); p.kw("if"); p.op(";")
        return ("if", c, a, b)


def function(name):
    """the statements of a trigger function"""
    s = text()
    ms = list(re.finditer(r"create\s+(?:or\s+replace\s+)?function\s+(?:public\.)?(\w+)\s*\(\s*\)(.*?)as\s+(\$\w*\$)(.*?)\3", s, re.I | re.S))
    ms = [m for m in ms if m.group(1).lower() == name]
    if not ms: fail(f"trigger function {name}")
    body = ms[-1].group(4)
    m = re.search(r"^\s*(declare\b(.*?))?\bbegin\b(.*)\bend\s*;?\s*$", body, re.I | re.S)
    if not m: fail("body of a trigger function")
    decl = m.group(2) or ""
    if re.search(r":=|\bdefault\b|=", decl, re.I): fail("initialised variables of a trigger function")
    b = re.sub(r"(\w)\s*:=", r"\1 =", m.group(3))
    if re.search(r"\bold\b|\btg_", b, re.I): fail("trigger function that looks at OLD or TG_")
    toks = sql.lex([("text", b)])
    return Body(toks + [("id", "end", "end")]).stmts("end")
