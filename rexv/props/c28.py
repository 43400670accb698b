"""C28: an enqueued-job assertion passes exactly when the backend holds the jobs it describes."""
import os, re, subprocess, json, tempfile
from ..harness import *
from ..lib import ENC, ENC_OK
from ..program import REPO, build_rsast
from .c09 import member
from ..sql import over
from . import c10, c22

CONDS = [("with_data", "data"), ("with_metadata", "meta"), ("tagged_with", "tags"), ("scheduled_at", "at"), ("scheduled_after", "after"),
         ("scheduled_before", "before"), ("for_executor", "\"literal_executor\""), ("for_executor", "Probe")]
HEADS = [("", 1, False), ("to: backend, ", 1, True), ("1 job, ", 1, False), ("1 job, to: backend, ", 1, True), ("2 jobs, ", 2, False),
         ("0 jobs, to: backend, ", 0, True), ("3 jobs, to: backend, ", 3, True), ("0 jobs, ", 0, False)]


def shapes():
    """(name, head, conditions, trailing comma): every head, every condition alone, every ordered pair, all together"""
    out = []
    for i, (head, n, local) in enumerate(HEADS): out.append((f"head {head.strip(', ') or 'none'}", i, [0, 7], False))
    for i, (head, n, local) in enumerate(HEADS): out.append((f"head {head.strip(', ') or 'none'}, literal executor", i, [6], True))
    label = lambda i: CONDS[i][0] + (" literal" if i == 6 else "")
    for i in range(len(CONDS)):
        for comma in (False, True): out.append((label(i) + ("," if comma else ""), 6 if comma else 1, [i], comma))
    for i in range(len(CONDS)):
        for j in range(len(CONDS)):
            if (i, j) != (7, 7): out.append((label(i) + ", " + label(j), 6 if i % 2 else 1, [i, j], (i + j) % 2 == 0))
    out.append(("all conditions", 1, [0, 1, 2, 3, 4, 5, 7], True))
    out.append(("all conditions, reversed", 6, [6, 5, 4, 3, 2, 1, 0], False))
    return out


SHAPES = shapes()


def source():
    path = os.path.join(REPO, "rexecutor", "src", "testing.rs")
    lines = ["macro_rules! vec { ($x:expr; $n:expr) => { Vec::from([$x; $n]) }; ($($x:expr),* $(,)?) => { Vec::from([$($x),*]) } }", "#[macro_use]", f"#[path = {json.dumps(path)}]", "pub mod testing;", "pub mod probes {",
             "use chrono::{DateTime, Utc}; use serde::Serialize;", "pub struct Probe;",
             "impl crate::executor::Executor for Probe { const NAME: &'static str = \"probe_executor\"; }"]
    for k, (_, head, cs, comma) in enumerate(SHAPES):
        body = HEADS[head][0] + ", ".join(f"{CONDS[c][0]}: {CONDS[c][1]}" for c in cs) + ("," if comma else "")
        lines.append(f"pub async fn probe{k}<B: crate::backend::Backend, D: Serialize, M: Serialize>(backend: B, data: D, meta: M, tags: Vec<&'static str>, "
                     f"at: DateTime<Utc>, after: DateTime<Utc>, before: DateTime<Utc>) {{ assert_enqueued!({body}); }}")
    return "\n".join(lines + ["}"])


def prepare(prog):
    """the macro's uses, expanded by rustc from the macro definition in /repo's current source"""
    d = tempfile.mkdtemp(prefix="rexv-c28-")
    try:
        src, out = os.path.join(d, "lib.rs"), os.path.join(d, "out.rs")
        open(src, "w").write(source())
        r = subprocess.run(["rustc", "--edition", "2024", "--crate-type", "lib", "--crate-name", "probes", "-Zunpretty=expanded", src], capture_output=True, text=True,
                           env=dict(os.environ, RUSTC_BOOTSTRAP="1"), cwd=d)
        prog.c28 = {"rejected": {}, "log": r.stderr[-3000:]}
        # names are resolved by the generator, against the whole crate; anything else rustc objects to is a use it does not accept
        for e in re.split(r"\n(?=error)", r.stderr):
            if re.match(r"error\[E0(432|433|425|412|405|404)\]", e) or e.startswith("error: aborting") or not e.startswith("error"): continue
            m = re.search(r"lib\.rs:(\d+):", e)
            if m and int(m.group(1)) - 9 in range(len(SHAPES)): prog.c28["rejected"][int(m.group(1)) - 9] = e.splitlines()[0]
            else: prog.c28["rejected"][-1] = e.splitlines()[0]
        m = re.search(r"^pub mod probes \{\n(.*)^\}", r.stdout, re.S | re.M)
        if not m: prog.c28["rejected"][-1] = "no expansion: " + r.stderr[:200]; return
        open(out, "w").write(m.group(1))
        r = subprocess.run([build_rsast(), out], capture_output=True, text=True)
        if r.returncode: prog.c28["rejected"][-1] = "expansion not parsed: " + r.stderr[:200]; return
        prog.add_mod(("rexecutor", "vp_probes"), json.loads(r.stdout)[out], "expansion of assert_enqueued! (rexecutor/src/testing.rs)")
        prog.resolve_impls([prog.mods[("rexecutor", "vp_probes")]])
    finally:
        for f in os.listdir(d): os.unlink(os.path.join(d, f))
        os.rmdir(d)


def meaning(h, c, v, job):
    """the condition, for a stored job"""
    ctx, f = h.ctx, job.f
    name = CONDS[c][0]
    if name == "with_data": return f["data"].t == ENC(h.lib.term(v["data"]))
    if name == "with_metadata": return f["metadata"].t == ENC(h.lib.term(v["meta"]))
    if name == "tagged_with": return z3.And(over(ctx, "and", v["tags"], lambda t: member(h, f["tags"], ctx.prim(t))[0]))
    if name == "scheduled_at": return f["scheduled_at"].t == v["at"].t
    if name == "scheduled_after": return f["scheduled_at"].t > v["after"].t
    if name == "scheduled_before": return f["scheduled_at"].t < v["before"].t
    return f["executor"].t == ctx.lit_str("probe_executor" if CONDS[c][1] == "Probe" else "literal_executor").t


def shape(k):
    def run(h):
        ctx = h.ctx
        _, head, cs, _ = SHAPES[k]
        _, n, local = HEADS[head]
        rej = ctx.prog.c28["rejected"]
        h.prove("the assertion is accepted by the compiler", k not in rej)
        if k in rej: return
        if -1 in rej: fail(rej[-1])
        fi = ctx.prog.fns.get(f"rexecutor::vp_probes::probe{k}")
        if fi is None: fail("expansion not found")
        v = {"data": h.fresh(Ty("param", (Ty("D"),)), "data"), "meta": h.fresh(Ty("param", (Ty("M"),)), "meta"), "tags": h.fresh(VEC(STR), "tags")}
        for x in ("at", "after", "before"): v[x] = h.fresh(DT, x)
        for x in ("data", "meta"): ctx.assume(ENC_OK(h.lib.term(v[x])))
        results = []
        def opaque(it, tr, name, args, ret, nm):
            if tr != "Backend" or name != "query": return None
            ctx.emit(("call", tr, name, args, nm))
            res = ctx.fresh(ret, nm)
            seq = None
            if ctx.decide(ctx.tagt(res) == 0):
                seq = ctx.deref(res.pay(0)["0"])
                if ctx.decide(h.lib.is_empty(seq)): seq = SeqV([], JOB)
                res = ctx.ok(seq, VEC(JOB), BERR)
            else: res = ctx.err(res.pay(1)["0"], VEC(JOB), BERR)
            results.append((ctx.deref(args[0]), ctx.deref(args[1]), seq))
            return res
        ctx.notes["opaque"] = opaque
        given = c22.back(h, "G")
        if not local:
            g = c22.setg(h, "G")
            if g is None: return
            given = c22.back(h, "other")
        G = c22.back(h, "G")
        kind, r = h.run(lambda: h.it.call(fi, [given] + [v[x] for x in ("data", "meta", "tags", "at", "after", "before")], None))
        h.prove("the right backend is asked", z3.And([b.t == G.t for b, _, _ in results] + [z3.BoolVal(len(results) > 0)]))
        if not results: return
        job = h.fresh(JOB, "job")
        want = z3.And([meaning(h, c, v, job) for c in cs])
        found = None
        goals = []
        for _, q, seq in results:
            g = c10.sem(h, q, job) == want
            goals.append(g)
            if found is None and ctx.must(g): found = (q, seq)
        if found is None:
            h.prove("the backend is asked for the jobs the conditions describe", goals[0])
            return
        h.prove("the backend is asked for the jobs the conditions describe", True)
        seq = found[1]
        if seq is None:
            h.prove("the assertion does not pass when the backend fails", kind != "val"); return
        if any(s is None for _, _, s in results): return      # another query, for the report, failed
        count = h.lib.length(seq).t
        if n == 1:
            h.prove("no matching job: the assertion fails", z3.Implies(count == 0, z3.BoolVal(kind != "val")))
            h.prove("one matching job: the assertion passes", z3.Implies(count == 1, z3.BoolVal(kind == "val")))
        else:
            h.prove("the assertion passes exactly for the stated number of jobs", (count == n) == z3.BoolVal(kind == "val"))
        if kind == "val": h.cover("passes")
        else: h.cover("fails")
    return run


HARNESSES = [(name, shape(k), {}) for k, (name, _, _, _) in enumerate(SHAPES)]
ASSUMPTIONS = ["the values given to an assertion can be encoded", "whether an assertion without a count, or for 1 job, holds of several matching jobs is left open (the documentation does not say)"]
NOTE = "Uses of the macro: every head, every condition alone and every ordered pair of conditions, with and without a trailing comma, and all conditions together, each for all values; longer lists of other orders are not enumerated."
