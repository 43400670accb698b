"""Runs the obligations of a property (in parallel), replays, and writes the evidence."""
import sys, os, time, json, importlib, subprocess, multiprocessing as mp, multiprocessing.connection, traceback
from . import harness as HN
from .program import Program, VERIF, REPO, Unsupported
from .ctx import Stats

T0 = time.time()
PROG = None
MOD = None


def props():
    out = {}
    for l in open(os.path.join(VERIF, "properties.jsonl")):
        if l.strip():
            d = json.loads(l); out[d["id"]] = d
    return out


def work(arg):
    idx, bound, deadline = arg
    name, fn, opt = MOD.HARNESSES[idx]
    o = {k: v for k, v in opt.items() if k not in ("fallback",)}
    if bound is not None: o["bound"] = bound; name = f"{name} [bounded {bound}]"
    st, res = Stats(), HN.Result()
    try:
        ok = HN.run_harness(PROG, st, res, name, fn, deadline=deadline, **o)
    except Exception as e:
        res.unsupported.append((name, "internal: " + "".join(traceback.format_exception_only(type(e), e)).strip()[:300] + " @ " + traceback.format_exc().splitlines()[-3].strip()))
        ok = False
    d = dict(idx=idx, name=name, ok=ok, bound=bound, obl=res.obl, unsupported=res.unsupported, reached=res.reached, covers=res.covers,
             obligations=st.obligations, discharged=st.discharged, solver_s=st.solver_s, queries=st.queries, paths=st.paths,
             fns=st.fns, assumed=st.assumed)
    return d


def child(job, conn):
    try: conn.send(work(job))
    except Exception as e: conn.send(None)
    conn.close()


def pool(jobs, limit, width=8):
    """runs the jobs in processes of their own, each ended after its time limit (-> outside reach)"""
    mpc = mp.get_context("fork")
    todo, running, out = list(jobs), [], []
    while todo or running:
        while todo and len(running) < width:
            j = todo.pop(0)
            r, w = mpc.Pipe(False)
            p = mpc.Process(target=child, args=(j, w)); p.start(); w.close()
            running.append((p, r, j, time.time() + limit))
        mp.connection.wait([x[1] for x in running], timeout=1)
        rest = []
        for p, r, j, t in running:
            d = None; done = False
            if r.poll():
                try: d = r.recv()
                except EOFError: pass
                done = True
            elif not p.is_alive(): done = True
            elif time.time() > t: p.kill(); done = True
            if not done: rest.append((p, r, j, t)); continue
            p.join(); r.close()
            if d is None:
                n = MOD.HARNESSES[j[0]][0]
                d = dict(idx=j[0], name=n, ok=False, bound=j[1], obl={}, unsupported=[(n, "no result within the time limit")], reached={}, covers={},
                         obligations=0, discharged=0, solver_s=0, queries=0, paths=0, fns={}, assumed={})
            out.append(d)
        running = rest
    return sorted(out, key=lambda d: d["idx"])


def run_all(limit):
    now = time.time()
    rs = pool([(i, None, now + limit) for i in range(len(MOD.HARNESSES))], limit + 20)
    again = []
    for r in rs:
        fb = MOD.HARNESSES[r["idx"]][2].get("fallback", {"table": 2, "inner": 1})
        if not r["ok"] and fb is not None: again.append((r["idx"], fb, time.time() + 100))
    if again: rs += pool(again, 110)
    return rs


def main(argv):
    global PROG, MOD
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv: tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    pr = props()[pid]
    MOD = importlib.import_module("rexv.props." + pid.lower())
    from . import replay
    broken = None
    try:
        PROG = Program()
        if hasattr(MOD, "prepare"): MOD.prepare(PROG)
    except RuntimeError as e:
        broken = str(e)
    rs = run_all(240 if tier == "quick" else 3000) if not broken else []
    failed, unknown, unsup = {}, {}, []
    assumed, fns = {}, {}
    obligations = discharged = bounded_n = 0
    fallback_ok = set()
    for r in rs:
        for k, o in r["obl"].items():
            if o["status"] == "failed": failed[k] = o["detail"]
            elif o["status"] == "unknown": unknown[k] = o["detail"]
        for k, v in r["assumed"].items(): assumed[k] = assumed.get(k, 0) + v
        fns.update(r["fns"])
        if r["bound"] is None and r["ok"]:
            obligations += r["obligations"]; discharged += r["discharged"]
        elif r["bound"] is not None and r["ok"]:
            bounded_n += r["obligations"]; fallback_ok.add(r["idx"])
        for u in r["unsupported"]: unsup.append(u)
        for k, c in r["covers"].items():
            if not c: unsup.append((k, "this case is not reachable (vacuity guard)"))
    doubt = failed or unknown or unsup or broken or not obligations
    conc = replay.run(pid, tier, seed) if (doubt or tier != "quick") and not os.environ.get("REXV_NOREPLAY") else {"n": 0, "failures": [], "messages": []}
    known = load_known(pid)
    viol = []
    os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
    for c in conc.get("failures", []):
        if match_known(known, c):
            continue
        p = os.path.join(OUT, "replays", f"{pid}-input.json")
        json.dump({"property": pid, "kind": "failing input on the real code", "case": c, "failed_obligations": list(failed)}, open(p, "w"), indent=1)
        viol.append(f"VIOLATION property={pid} replay={p}")
        break
    if not viol and failed:
        p = os.path.join(OUT, "replays", f"{pid}-obligation.json")
        json.dump({"property": pid, "kind": "failed obligation (no failing input found)", "obligations": failed,
                   "concrete_cases_tried": conc.get("n", 0)}, open(p, "w"), indent=1, default=str)
        viol.append(f"VIOLATION property={pid} replay={p} no-failing-input-found")
    for k in known:
        if k.get("kind") == "known": print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for name, msg in unsup: print(f"note: {name}: {msg}")
    for k in unknown: print(f"note: undecided obligation {k}: {unknown[k].get('reason')}")
    for k in failed: print(f"failed obligation: {k}")
    for m in conc.get("messages", []): print("note: " + m)
    names = sorted({k for r in rs for k in r["obl"]})
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "proof",
          "coverage": {
              "obligations": obligations, "discharged": discharged,
              "checker_cmd": f"python3-vt /verif/check.py {pid}",
              "trusted_base": ["rexv (verification condition generator in /verif/rexv, symbolic execution of the parsed function bodies)",
                               "rsast (syn 2 parser front end)", "z3 (python bindings)", "rustc, for the concrete replays"] +
                              sorted(f"assumed contract: {k}" for k in assumed if not k.startswith("contract:")),
              "back_end": "z3 " + z3v(),
              "obligation_names": names[:400],
              "functions_under_contract": sorted(f"{k} ({v[0]})" for k, v in fns.items()),
              "contracts_used_at_call_sites": sorted(k[9:] for k in assumed if k.startswith("contract:")),
              "harnesses": [dict(name=r["name"], paths=r["paths"], obligations=r["obligations"], discharged=r["discharged"], bounded=r["bound"] is not None, solver_s=round(r["solver_s"], 2)) for r in rs],
              "paths": sum(r["paths"] for r in rs), "solver_queries": sum(r["queries"] for r in rs), "solver_s": round(sum(r["solver_s"] for r in rs), 2),
              "undecided": sorted(unknown), "outside_reach": [f"{a}: {b}" for a, b in unsup], "bounded_obligations": bounded_n,
              "failed": sorted(failed), "concrete_replays": {k: v for k, v in conc.items() if k != "failures"},
          },
          "assumptions": list(getattr(MOD, "ASSUMPTIONS", [])) + COMMON,
          "wall_s": round(time.time() - T0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(OUT, "evidence", f"{pid}.json"), "w"), indent=1, default=str)
    print(f"{pid}: {discharged}/{obligations} obligations discharged ({len(names)} named), {bounded_n} bounded, {len(failed)} failed, {len(unknown)} undecided, "
          f"{len(unsup)} outside reach, {conc.get('n', 0)} concrete cases, {time.time()-T0:.1f} s")
    for v in viol: print(v)
    if viol: return 1
    if broken:
        print("error: " + broken); 
        return 2 if not conc.get("n") else 0
    if (unsup or unknown) and not all_covered(rs, fallback_ok):
        print(f"note: not decided in full: held on what was explored ({discharged} obligations, {bounded_n} bounded ones, {conc.get('n', 0)} concrete cases)")
    if not discharged and not bounded_n and not conc.get("n"):
        print("error: nothing could be explored"); return 2
    return 0


OUT = os.environ.get("REXV_OUT") or VERIF     # scratch runs write elsewhere
COMMON = ["locks are not poisoned", "the clock does not go backwards and is read as constant between suspension points",
          "uninterpreted serde, hash and display functions are deterministic", "memory allocation succeeds"]


def all_covered(rs, fb):
    return all(r["ok"] or r["idx"] in fb for r in rs if r["bound"] is None)


def z3v():
    import z3
    return z3.get_version_string()


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)) if k.get("property") == pid]


def match_known(known, c):
    for k in known:
        if k.get("kind") == "known" and k.get("case_tag") and k["case_tag"] in c.get("tags", []): return True
    return False
