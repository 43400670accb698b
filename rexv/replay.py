"""Concrete replays on the real code: the crate in /verif/replay, built against the working tree of /repo.

The batteries run the public API with generated inputs against reference oracles.  They are only ever a
second opinion: they turn a failed obligation into a failing input where they find one, and they stand in
(labelled bounded, never counted as proved) for functions that a change has taken outside the verifier's reach."""
import os, json, subprocess, tempfile, shutil
from .program import VERIF, REPO

BATTERIES = ["C%02d" % i for i in list(range(1, 11)) + [12] + list(range(14, 19)) + list(range(21, 27)) + [28]]


def build(pid):
    src = os.path.join(VERIF, "replay")
    tmp = None
    if REPO != "/repo":                    # mutation runs against a scratch tree
        tmp = tempfile.mkdtemp(prefix="rexv-replay-")
        for n in ("Cargo.toml", "Cargo.lock"): shutil.copy(os.path.join(src, n), tmp)
        shutil.copytree(os.path.join(src, "src"), os.path.join(tmp, "src"))
        t = os.path.join(tmp, "Cargo.toml")
        s = open(t).read().replace("/repo/", REPO.rstrip("/") + "/")
        open(t, "w").write(s)
        src = tmp
    env = dict(os.environ, CARGO_NET_OFFLINE="true")
    if tmp: env["CARGO_TARGET_DIR"] = "/tmp/rexv-replay-target"
    try:
        r = subprocess.run(["cargo", "build", "--offline", "--quiet"] + (["--features", "assertions"] if pid == "C28" else []), cwd=src, env=env, capture_output=True, text=True, timeout=300)
    except subprocess.TimeoutExpired:
        return None, tmp, "the replay crate did not build in time"
    if r.returncode:
        return None, tmp, "the replay crate does not build: " + (r.stderr.strip().splitlines() or ["?"])[0][:300]
    b = os.path.join(env.get("CARGO_TARGET_DIR", os.path.join(src, "target")), "debug", "replay")
    return b, tmp, None


def run(pid, tier, seed):
    out = {"n": 0, "failures": [], "messages": []}
    if pid not in BATTERIES:
        out["messages"].append("no battery of concrete replays for this property")
        return out
    b, tmp, err = build(pid)
    try:
        if err:
            out["messages"].append(err); return out
        scale = "1" if tier == "quick" else "20"
        limit = 150 if tier == "quick" else 1500
        try:
            r = subprocess.run([b, pid, str(seed), scale], capture_output=True, text=True, timeout=limit, env=dict(os.environ, RUST_BACKTRACE="0"))
        except subprocess.TimeoutExpired:
            # the batteries bound every wait: a run that never ends is one of the code under test
            out["messages"].append("the concrete replays did not end in time"); return out
        try:
            d = json.loads(r.stdout.strip().splitlines()[-1])
            out["n"] = d["n"]; out["failures"] = d["failures"]
        except (ValueError, IndexError, KeyError):
            out["messages"].append(f"the concrete replays ended with status {r.returncode}: {r.stderr.strip()[-300:]}")
        return out
    finally:
        if tmp: shutil.rmtree(tmp, ignore_errors=True)
