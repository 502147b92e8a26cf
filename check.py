#!/usr/bin/env python3
"""Decide one property: build the program and its harnesses from /repo, execute the harnesses
symbolically, replay what the solver found on the native build, write the evidence file.

    check.py <property> <quick|thorough>      exit 0 held / 1 VIOLATION / 2 no answer
    check.py setup                            build everything
    check.py list                             properties and harnesses
"""
import fcntl
import hashlib
import json
import os
import re
import signal
import subprocess
import sys
import threading
import time

V = os.path.dirname(os.path.abspath(__file__))
T = os.path.join(V, "target")
REPO = "/repo"
sys.path.insert(0, V)
import registry  # noqa: E402

ENV = dict(os.environ, RUSTUP_TOOLCHAIN="1.70.0", CARGO_NET_OFFLINE="true")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
    ENV.pop(k, None)
OBSYM = f"{T}/engine/release/obsym"
LAUNCH = f"{T}/launch"
CORES = os.cpu_count() or 4
WITNESS = json.load(open(f"{V}/witness.json")) if os.path.exists(f"{V}/witness.json") else {}


class NoAnswer(Exception):
    pass


def sh(cmd, cwd, log):
    with open(log, "w") as f:
        r = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=f, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        tail = open(log).read()[-3000:]
        raise NoAnswer(f"build failed: {' '.join(cmd[:3])}\n{tail}")


def repo_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(f"{REPO}/programs"):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
        for n in sorted(files):
            p = os.path.join(root, n)
            h.update(p.encode() + b"\0")
            with open(p, "rb") as f:
                h.update(f.read())
    return h.hexdigest()


def build(crates):
    os.makedirs(T, exist_ok=True)
    with open(f"{T}/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        sh(["cargo", "build", "--release", "--offline", "--target-dir", f"{T}/engine"], f"{V}/engine", f"{T}/engine.log")
        if not os.path.exists(LAUNCH) or os.path.getmtime(LAUNCH) < os.path.getmtime(f"{V}/replay/launch.c"):
            sh(["gcc", "-O1", "-rdynamic", "-o", LAUNCH, f"{V}/replay/launch.c", "-ldl"], V, f"{T}/launch.log")
        # cargo decides by time stamps; decide by content
        stamp, now = f"{T}/repo.sha", repo_hash()
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if old != now:
            for c in registry.CRATES.values():
                fp = f"{T}/{c['target']}/release/.fingerprint"
                if os.path.isdir(fp):
                    for d in os.listdir(fp):
                        if d.startswith(("openbook-v2-", c["package"] + "-")):
                            subprocess.run(["rm", "-rf", os.path.join(fp, d)])
            with open(stamp, "w") as f:
                f.write(now)
        for name in crates:
            c = registry.CRATES[name]
            sh(
                ["cargo", "rustc", "--release", "--offline", "--target-dir", f"{T}/{c['target']}", "--",
                 "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"],
                f"{V}/{c['dir']}", f"{T}/{c['target']}.log",
            )


def paths(crate):
    c = registry.CRATES[crate]
    lib = c["package"].replace("-", "_")
    d = f"{T}/{c['target']}/release"
    return f"{d}/deps/{lib}.ll", f"{d}/lib{lib}.so"


def replay(crate, harness, inputs):
    """Run natively; returns (end, covers)"""
    try:
        r = subprocess.run([LAUNCH, paths(crate)[1], harness, inputs + " "], capture_output=True, text=True, timeout=120)
    except subprocess.TimeoutExpired:
        return "timeout", []
    covers = re.findall(r"^COVER (.*)$", r.stdout, re.M)
    m = re.search(r"^END (.*)$", r.stdout, re.M)
    if m:
        return m.group(1).strip(), covers
    if r.returncode in (-signal.SIGABRT, -signal.SIGILL, -signal.SIGTRAP):
        return "panic", covers
    return f"crash {r.returncode}", covers


class Run:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.procs = set()
        self.lock = threading.Lock()
        self.free = CORES
        self.cv = threading.Condition(self.lock)
        self.stop = False
        self.results = {}
        self.viol = []
        self.errs = []
        self.validated = 0
        self.mismatch = []

    def one(self, h):
        jobs = min(h.get("jobs", 1), CORES)
        with self.cv:
            while self.free < jobs and not self.stop:
                self.cv.wait()
            if self.stop:
                return
            self.free -= jobs
        try:
            self.exec(h, jobs)
        except Exception as e:  # noqa: BLE001
            with self.lock:
                self.errs.append(f"{h['name']}: {e!r}")
        finally:
            with self.cv:
                self.free += jobs
                self.cv.notify_all()

    def exec(self, h, jobs):
        crate = h.get("crate", "full")
        out = f"{T}/out/{self.prop}-{h['name']}.json"
        if os.path.exists(out):
            os.remove(out)
        budget = h.get("budget", 400 if self.tier == "quick" else 3000)
        cmd = [OBSYM, paths(crate)[0], h["name"], "--mode", h.get("mode", "int"), "--jobs", str(jobs), "--budget", str(budget), "--out", out]
        for k in ("branch-ms", "assert-ms", "max-steps", "pda-stub"):
            if k in h:
                cmd += ["--" + k, str(h[k])]
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
        with self.lock:
            self.procs.add(p)
        try:
            p.wait(timeout=budget + 120)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
        with self.lock:
            self.procs.discard(p)
            if self.stop:
                return
        if not os.path.exists(out):
            raise NoAnswer(f"engine ended without a result (exit {p.returncode})")
        r = json.load(open(out))
        with self.lock:
            self.results[h["name"]] = r
        for v in r["violations"]:
            end, _ = replay(crate, h["name"], v["inputs"])
            want = ["panic"] if v["id"] == "panic" else [f"assert {v['id']}"]
            if v["id"] == "hang":  # never returns, or not before memory is used up
                want = ["timeout", f"crash {-signal.SIGALRM}", f"crash {-signal.SIGABRT}", "panic"]
            v["native"] = end
            if end in want:
                with self.lock:
                    self.viol.append((h, v))
            else:
                with self.lock:
                    self.errs.append(f"{h['name']}: counterexample for {v['id']} does not reproduce natively ({end}): {v['inputs']}")
        if r["status"] not in ("ok", "violation"):
            with self.lock:
                self.errs.append(f"{h['name']}: {r['status']} {(r['errors'] + r['unknowns'])[:3]}")
        if r["status"] == "ok":
            miss = [c for c in h.get("covers", []) if not r["covers"].get(c)]
            for c in miss:
                # no value reaches a point that some values are known to reach: confirmed with one of those
                w = WITNESS.get(h["name"], {}).get(c)
                end, cov = replay(crate, h["name"], w) if w is not None else ("", [c])
                with self.lock:
                    if c not in cov:
                        self.viol.append((h, {"id": f"never reached: {c}", "inputs": w, "native": end, "trace": ""}))
                    else:
                        self.errs.append(f"{h['name']}: not reached: {c}")
            # the executor's own claims about concrete runs, checked against the native build
            for s in r["samples"][:12]:
                end, cov = replay(crate, h["name"], s["inputs"])
                got = " ".join([end.split()[0]] + cov)
                if got != s["end"]:
                    with self.lock:
                        self.errs.append(f"{h['name']}: native run differs: predicted [{s['end']}] got [{got}] for {s['inputs']}")
                else:
                    with self.lock:
                        self.validated += 1
        if self.viol and not self.keep_going():
            self.kill()

    def keep_going(self):
        return all(self.known(h, v) for h, v in self.viol)

    def known(self, h, v):
        for k in KNOWN:
            if k.get("status") == "open" and k["property"] == self.prop and k["harness"] == h["name"] and k["assert"] == v["id"]:
                return k
        return None

    def kill(self):
        with self.cv:
            self.stop = True
            for p in list(self.procs):
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
            self.cv.notify_all()


def load_known():
    p = f"{V}/known_findings.json"
    return json.load(open(p))["findings"] if os.path.exists(p) else []


KNOWN = load_known()


def main():
    if len(sys.argv) >= 2 and sys.argv[1] == "list":
        for p, hs in registry.CHECKS.items():
            print(p, [(h["name"], h.get("tier", "quick")) for h in hs])
        return 0
    if len(sys.argv) >= 2 and sys.argv[1] == "setup":
        build(list(registry.CRATES))
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    hs = [h for h in registry.CHECKS[prop] if tier == "thorough" or h.get("tier", "quick") == "quick"]
    if tier == "thorough":
        hidden = {h["replaces"] for h in hs if "replaces" in h}
        hs = [h for h in hs if h["name"] not in hidden]
    os.makedirs(f"{V}/evidence/replay", exist_ok=True)
    os.makedirs(f"{T}/out", exist_ok=True)
    run = Run(prop, tier)
    try:
        crates = sorted({h.get("crate", "full") for h in hs})
        build(crates)
        tb = time.time() - t0
        ths = [threading.Thread(target=run.one, args=(h,)) for h in sorted(hs, key=lambda h: h.get("cost", 1))]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
    except NoAnswer as e:
        run.errs.append(str(e))
        tb = time.time() - t0
    code = 0
    known_hits = []
    for h, v in run.viol:
        k = run.known(h, v)
        if k:
            known_hits.append(k)
            continue
        rp = f"{V}/evidence/replay/{prop}-{h['name']}-{re.sub(r'[^A-Za-z0-9_.-]', '_', v['id'])}.txt"
        with open(rp, "w") as f:
            f.write(f"property {prop}\nharness {h['name']}\nassertion {v['id']}\ninputs {v['inputs']}\nat {v['trace']}\n")
            f.write(f"replay: {LAUNCH} {paths(h.get('crate', 'full'))[1]} {h['name']} '{v['inputs']}'\n")
        if code != 1:
            print(f"VIOLATION property={prop} replay={rp}")
        print(f"  {h['name']}: {v['id']}: {v['inputs']}")
        code = 1
    for k in {json.dumps(k, sort_keys=True): k for k in known_hits}.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if code == 0 and run.errs:
        code = 2
    for e in run.errs:
        print("ERROR", e)
    res = run.results
    tot = lambda k: sum(r.get(k, 0) for r in res.values())  # noqa: E731
    funcs = set()
    for r in res.values():
        funcs.update(f for f in r["functions"] if "openbook_v2" in f)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": int(tot("done") + tot("aborted")),
            "transitions": int(tot("steps")),
            "traces_validated_against_impl": run.validated,
            "samples": [{"harness": n, "end": s["end"], "inputs": s["inputs"]} for n, r in sorted(res.items()) for s in r["samples"][:2]][:20],
            "explanation": "states: feasible symbolic path ends; transitions: IR instructions executed symbolically; "
            "traces validated: path models re-run on the native build with the predicted outcome",
            "harnesses": {
                n: {
                    "mode": next((h.get("mode", "int") for h in hs if h["name"] == n), ""),
                    "bounds": next((h.get("bounds", "") for h in hs if h["name"] == n), ""),
                    "status": r["status"],
                    "paths_completed": int(r.get("done", 0)),
                    "paths_aborted_by_the_program": int(r.get("aborted", 0)),
                    "assertions": r["asserts"],
                    "covers": r["covers"],
                    "queries": int(r.get("queries", 0)),
                    "unsat": int(r.get("unsat", 0)),
                    "sat": int(r.get("sat", 0)),
                    "unknown": int(r.get("unknown", 0)),
                    "solver_s": r.get("solver_s", 0),
                    "max_query_s": r.get("max_query_s", 0),
                    "wall_s": r.get("wall_s", 0),
                    "solvers": r["solvers"],
                }
                for n, r in sorted(res.items())
            },
            "queries_discharged": int(tot("unsat")),
            "queries": int(tot("queries")),
            "solver_s": round(tot("solver_s"), 2),
            "build_s": round(tb, 1),
            "functions_encoded": sorted(funcs),
            "errors": run.errs,
        },
        "assumptions": registry.ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(run.viol) - len(known_hits),
    }
    with open(f"{V}/evidence/{prop}.json", "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: exit {code}; {len(res)}/{len(hs)} harnesses, {ev['coverage']['states']} paths, {int(tot('queries'))} queries, "
          f"solver {tot('solver_s'):.1f}s, build {tb:.1f}s, wall {time.time() - t0:.1f}s")
    return code


if __name__ == "__main__":
    sys.exit(main())
