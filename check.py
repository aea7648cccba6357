#!/usr/bin/env python3
"""Decides one property: check.py ID [quick|thorough] [--only HARNESS]

Rebuilds the LLVM IR of the harness and of the crates of /repo it calls, executes the harness
symbolically (symx/), replays every counterexample and a sample of the explored paths against the
natively compiled code, and writes evidence/ID.json.
Exit 0: held on everything explored.  Exit 1: `VIOLATION property=ID replay=PATH`.
"""
import fcntl, glob, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from spec import PROPS, CRATES  # noqa: E402

ENV = dict(os.environ, RUSTC_WRAPPER="", RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true",
           CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", HOME="/root",
           PATH="/root/.cargo/bin:/usr/local/bin:/usr/local/sbin:/usr/bin:/usr/sbin:/bin:/sbin")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUST_BACKTRACE"):
    ENV.pop(k, None)
LOCAL = {"dreammaker", "dmm-tools", "dreamchecker", "interval-tree", "builtins-proc-macro", "dm-langserver", "dmdoc", "harness", "harness-lsp"}
SYMX = f"{HERE}/symx/target/release/symx"


def die(msg):
    print(msg, flush=True)
    sys.exit(2)


def digest(paths):
    import hashlib
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            files = [root]
        else:
            files = []
            for d, ds, fs in os.walk(root):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git", "node_modules"))
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as r:
                h.update(hashlib.sha256(r.read()).digest())
    return h.hexdigest()


def build(crates):
    """symx, and for each harness crate its whole-program LLVM module and its replay binary. A product is
    kept only while the contents of every source file it is made from are unchanged."""
    os.makedirs(f"{HERE}/out", exist_ok=True)
    with open(f"{HERE}/out/.lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        repo = digest(["/repo/crates", "/repo/Cargo.toml", "/repo/Cargo.lock"])
        jobs = [("symx", ["cargo", "build", "--release", "--offline", "-q"], f"{HERE}/symx", "target", SYMX,
                 digest([f"{HERE}/symx"]))]
        for c in crates:
            d = f"{HERE}/{CRATES[c]['dir']}"
            key = digest([d]) + repo
            jobs.append((c + " IR", ["cargo", "rustc", "--lib", "--crate-type", "cdylib", "--release", "--offline", "-q",
                                     "--", "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"],
                         d, "target/release", ir_of(c), key))
            jobs.append((c + " replay", ["cargo", "build", "--bin", "replay", "--features", "native", "--offline", "-q",
                                         "--target-dir", "target/native"], d, "target/native/debug", replay_of(c), key))
        ps = []
        for n, a, d, t, product, key in jobs:
            stamp = f"{HERE}/out/.stamp-{n.replace(' ', '-')}"
            try:
                if os.path.exists(product) and open(stamp).read() == key:
                    continue
            except OSError:
                pass
            os.makedirs(f"{d}/{t}", exist_ok=True)  # two cargos making the same folder race
            # cargo goes by time stamps; make it look again at everything that is not a registry crate
            for fp in glob.glob(f"{d}/{t}/.fingerprint/*"):
                if os.path.basename(fp).rsplit("-", 1)[0] in LOCAL:
                    shutil.rmtree(fp, ignore_errors=True)
            if os.path.exists(stamp):
                os.remove(stamp)
            if n != "symx" and os.path.exists(product):
                os.remove(product)
            ps.append((n, stamp, product, key, subprocess.Popen(a, cwd=d, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        bad = False
        for n, stamp, product, key, p in ps:
            o = p.communicate()[0].decode(errors="replace")
            if p.returncode != 0 or not os.path.exists(product):
                print(f"build of {n} failed:\n{o[-4000:]}")
                bad = True
            else:
                with open(stamp, "w") as f:
                    f.write(key)
        if bad:
            die("ERROR: the harness does not build against /repo")


def ir_of(c):
    return f"{HERE}/{CRATES[c]['dir']}/target/release/deps/{CRATES[c]['lib']}.ll"


def replay_of(c):
    return f"{HERE}/{CRATES[c]['dir']}/target/native/debug/replay"


def params(ps):
    return ",".join(str(p) for p in ps) or "-"


def limit_as():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def native(c, fn, ps, inputs, timeout):
    """Runs recorded inputs natively. Returns a list of result dicts; a crash or hang ends the list
    with a dict of kind abort or hang."""
    try:
        p = subprocess.run([replay_of(c), fn, params(ps), "-"], input="\n".join(inputs).encode(), env=ENV,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, preexec_fn=limit_as)
        out, end = p.stdout, ("abort" if p.returncode != 0 else None)
        err = p.stderr.decode(errors="replace")[-300:]
    except subprocess.TimeoutExpired as e:
        out, end, err = e.stdout or b"", "hang", ""
    res = []
    for l in out.decode(errors="replace").split("\n"):
        if l.startswith("\x01"):  # whatever else the code under test prints is its own
            try:
                res.append(json.loads(l[1:]))
            except ValueError:
                pass
    if end and len(res) < len(inputs):
        res.append({"kind": end, "msg": err, "notes": [], "log": [], "short": False, "used": 0})
    return res


def run_symx(h, tier, seed, known, keep):
    c = h["crate"]
    ps = h["params"][tier]
    out = tempfile.mkdtemp(prefix="symx-", dir=f"{HERE}/out")
    cmd = [SYMX, ir_of(c), h["fn"], "--out", out, "--workers", "8", "--time", str(h["time"][tier]), "--seed", str(seed),
           "--params", params(ps), "--max-instrs", str(h.get("max_instrs", 20_000_000)),
           "--max-depth", str(h.get("max_depth", 1500)),
           "--known", ",".join(known) or "-"]
    t = time.time()
    p = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    wall = time.time() - t
    if p.returncode != 0 or not os.path.exists(f"{out}/root.json"):
        die(f"ERROR: symx failed on {h['fn']}: {p.stdout.decode(errors='replace')[-2000:]}")
    tot = {"violations": [], "samples": [], "functions": set(), "engine": {}, "checks": {}, "reach": {}, "viol_count": {}}
    for f in glob.glob(f"{out}/part-*.json"):
        d = json.load(open(f))
        for k, v in d.items():
            if k == "functions":
                tot[k] |= set(v)
            elif isinstance(v, list):
                tot[k] += v
            elif k == "checks":
                for a, b in v.items():
                    tot[k][a] = [x + y for x, y in zip(tot[k].get(a, [0, 0, 0]), b)]
            elif isinstance(v, dict):
                for a, b in v.items():
                    tot[k][a] = tot[k].get(a, 0) + b
            elif k in ("max_vars", "solver_longest_s", "wall"):
                tot[k] = max(tot.get(k, 0), v)
            elif isinstance(v, (int, float)):
                tot[k] = tot.get(k, 0) + v
            else:
                tot[k] = v
    tot["wall"] = wall
    tot["bad_workers"] = json.load(open(f"{out}/root.json"))["bad_workers"]
    if not keep:
        shutil.rmtree(out)
    return tot


def demangle(names):
    try:
        p = subprocess.run(["c++filt", "-r"], input="\n".join(names).encode(), stdout=subprocess.PIPE, timeout=20)
        return p.stdout.decode().split("\n")
    except Exception:
        return names


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    pid = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    if only:
        args = [a for a in args if a != only]
        tier = args[1] if len(args) > 1 else "quick"
    verbose = "-v" in sys.argv
    prop = PROPS[pid]
    t0 = time.time()
    build(sorted({h["crate"] for h in prop["harnesses"]}))
    t_build = time.time() - t0

    findings = [f for f in json.load(open(f"{HERE}/known_findings.json"))["findings"]
                if f["property"] == pid and f["status"] == "known"]
    known_ids = [f["check"] for f in findings]
    seen_known, confirmed, unconfirmed = {}, [], []
    cov = {"harnesses": [], "functions_encoded": set()}
    tot = {k: 0 for k in ("paths", "pruned", "forks", "instrs", "queries", "q_sat", "q_unsat", "unknown", "dropped", "panics", "limit")}
    solver_s = 0.0
    longest = 0.0
    proved = concrete = validated = mismatched = 0
    exhaustive = True
    samples = []
    for h in prop["harnesses"]:
        if only and h["fn"] != only:
            continue
        if tier == "quick" and h["params"].get("quick") is None:
            continue
        r = run_symx(h, tier, seed, known_ids, False)
        ps = h["params"][tier]
        for k in tot:
            tot[k] += r.get(k, 0)
        solver_s += r.get("solver_s", 0)
        longest = max(longest, r.get("solver_longest_s", 0))
        # counterexamples: replayed one by one on the natively compiled code
        groups = {}
        for v in r["violations"]:
            groups.setdefault((v["kind"], v["id"]), []).append(v)
        for (kind, vid), vs in sorted(groups.items()):
            ok = None
            tried = 0
            for v in vs[:12]:
                tried += 1
                n = native(h["crate"], h["fn"], ps, [v["input"]], 20)
                n = n[-1] if n else {"kind": "none", "msg": "", "notes": []}
                hit = {"check": ("check",), "panic": ("panic", "abort"), "limit": ("hang", "abort")}.get(kind, ())
                if n["kind"] in hit or (n["kind"] in ("panic", "abort", "check") and kind in ("check", "panic", "limit")):
                    ok = (v, n)
                    break
            if ok is None:
                unconfirmed.append({"harness": h["fn"], "kind": kind, "id": vid, "tried": tried, "input": vs[0]["input"],
                                    "stack": vs[0]["stack"][:6]})
                continue
            v, n = ok
            rid = n["msg"] if n["kind"] == "check" else f"{n['kind']}: {n['msg']}"
            if n["kind"] == "check" and n["msg"] in known_ids:
                seen_known.setdefault(n["msg"], v)
                continue
            confirmed.append({"harness": h["fn"], "crate": h["crate"], "params": ps, "input": v["input"], "kind": n["kind"],
                              "what": rid, "notes": n.get("notes", []), "stack": v["stack"][:10], "tier": tier})
        # a sample of the explored paths: the native run must log the same values
        smp = r["samples"]
        smp.sort(key=lambda x: (hash_det(x[0], seed)))
        smp = smp[:h.get("validate", 200)]
        bad = []
        rest = list(smp)
        while rest:
            res = native(h["crate"], h["fn"], ps, [s[0] for s in rest], 60)
            for s, n in zip(rest, res):
                if n["kind"] == "ok" and n["log"] == s[1]:
                    validated += 1
                else:
                    mismatched += 1
                    bad.append({"input": s[0], "native": n["kind"], "msg": n["msg"], "native_log": n["log"][:40], "symbolic_log": s[1][:40]})
            if len(res) == 0:
                break
            rest = rest[len(res):]
        for s in smp[:2]:
            samples.append({"harness": h["fn"], "input_hex": s[0], "log": s[1][:24]})
        for k, v in r["checks"].items():
            concrete += v[0]
            proved += v[1]
        missing = [x for x in h.get("reach", []) if not r["reach"].get(x)]
        complete = not r.get("dropped") and not r["engine"] and not r.get("unknown") and not r["bad_workers"] and not r.get("limit")
        exhaustive = exhaustive and complete and not missing
        cov["functions_encoded"] |= {f for f in r["functions"]}
        cov["harnesses"].append({
            "fn": h["fn"], "bounds": h["bounds"][tier] if isinstance(h["bounds"], dict) else h["bounds"], "params": ps,
            "paths": r.get("paths", 0), "infeasible_paths": r.get("pruned", 0), "complete": complete,
            "paths_dropped_by_budget": r.get("dropped", 0), "engine_incomplete": r["engine"], "solver_unknown": r.get("unknown", 0),
            "assertions": {k: {"concrete": v[0], "proved_by_solver": v[1], "violated": v[2]} for k, v in sorted(r["checks"].items())},
            "reached": r["reach"], "not_reached": missing, "ir_instructions": r.get("instrs", 0), "queries": r.get("queries", 0),
            "queries_sat": r.get("q_sat", 0), "queries_unsat": r.get("q_unsat", 0), "solver_s": round(r.get("solver_s", 0), 3),
            "byte_table_decisions": r.get("table_decisions", 0), "byte_table_decisions_rechecked": r.get("table_crosschecked", 0),
            "final_path_conditions_sat": r.get("final_sat", 0), "wall_s": round(r["wall"], 2),
            "violations_by_id": r["viol_count"], "mismatches": bad[:5]})
        if verbose or bad or r["engine"] or missing:
            x = cov["harnesses"][-1]
            print(f"# {h['fn']}: paths={x['paths']} dropped={x['paths_dropped_by_budget']} engine={x['engine_incomplete']} "
                  f"unknown={x['solver_unknown']} limit={r.get('limit')} queries={x['queries']} solver={x['solver_s']}s wall={x['wall_s']}s "
                  f"not_reached={missing} mismatches={len(bad)}", flush=True)
            if verbose:
                print("#  ", json.dumps(x["assertions"]), json.dumps(x["reached"]))
                for b in bad[:3]:
                    print("#   MISMATCH", b)
    for u in unconfirmed:
        print(f"# unconfirmed (does not reproduce natively, not reported): {u}")

    fns = sorted(f for f in cov["functions_encoded"])
    repo_fns = [f for f in demangle(fns) if any(k in f for k in ("dreammaker", "dmm_tools", "dreamchecker", "interval_tree", "dm_langserver", "harness_lsp"))]
    coverage = {
        "states": tot["paths"], "transitions": tot["forks"] + tot["paths"], "traces_validated_against_impl": validated,
        "trace_mismatches": mismatched, "exhaustive": bool(exhaustive),
        "samples": samples[:8],
        "explanation": "states = symbolic execution paths finished (each stands for every input satisfying its path condition); "
                       "transitions = two-sided branch decisions on symbolic values plus paths; traces_validated = sampled paths whose "
                       "concrete witness was run natively and logged the values the symbolic run predicted",
        "functions_encoded": len(fns), "functions_encoded_of_repo": len(repo_fns), "functions_of_repo": repo_fns[:400],
        "assertions_decided_by_solver": proved, "assertions_concrete_on_path": concrete,
        "queries": tot["queries"], "queries_sat": tot["q_sat"], "queries_unsat": tot["q_unsat"], "solver_unknown": tot["unknown"],
        "solver_s": round(solver_s, 3), "solver_longest_query_s": longest, "paths_dropped_by_budget": tot["dropped"],
        "ir_instructions_executed": tot["instrs"], "build_s": round(t_build, 1),
        "harnesses": cov["harnesses"], "unconfirmed_counterexamples": unconfirmed,
        "known_findings_seen": {k: v["input"] for k, v in seen_known.items()},
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": coverage,
          "assumptions": prop.get("assumptions", []) + COMMON,
          "wall_s": round(time.time() - t0, 2), "violations": len(confirmed)}
    os.makedirs(f"{HERE}/evidence", exist_ok=True)
    with open(f"{HERE}/evidence/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1)
    for f in findings:
        if f["check"] in seen_known:
            print(f"KNOWN-FINDING: property={pid} {f['what']} (input {seen_known[f['check']]['input']})")
        else:
            print(f"# listed finding {f['check']} was not met on this run")
    if confirmed:
        rdir = f"{HERE}/out/replay"
        os.makedirs(rdir, exist_ok=True)
        for i, v in enumerate(confirmed[:20]):
            path = f"{rdir}/{pid}-{i}.json"
            v["command"] = f"{replay_of(v['crate'])} {v['harness']} {params(v['params'])} {v['input']}"
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print(f"# {v['harness']}: {v['what']} notes={v['notes']}")
            print(f"VIOLATION property={pid} replay={path}", flush=True)
        sys.exit(1)
    print(f"OK {pid} {tier}: {tot['paths']} paths, {tot['queries']} queries, {proved} assertions proved by the solver, "
          f"{concrete} concrete on their path, {validated} traces validated ({mismatched} differ), "
          f"exhaustive={exhaustive}, {time.time() - t0:.0f} s")
    sys.exit(0)


def hash_det(s, seed):
    import hashlib
    return hashlib.sha256(f"{seed}:{s}".encode()).hexdigest()


COMMON = [
    "the LLVM IR rustc emits for the harness and the crates of /repo (opt-level 1, overflow checks on, panic=abort, one module) "
    "means what the shipped code means; sampled paths are compared with the natively compiled code to test this",
    "the executor symx/ and Z3 are trusted for `no counterexample`; every counterexample is replayed natively before it is reported",
    "outside the stated bounds nothing is claimed; the system allocator never fails; entropy (hash seeds) is fixed",
]

if __name__ == "__main__":
    main()
