#!/usr/bin/env python3
"""bug.py ID PROPERTY: takes the uncommitted change in /repo and /tmp/bug/main.rs (+ needs.txt, breaks.txt) as the
planted bug seeded/ID, confirms it (build, stable tests, demo with and without) and runs the property's check.
bug.py --recheck ID..: applies, runs the check, undoes."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''import os, subprocess, sys, tempfile, shutil
here = os.path.dirname(os.path.abspath(__file__))
repo = os.getcwd()
env = dict(os.environ, RUSTC_WRAPPER="", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", RUSTUP_TOOLCHAIN="stable")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR"):
    env.pop(k, None)
with tempfile.TemporaryDirectory() as t:
    os.mkdir(t + "/src")
    shutil.copy(here + "/main.rs", t + "/src/main.rs")
    shutil.copy(repo + "/Cargo.lock", t + "/Cargo.lock")
    with open(t + "/Cargo.toml", "w") as f:
        f.write(f"""[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
dm = {{ package = "dreammaker", path = "{repo}/crates/dreammaker" }}
dmm-tools = {{ path = "{repo}/crates/dmm-tools" }}
dreamchecker = {{ path = "{repo}/crates/dreamchecker" }}
interval-tree = {{ path = "{repo}/crates/interval-tree" }}
""")
    sys.exit(1 if subprocess.run(["cargo", "run", "--offline", "-q"], cwd=t, env=env).returncode else 0)
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, **kw)


def check(pid):
    r = sh(f"cd {V} && VERIF_SEED=1 VERIF_TIER=quick python3 check.py {pid} quick", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print("\n".join(l[:300] for l in r.stdout.split("\n")[-8:]))
    return r.returncode


def tests():
    sh("bash /opt/vp/test.sh /tmp/bug/t.json >/dev/null 2>&1")
    t = json.load(open("/tmp/bug/t.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    base = base if isinstance(base, list) else list(base)
    return [x for x in base if x not in t["passed"]]


if sys.argv[1] == "--recheck":
    for b in sys.argv[2:]:
        d = f"{V}/seeded/{b}"
        pid = json.load(open(d + "/meta.json"))["property"]
        assert sh(f"git -C /repo apply {d}/patch.diff").returncode == 0
        try:
            print(b, pid, "CAUGHT" if check(pid) == 1 else "*** MISSED ***")
        finally:
            sh("git -C /repo checkout -q -- .")
    sys.exit()
bid, pid = sys.argv[1:3]
d = f"{V}/seeded/{bid}"
os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", "/repo", "diff"], stdout=subprocess.PIPE).stdout
assert diff.strip(), "no change in /repo"
open(d + "/patch.diff", "wb").write(diff)
sh(f"cp /tmp/bug/main.rs {d}/main.rs")
open(d + "/demo.py", "w").write(DEMO)
open(d + "/demo.sh", "w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
json.dump({"property": pid, "needs": open("/tmp/bug/needs.txt").read().strip(), "what_it_breaks": open("/tmp/bug/breaks.txt").read().strip()},
          open(d + "/meta.json", "w"), indent=1)
try:
    assert sh("bash /opt/vp/build.sh >/tmp/bug/build.log 2>&1").returncode == 0, "build fails"
    lost = tests()
    print("tests lost:", lost)
    r1 = sh(f"cd /repo && bash {d}/demo.sh >/tmp/bug/demo1.log 2>&1").returncode
    print("check:", "CAUGHT" if check(pid) == 1 else "*** MISSED ***")
finally:
    sh("git -C /repo checkout -q -- .")
r0 = sh(f"cd /repo && bash {d}/demo.sh >/tmp/bug/demo0.log 2>&1").returncode
print("demo unchanged/changed:", r0, r1, "OK" if r0 == 0 and r1 != 0 and not lost else "*** BAD ***")
sh("bash /opt/vp/build.sh >/tmp/bug/build.log 2>&1")
