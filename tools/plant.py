#!/usr/bin/env python3
"""plant.py FILE: FILE is Python defining BUG=(id, property, path, old, new, needs, breaks, main_rs); applies and confirms."""
import subprocess, sys, os
os.makedirs("/tmp/bug", exist_ok=True)
g = {}
exec(open(sys.argv[1]).read(), g)
for b in g["BUGS"]:
    if len(sys.argv) > 2 and b[0] not in sys.argv[2:]:
        continue
    bid, pid, edits, needs, breaks, main = b
    for path, old, new in edits:
        s = open("/repo/" + path).read()
        assert s.count(old) == 1, (bid, path, s.count(old))
        open("/repo/" + path, "w").write(s.replace(old, new))
    open("/tmp/bug/needs.txt", "w").write(needs)
    open("/tmp/bug/breaks.txt", "w").write(breaks)
    open("/tmp/bug/main.rs", "w").write(main)
    print("==", bid, flush=True)
    subprocess.run([sys.executable, "/verif/tools/bug.py", bid, pid])
