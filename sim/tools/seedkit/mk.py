#!/usr/bin/env python3
"""mk.py ID PROPERTY < description: turns the uncommitted change in /tmp/mut (a worktree of /repo) into seeded/ID,
with demo.cpp and sources.txt from /tmp/mut_demo, and checks it: applies, builds, stable tests pass, demo passes
without and fails with the change."""
import json, os, shutil, subprocess, sys, tarfile
ID, prop, needs, breaks = sys.argv[1:5]
V = "/verif"
d = os.path.join(V, "seeded", ID)
os.makedirs(d, exist_ok=True)
diff = subprocess.check_output(["git", "-C", "/tmp/mut", "diff"], text=True)
assert diff, "no change"
open(d + "/patch.diff", "w").write(diff)
here = os.path.dirname(os.path.abspath(__file__))
for f in ("run.py", "demo.sh"):
    shutil.copy(os.path.join(here, f), d)
os.chmod(d + "/demo.sh", 0o755)
for f in ("demo.cpp", "sources.txt"):
    shutil.copy("/tmp/mut_demo/" + f, d)
with tarfile.open(d + "/kit.tgz", "w:gz") as t:
    def flt(x):
        x.mtime = 0
        return None if "__pycache__" in x.name else x
    for p in ("include", "core", "msgs.txt", "tools/gen_msgs.py", "tools/gen_cfg.py", "harness/world.h"):
        t.add(V + "/sim/" + p, "sim/" + p, filter=flt)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
subprocess.check_call(["git", "-C", "/repo", "apply", "--check", d + "/patch.diff"])
a = subprocess.run([d + "/demo.sh"], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
b = subprocess.run([d + "/demo.sh"], cwd="/tmp/mut", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
print("unchanged:", a.returncode, a.stdout[-700:])
print("changed:", b.returncode, b.stdout[-700:])
ok = a.returncode == 0 and b.returncode == 1
print("DEMO", "OK" if ok else "BAD")
