#!/usr/bin/env python3
"""Builds demo.cpp with the sources of the repository in the current directory and the ROS stand-ins of kit.tgz, and runs it."""
import os, subprocess, sys, tarfile, tempfile
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.abspath(__file__))
repo = os.getcwd()
spec = [l.split() for l in open(os.path.join(here, "sources.txt")) if l.strip()]
PK = ["avoidance", "local_planner", "safe_landing_planner", "global_planner"]
with tempfile.TemporaryDirectory() as w:
    tarfile.open(os.path.join(here, "kit.tgz")).extractall(w)
    gen = os.path.join(w, "gen")
    os.makedirs(gen)
    subprocess.check_call([sys.executable, w + "/sim/tools/gen_msgs.py", w + "/sim/msgs.txt", repo, gen], stdout=subprocess.DEVNULL)
    subprocess.check_call([sys.executable, w + "/sim/tools/gen_cfg.py", repo, gen], stdout=subprocess.DEVNULL)
    inc = ["-I" + w + "/sim/include", "-I" + w + "/sim/harness", "-I" + gen, "-isystem", "/usr/include/eigen3"] + ["-I%s/%s/include" % (repo, p) for p in PK]
    fl = ["clang++", "-std=c++14", "-g1", "-w", "-O1", "-fsanitize=address", "-fno-omit-frame-pointer", "-DDISABLE_SIMULATION", "-DVERIF_SIM"]
    src = [(os.path.join(here, "demo.cpp"), [])] + [(w + "/sim/core/core.cpp", []), (w + "/sim/core/simros.cpp", [])]
    src += [(os.path.join(repo, s[0]), s[1:]) for s in spec]

    def comp(i):
        o = "%s/o%d.o" % (w, i)
        r = subprocess.run(fl + src[i][1] + inc + ["-c", src[i][0], "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print(r.stdout[-4000:])
            return None
        return o
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        objs = list(ex.map(comp, range(len(src))))
    if None in objs:
        sys.exit(3)
    subprocess.check_call(["clang++", "-fsanitize=address", "-no-pie", "-rdynamic"] + objs + ["-o", w + "/demo", "-ldl", "-lpthread"])
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=0")
    r = subprocess.run(["setarch", "-R", w + "/demo"], cwd=w, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200)
    print(r.stdout.decode(errors="replace")[-3000:])
    sys.exit(0 if r.returncode == 0 else 1)
