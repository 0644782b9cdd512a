"""Builds the simulation binaries from the current tree of the repository under test."""
import hashlib, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.dirname(HERE)
VERIF = os.path.dirname(SIM)
REPO = os.environ.get("VSIM_REPO", "/repo")
OUT = os.environ.get("VSIM_BUILD", os.path.join(VERIF, ".build"))
PKGS = ["avoidance", "local_planner", "safe_landing_planner", "global_planner"]

# (source, instrumented for preemption, extra flags); sources are relative to the repository
A = "avoidance/src/"
L = "local_planner/src/"
S = "safe_landing_planner/src/nodes/"
G = "global_planner/src/"
COMMON = [(A + "common.cpp", False), (A + "transform_buffer.cpp", True), (A + "avoidance_node.cpp", True)]
SIMS = {
    "local": dict(harness=["sim_local.cpp"], src=COMMON + [
        (A + "histogram.cpp", False), (L + "nodes/tree_node.cpp", False), (L + "nodes/star_planner.cpp", False),
        (L + "nodes/planner_functions.cpp", False), (L + "nodes/local_planner.cpp", True), (L + "nodes/waypoint_generator.cpp", True),
        (L + "nodes/local_planner_visualization.cpp", False), (L + "nodes/local_planner_nodelet.cpp", True), (L + "utils/trajectory_simulator.cpp", False)]),
    "unit": dict(harness=["sim_unit.cpp"], src=COMMON),
    "slp": dict(harness=["sim_slp.cpp"], src=COMMON + [
        (S + "safe_landing_planner.cpp", False), (S + "safe_landing_planner_node.cpp", True), (S + "safe_landing_planner_node_main.cpp", False), (S + "safe_landing_planner_visualization.cpp", False),
        (S + "waypoint_generator.cpp", True), (S + "waypoint_generator_node.cpp", True)]),
    "global": dict(harness=["sim_global.cpp"], src=COMMON + [
        (G + "library/cell.cpp", False), (G + "library/node.cpp", False), (G + "library/global_planner.cpp", True), (G + "nodes/global_planner_node.cpp", True), (G + "nodes/global_planner_node_main.cpp", False)]),
}
BASE = ["-std=c++14", "-g1", "-w", "-fno-omit-frame-pointer", "-DDISABLE_SIMULATION", "-DVERIF_SIM", "-D_GLIBCXX_ASSERTIONS", "-fno-inline-functions-called-once"]
BASE = [f for f in BASE if f != "-fno-inline-functions-called-once"]
# sources of the packages that no simulation uses; any other file that turns up under src/ is linked where it is needed
UNUSED = {A + "rviz_world_loader.cpp", G + "nodes/mock_data_node.cpp", L + "nodes/local_planner_node_main.cpp"}
COV = ["-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores"]
EDGE = ["-fsanitize-coverage=trace-pc-guard"]


class BuildError(Exception):
    pass


def new_sources(spec):
    known = UNUSED | {x for v in SIMS.values() for x, _ in v["src"]}
    pkgs = {x.split("/")[0] for x, _ in spec["src"]}
    out = []
    for pkg in PKGS:
        for d, dn, fn in os.walk(os.path.join(REPO, pkg, "src")):
            dn.sort()
            for f in sorted(fn):
                r = os.path.relpath(os.path.join(d, f), REPO)
                if f.endswith((".cpp", ".cc", ".cxx")) and r not in known and pkg in pkgs:
                    out.append(r)
    return out


def tree_hash(paths, ext=(".h", ".hpp", ".cpp", ".cc", ".msg", ".cfg", ".txt", ".py", ".srv", ".hh", ".inc", ".tpp")):
    h = hashlib.sha256()
    for root in paths:
        for d, dn, fn in os.walk(root):
            dn.sort()
            for f in sorted(fn):
                if f.endswith(ext):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))


ASAN = ["-fsanitize=address"]
# the race variant: ThreadSanitizer's instrumentation of the code under test, but core/race.cpp as its run time
RACE = ["-DSIM_RACE"]
RACE_SRC = ["-fsanitize=thread"]


def build(name, variant=""):
    gen = os.path.join(OUT, "gen")
    headers = tree_hash([os.path.join(SIM, "include"), os.path.join(SIM, "tools"), os.path.join(SIM, "harness")] +
                        [os.path.join(REPO, p, x) for p in PKGS for x in ("include", "msg", "cfg")] + [])
    headers += tree_hash([os.path.join(REPO, p, "src") for p in PKGS], (".h", ".hpp", ".hh", ".inc", ".tpp"))
    with open(os.path.join(SIM, "msgs.txt"), "rb") as f:
        headers = hashlib.sha256(headers.encode() + f.read()).hexdigest()
    os.makedirs(OUT, exist_ok=True)
    stamp = os.path.join(gen, ".stamp")
    cur = open(stamp).read() if os.path.exists(stamp) else ""
    if cur != headers:
        os.makedirs(gen, exist_ok=True)
        run([sys.executable, os.path.join(HERE, "gen_msgs.py"), os.path.join(SIM, "msgs.txt"), REPO, gen])
        run([sys.executable, os.path.join(HERE, "gen_cfg.py"), REPO, gen])
        with open(stamp, "w") as f:
            f.write(headers)
    inc = ["-I" + os.path.join(SIM, "include"), "-I" + os.path.join(SIM, "harness"), "-I" + gen, "-isystem", "/usr/include/eigen3"] + \
          ["-I" + os.path.join(REPO, p, "include") for p in PKGS]
    spec = SIMS[name]
    jobs = []
    extra = new_sources(spec)
    for src, cov in spec["src"] + [(x, True) for x in extra]:
        fl = ["-O1"] + COV if cov else ["-O2"] + EDGE
        fl += ["-DSIM_COVERED=1"] if cov else []
        if src.endswith("waypoint_generator_node.cpp"):
            fl += ["-Dmain=waypoint_generator_node_main"]
        if src.endswith("safe_landing_planner_node_main.cpp"):
            fl += ["-Dmain=slp_node_main"]
        if src.endswith("global_planner_node_main.cpp"):
            fl += ["-Dmain=global_planner_node_main"]
        jobs.append((os.path.join(REPO, src), fl + (RACE_SRC if variant else [])))
    for h in spec["harness"] + ["driver.cpp"]:
        jobs.append((os.path.join(SIM, "harness", h), ["-O1"]))
    jobs.append((os.path.join(SIM, "core", "core.cpp"), ["-O2"]))
    jobs.append((os.path.join(SIM, "core", "simros.cpp"), ["-O1"]))
    if variant:
        jobs.append((os.path.join(SIM, "core", "race.cpp"), ["-O2"]))
    base = BASE + (RACE if variant else ASAN)
    os.makedirs(os.path.join(OUT, "obj"), exist_ok=True)
    objs, todo, lib = [], [], []
    for src, fl in jobs:
        if not os.path.exists(src):
            raise BuildError("missing source " + src)
        flags = base + fl
        with open(src, "rb") as f:
            key = hashlib.sha256((headers + " ".join(flags) + src).encode() + f.read()).hexdigest()[:24]
        o = os.path.join(OUT, "obj", os.path.basename(src).replace(".cpp", "") + "-" + key + ".o")
        (lib if os.path.relpath(src, REPO) in extra else objs).append(o)
        if not os.path.exists(o):
            todo.append((os.path.getsize(src), ["clang++"] + flags + inc + ["-c", src, "-o", o + ".tmp%d" % os.getpid()], o))
    todo.sort(key=lambda x: -x[0])

    def one(t):
        try:
            run(t[1])
        except BuildError:
            if t[2] in lib:  # perhaps not meant for this build: whoever needs it fails to link
                lib.remove(t[2])
                return
            raise
        os.rename(t[1][-1], t[2])
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for _ in ex.map(one, todo):
            pass
    link = hashlib.sha256("".join(objs + lib).encode()).hexdigest()[:16]
    exe = os.path.join(OUT, "sim_%s%s-%s" % (name, variant, link))
    if not os.path.exists(exe):
        ar = []
        if lib:  # an archive: only what is referred to is linked
            ar = [os.path.join(OUT, "obj", "new-%s%s-%s.a" % (name, variant, link))]
            run(["rm", "-f"] + ar)
            run(["ar", "rcs"] + ar + lib)
        run(["clang++"] + ([] if variant else ASAN) + ["-no-pie", "-rdynamic"] + objs + ar + ["-o", exe + ".tmp%d" % os.getpid(), "-ldl", "-lpthread"])
        os.rename(exe + ".tmp%d" % os.getpid(), exe)
    return exe


if __name__ == "__main__":
    for n in sys.argv[1:] or ["local"]:
        try:
            print(build(*n.split("+")))
        except BuildError as e:
            print(e)
            sys.exit(2)
