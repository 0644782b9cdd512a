#!/usr/bin/env python3
"""Seeded search over simulated runs: build, generate plans, run them, gate, minimise and report violations.

  vsim.py check C01 [--tier quick|thorough] [--runs N] [--seconds S] [--seed N]
  vsim.py replay FILE [--trace OUT]
  vsim.py determinism [--runs N]
  vsim.py soak [--seconds S] [PROP ...]
"""
import argparse, hashlib, json, os, random, subprocess, sys, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
import plans as P

VERIF = B.VERIF
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")
JOBS = int(os.environ.get("VSIM_JOBS", str(os.cpu_count() or 4)))


# ---------------------------------------------------------------- plans as text
def num(v):
    if isinstance(v, bool):
        return "1" if v else "0"
    if isinstance(v, int):
        return str(v)
    return repr(float("%.16g" % round(v, 7)))


def text(p):
    o = ["plan 1", "sim " + p["sim"], "prop " + p["prop"], "seed %d" % p["seed"]]
    o += ["knob %s %s" % (k, num(p["knobs"][k])) for k in sorted(p["knobs"])]
    for op in sorted(p["ops"], key=lambda x: x[0]):
        o.append("op %s %s %s" % (num(float(op[0])), op[1], " ".join(num(x) for x in op[2:])))
    return "\n".join(o) + "\n"


def parse(t):
    p = {"sim": "local", "prop": "X00", "seed": 1, "knobs": {}, "ops": [], "expect": []}
    for l in t.splitlines():
        w = l.split()
        if not w or w[0] == "#" or w[0] == "plan":
            continue
        if w[0] in ("sim", "prop"):
            p[w[0]] = w[1]
        elif w[0] == "seed":
            p["seed"] = int(w[1])
        elif w[0] == "knob":
            p["knobs"][w[1]] = float(w[2])
        elif w[0] == "op":
            p["ops"].append([float(w[1]), w[2]] + [float(x) for x in w[3:]])
        elif w[0] == "expect":
            p["expect"].append(w[1:])
    return p


# ---------------------------------------------------------------- workers
class Worker:
    def __init__(self, exe):
        self.exe = exe
        self.start()

    def start(self):
        self.p = subprocess.Popen([self.exe, "--serve"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    def run(self, t):
        b = t.encode()
        try:
            self.p.stdin.write(b"RUN %d\n" % len(b) + b)
            self.p.stdin.flush()
            l = self.p.stdout.readline()
            return json.loads(l)
        except (OSError, ValueError):
            try:
                self.p.kill()
            except OSError:
                pass
            self.start()
            return {"end": "lost", "detail": "worker failed", "hash": "0", "sim_s": 0, "switches": 0, "preempt": 0, "viol": [], "probes": {}, "faults": {}, "msgs": [0, 0, 0, 0], "states": [], "cov": ""}

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()


class Pool:
    """workers for one executable"""
    def __init__(self, exe, n=JOBS):
        self.w = [Worker(exe) for _ in range(n)]

    def map(self, texts, deadline=None):
        return parallel(len(self.w), len(texts), lambda k, i: self.w[k].run(texts[i]), deadline)

    def close(self):
        for w in self.w:
            w.close()


def parallel(n_threads, n, f, deadline=None):
    res = [None] * n
    it = iter(range(n))
    lock = threading.Lock()

    def go(k):
        while True:
            with lock:
                i = next(it, None)
            if i is None or (deadline and time.time() > deadline):
                return
            res[i] = f(k, i)
    th = [threading.Thread(target=go, args=(k,)) for k in range(n_threads)]
    for t in th:
        t.start()
    for t in th:
        t.join()
    return res


def variant(plan):
    """the build a plan needs: data races and memory contents are followed in a build of their own"""
    return "race" if plan["knobs"].get("race") or plan["knobs"].get("twin") else ""


_exes = {}


def exe_for(plan):
    k = (plan["sim"], variant(plan))
    if k not in _exes:
        _exes[k] = B.build(*k)
    return _exes[k]


class Fleet:
    """workers for plans of any simulation and build variant"""
    def __init__(self, n=JOBS):
        self.w = [{} for _ in range(n)]

    def map(self, plans, deadline=None):
        for p in plans:
            exe_for(p)
        texts = [text(p) for p in plans]

        def go(k, i):
            e = exe_for(plans[i])
            if e not in self.w[k]:
                self.w[k][e] = Worker(e)
            return self.w[k][e].run(texts[i])
        return parallel(len(self.w), len(plans), go, deadline)

    def close(self):
        for d in self.w:
            for w in d.values():
                w.close()


# ---------------------------------------------------------------- known findings
def known_findings():
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("known: "):
                d = {}
                rest = l[7:]
                for tok in ("property=", "key="):
                    i = rest.index(tok)
                    d[tok[:-1]] = rest[i + len(tok):].split()[0]
                d["what"] = rest.split(" -- ", 1)[1] if " -- " in rest else rest
                out.append(d)
    return out


def is_known(kf, prop, key):
    for k in kf:
        if k["property"] == prop and k["key"] == key:
            return k
    return None


# ---------------------------------------------------------------- minimisation
def has(res, prop, key):
    return any(v["prop"] == prop and v["key"] == key for v in res["viol"])


def minimise(pool, plan, prop, key, budget):
    end = time.time() + budget
    n_exec = 0

    def attempt(cands):
        nonlocal n_exec
        if not cands:
            return None
        r = pool.map(cands)
        n_exec += len(cands)
        for c, x in zip(cands, r):
            if x and has(x, prop, key):
                return c
        return None

    def with_(p, **kw):
        q = {k: (dict(v) if isinstance(v, dict) else list(v) if isinstance(v, list) else v) for k, v in p.items()}
        q.update(kw)
        return q
    # drop operations, large chunks first
    n = 2
    while plan["ops"] and time.time() < end:
        ops = plan["ops"]
        size = max(1, len(ops) // n)
        c = attempt([with_(plan, ops=ops[:i] + ops[i + size:]) for i in range(0, len(ops), size)])
        if c:
            plan = c
            n = max(2, n - 1)
        elif size == 1:
            break
        else:
            n = min(len(ops), n * 2)
    # drop knobs (fall back to the defaults), scheduling noise first
    for _ in range(3):
        if time.time() >= end:
            break
        ks = [k for k in plan["knobs"] if k not in P.KEEP]
        if not ks:
            break
        c = None
        noise = [k for k in ks if k in ("p_sync", "mean_access", "p_spurious", "timer_slack_us", "net_lat_ms")]
        cands = []
        if noise:
            cands.append(with_(plan, knobs={k: (0.0 if k in noise else v) for k, v in plan["knobs"].items()}))
        cands += [with_(plan, knobs={k: v for k, v in plan["knobs"].items() if k != x}) for x in ks]
        changed = False
        r = pool.map(cands)
        n_exec += len(cands)
        ok = [c for c, x in zip(cands, r) if x and has(x, prop, key)]
        # greedily combine the successful removals
        for c in ok:
            if time.time() >= end:
                break
            gone = {k for k in plan["knobs"] if k not in c["knobs"] or c["knobs"][k] != plan["knobs"][k]}
            t = with_(plan, knobs={k: (c["knobs"].get(k) if k in c["knobs"] else None) if k in gone else v for k, v in plan["knobs"].items()})
            t["knobs"] = {k: v for k, v in t["knobs"].items() if v is not None}
            if attempt([t]):
                plan = t
                changed = True
        if not changed:
            break
    # shorten
    for f in (0.25, 0.5, 0.7, 0.85):
        if time.time() >= end:
            break
        d = plan["knobs"].get("dur")
        if d and d * f > max([o[0] for o in plan["ops"]] + [0]) + 0.5:
            c = attempt([with_(plan, knobs=dict(plan["knobs"], dur=round(d * f, 2)))])
            if c:
                plan = c
                break
    return plan, n_exec


def fresh(exe, path):
    r = subprocess.run([exe, "--run", path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    try:
        return json.loads(r.stdout.decode().strip().splitlines()[-1])
    except Exception:
        return None


# ---------------------------------------------------------------- check
def edge_count(cov):
    # the two builds of one simulation share their control flow only roughly: the larger count of each simulation
    best = {}
    for e, c in cov.items():
        k = os.path.basename(e).split("-")[0].replace("race", "")
        best[k] = max(best.get(k, 0), bin(c).count("1"))
    return sum(best.values())


def check(prop, tier, seed, runs=None, seconds=None, quiet=False):
    t0 = time.time()
    cfg = P.PROPS[prop]
    for b in P.builds(prop):
        _exes[b] = B.build(*b)
    t_build = time.time() - t0
    n_runs = runs or cfg[tier]["runs"]
    limit = seconds or cfg[tier]["seconds"]
    deadline = t0 + t_build + limit
    pool = Fleet()
    kf = known_findings()
    agg = dict(hashes=set(), states=set(), faults={}, probes={}, cov={}, sim_s=0.0, switches=0, preempt=0, msgs=[0] * 4, ends={}, other={}, curve=[], kinds={})
    corpus = []
    found = {}
    known_hit = {}
    internal = []
    done = 0
    i = 0
    batch = 8 * JOBS if n_runs >= 16 * JOBS else 4 * JOBS
    batch = min(batch, 64)
    samples = []
    while i < n_runs and time.time() < deadline:
        ps = []
        for j in range(min(batch, n_runs - i)):
            rng = random.Random("%d/%s/%s/%d" % (seed, prop, tier, i + j))
            if corpus and rng.random() < cfg.get("mutate", 0.3):
                ps.append(P.mutate(rng, corpus[int(len(corpus) * rng.random() ** 0.7)], prop))
            else:
                ps.append(P.generate(rng, prop, tier, i + j))
        rs = pool.map(ps, deadline + 20)
        for p, r in zip(ps, rs):
            if r is None:
                continue
            t = text(p)
            done += 1
            kind = p["sim"] + (" twin" if p["knobs"].get("twin") else " race" if variant(p) else "")
            agg["kinds"][kind] = agg["kinds"].get(kind, 0) + 1
            agg["hashes"].add(r["hash"])
            cov = int(r["cov"], 16) if r["cov"] else 0
            ck = exe_for(p)
            was = agg["cov"].get(ck, 0)
            new = (cov | was) != was
            st = {p["sim"] + x for x in r["states"]}
            if new or len(st - agg["states"]) > 0:
                corpus.append(p)
                if len(corpus) > 300:
                    corpus.pop(0)
            agg["cov"][ck] = was | cov
            agg["states"] |= st
            for k, v in r["faults"].items():
                agg["faults"][k] = agg["faults"].get(k, 0) + v
            for k, v in r["probes"].items():
                agg["probes"][k] = agg["probes"].get(k, 0) + v
            agg["sim_s"] += r["sim_s"]
            agg["switches"] += r["switches"]
            agg["preempt"] += r["preempt"]
            for q in range(4):
                agg["msgs"][q] += r["msgs"][q]
            agg["ends"][r["end"]] = agg["ends"].get(r["end"], 0) + 1
            if r["end"] in ("internal", "lost"):
                internal.append((t, r["end"], r["detail"]))
            if len(samples) < 3 and p["ops"]:
                samples.append(t)
            for v in r["viol"]:
                if v["prop"] == prop:
                    if is_known(kf, prop, v["key"]):
                        known_hit.setdefault(v["key"], v)
                    elif v["key"] not in found:
                        found[v["key"]] = (p, r, v)
                else:
                    k = v["prop"] + ":" + v["key"]
                    agg["other"][k] = agg["other"].get(k, 0) + 1
        i += len(ps)
        agg["curve"].append([i, len(agg["hashes"]), len(agg["states"]), edge_count(agg["cov"])])
        if found:
            break
    rc = 0
    reports = []
    nondet = []
    for key, (p, r, v) in sorted(found.items()):
        if len(reports) >= 3:
            break
        again = pool.map([p] * 2)
        if any(a is None or a["hash"] != r["hash"] or not has(a, prop, key) for a in again):
            nondet.append((key, text(p), r["hash"], [a and a["hash"] for a in again]))
            continue
        q, n_exec = minimise(pool, p, prop, key, 25 if tier == "quick" else 90)
        rr = pool.map([q] * 2)
        if any(a is None or not has(a, prop, key) for a in rr) or rr[0]["hash"] != rr[1]["hash"]:
            q, rr = p, again
        os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
        name = "%s-%s.plan" % (prop, hashlib.sha256((key + text(q)).encode()).hexdigest()[:10])
        path = os.path.join(EVID, "replays", name)
        vv = [x for x in rr[0]["viol"] if x["prop"] == prop and x["key"] == key][0]
        with open(path, "w") as f:
            f.write("# %s: %s\n# found with seed %d; minimised from %d to %d operations in %d runs\n" % (prop, vv["msg"].replace("\n", " ")[:900], seed, len(p["ops"]), len(q["ops"]), n_exec))
            f.write(text(q))
            f.write("expect %s %s %s\n" % (prop, key.replace(" ", "_"), rr[0]["hash"]))
        f = fresh(exe_for(q), path)
        if f is None or f["hash"] != rr[0]["hash"] or not has(f, prop, key):
            nondet.append((key, text(q), rr[0]["hash"], [f and f["hash"]]))
            continue
        reports.append((key, vv, path))
    pool.close()
    wall = time.time() - t0
    if reports:
        rc = 1
    elif nondet or internal or done == 0:
        rc = 2
    probes_need = cfg.get("need", [])
    missing = [n for n in probes_need if not agg["probes"].get(n) and not agg["faults"].get(n)]
    edges = edge_count(agg["cov"])
    evaluations = sum(agg["probes"].get(n, 0) for n in cfg["rule_probes"]) if cfg.get("rule_probes") else done
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": done, "distinct_nontrivial": len(agg["hashes"]),
            "rule": "one evaluation is one simulated run of the whole %s simulation (seeded schedule and fault plan, monitors on); two runs are distinct when the hashes of their full scheduling and message traces differ; a run with no operation and no preemption still counts as one trace" % "/".join(sorted({x[0] for x in P.builds(prop)})),
            "samples": samples,
            "runs": done, "runs_requested": n_runs, "seeds_per_hour": round(done / max(1e-3, wall - t_build) * 3600), "simulated_seconds": round(agg["sim_s"], 1),
            "distinct_traces": len(agg["hashes"]), "distinct_abstract_states": len(agg["states"]), "edges_covered": edges,
            "context_switches": agg["switches"], "forced_preemptions": agg["preempt"],
            "messages_published": agg["msgs"][0], "messages_delivered": agg["msgs"][1], "timer_callbacks": agg["msgs"][2], "service_calls": agg["msgs"][3],
            "faults_fired": agg["faults"], "probes": agg["probes"], "probes_never_hit": missing, "run_ends": agg["ends"],
            "curve_runs_traces_states_edges": agg["curve"][-40:], "violations_of_other_properties_seen": agg["other"],
            "oracle_evaluations": evaluations,
            "violations_found": [{"key": k, "message": v["msg"], "replay": os.path.relpath(pth, VERIF)} for k, v, pth in reports],
            "runs_by_simulation_and_build": agg["kinds"],
            "real_components": sorted({y for x in P.builds(prop) for y in P.REAL[x[0]]}), "stub_components": sorted({y for x in P.builds(prop) for y in P.STUB[x[0]]}),
        },
        "wall_s": round(wall, 2), "assumptions": P.ASSUMPTIONS + cfg.get("assumptions", []),
        "violations": len(reports),
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d runs (%d distinct traces, %d states, %d edges), %.0f simulated s in %.1f s (build %.1f s); ends %s" %
          (prop, tier, seed, done, len(agg["hashes"]), len(agg["states"]), edges, agg["sim_s"], wall, t_build, agg["ends"]))
    if missing:
        print("note: probes never hit: " + ", ".join(missing))
    for k in kf:
        if k["property"] == prop:
            print("KNOWN-FINDING: property=%s %s%s" % (prop, k["what"], "" if k["key"] in known_hit else " (not met in this run)"))
    for key, v, path in reports:
        print("  %s: %s" % (key, v["msg"][:600]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    for n in nondet:
        print("ERROR: %s not reproducible, not reported: hashes %s vs %s\n%s" % (n[0], n[2], n[3], n[1]))
    for n in internal[:3]:
        print("ERROR: run ended '%s': %s\n%s" % (n[1], n[2][:2000], n[0]))
    return rc


def replay(path, trace=None):
    t = open(path).read()
    p = parse(t)
    exe = exe_for(p)
    r = subprocess.run([exe, "--run", path] + ([trace] if trace else []), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    d = json.loads(r.stdout.decode().strip().splitlines()[-1])
    print("end=%s hash=%s sim_s=%s detail=%s" % (d["end"], d["hash"], d["sim_s"], d["detail"][:1500]))
    ok = True
    for v in d["viol"]:
        print("  %s %s (t=%.3f, %d times): %s" % (v["prop"], v["key"], v["t"], v["n"], v["msg"][:700]))
    for e in p["expect"]:
        hit = has(d, e[0], e[1]) and (len(e) < 3 or d["hash"] == e[2])
        print("expected %s: %s" % (" ".join(e), "reproduced exactly" if hit else ("violation reproduced, trace differs" if has(d, e[0], e[1]) else "NOT reproduced")))
        ok = ok and hit
    if os.environ.get("VSIM_PROBES"):
        print(json.dumps(d["probes"]), json.dumps(d["faults"]))
    return 0 if ok else 1


def determinism(n, seed):
    bad = 0
    for sim in sorted({b for p in P.PROPS for b in P.builds(p)}):
        props = [p for p in P.PROPS if sim in P.builds(p)]
        ps = []
        i = 0
        while len(ps) < n:
            p = P.generate(random.Random("det%d/%s/%d" % (seed, sim, i)), props[i % len(props)], "quick", i)
            i += 1
            if sim[1]:
                p["knobs"].setdefault("race", 1)
            else:
                p["knobs"].pop("race", 0), p["knobs"].pop("twin", 0)
            if p["sim"] == sim[0]:
                ps.append(p)
        a = Fleet(8)
        ra = a.map(ps)
        a.close()
        b = Fleet(3)
        rb = b.map(list(reversed(ps)))
        b.close()
        rb.reverse()
        d = [i for i in range(n) if ra[i]["hash"] != rb[i]["hash"] or ra[i]["viol"] != rb[i]["viol"] or ra[i]["probes"] != rb[i]["probes"] or ra[i]["end"] != rb[i]["end"]]
        name = "%s%s" % (sim[0], " " + sim[1] if sim[1] else "")
        print("%s: %d plans run twice (8 workers, then 3 workers in reverse order): %d differ; %d distinct traces" % (name, n, len(d), len({r["hash"] for r in ra})))
        for i in d[:2]:
            print(text(ps[i]), ra[i]["hash"], rb[i]["hash"], ra[i]["end"], rb[i]["end"])
        bad += len(d)
        ff = 0
        for i in range(0, n, max(1, n // 12)):
            pth = "/tmp/.vsim_det_%d.plan" % os.getpid()
            open(pth, "w").write(text(ps[i]))
            f = fresh(exe_for(ps[i]), pth)
            os.remove(pth)
            if f is None or f["hash"] != ra[i]["hash"]:
                ff += 1
        print("%s: fresh-process replays differing: %d" % (name, ff))
        bad += ff
    return 1 if bad else 0


def soak(props, seconds, seed):
    """all properties' plans, every violation of every property listed (development aid)"""
    seen = {}
    t0 = time.time()
    pool = Fleet()
    force = os.environ.get("VSIM_KNOBS", "")
    i = 0
    runs = 0
    while time.time() - t0 < seconds:
        for prop in props:
            ps = [P.generate(random.Random("soak%d/%s/%d" % (seed, prop, i + j)), prop, "thorough" if j % 2 else "quick", i + j) for j in range(2 * JOBS)]
            for p in ps:
                for kv in force.split():
                    p["knobs"][kv.split("=")[0]] = float(kv.split("=")[1])
            rs = pool.map(ps)
            runs += len(ps)
            for p, r in zip(ps, rs):
                if r["end"] in ("internal", "lost"):
                    r["viol"].append({"prop": "INTERNAL", "key": r["end"], "msg": r["detail"], "t": 0, "n": 1})
                for v in r["viol"]:
                    k = (v["prop"], v["key"])
                    if k not in seen:
                        os.makedirs("/tmp/soak", exist_ok=True)
                        f = "/tmp/soak/%s-%s.plan" % (v["prop"], "".join(c if c.isalnum() or c in "-_" else "_" for c in v["key"])[:80])
                        open(f, "w").write(text(p) + "expect %s %s %s\n" % (v["prop"], v["key"].replace(" ", "_"), r["hash"]))
                        seen[k] = [0, f, v["msg"], prop]
                        print("[%5.0fs] %s %s (from %s): %s\n   %s" % (time.time() - t0, v["prop"], v["key"], prop, v["msg"][:400], f), flush=True)
                    seen[k][0] += 1
        i += 2 * JOBS
    print("soak: %d runs" % runs)
    for k, v in sorted(seen.items()):
        print("%6d %s %s  %s" % (v[0], k[0], k[1], v[1]))
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd")
    ap.add_argument("args", nargs="*")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--trace")
    a = ap.parse_intermixed_args()
    try:
        if a.cmd == "check":
            rc = 0
            for p in a.args:
                rc = max(rc, check(p, a.tier, a.seed, a.runs, a.seconds))
            return rc
        if a.cmd == "replay":
            return replay(a.args[0], a.trace)
        if a.cmd == "determinism":
            return determinism(a.runs or 60, a.seed)
        if a.cmd == "soak":
            return soak(a.args or sorted(P.PROPS), a.seconds or 120, a.seed)
        if a.cmd == "build":
            for n in a.args or sorted({c["sim"] for c in P.PROPS.values()}):
                print(B.build(n))
            return 0
    except B.BuildError as e:
        print("ERROR: build failed: %s" % e)
        return 3
    ap.print_help()
    return 2


if __name__ == "__main__":
    sys.exit(main())
