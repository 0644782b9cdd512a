#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so that the two never drift apart."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
LN = "local_planner/src/nodes/local_planner_nodelet.cpp"
LP = "local_planner/src/nodes/local_planner.cpp"
PF = "local_planner/src/nodes/planner_functions.cpp"
SP = "local_planner/src/nodes/star_planner.cpp"
WG = "local_planner/src/nodes/waypoint_generator.cpp"
LV = "local_planner/src/nodes/local_planner_visualization.cpp"
AN = "avoidance/src/avoidance_node.cpp"
TB = "avoidance/src/transform_buffer.cpp"
CM = "avoidance/src/common.cpp"
S = "safe_landing_planner/src/nodes/"
SL, SN, SG, SW, SV = S + "safe_landing_planner.cpp", S + "safe_landing_planner_node.cpp", S + "waypoint_generator.cpp", S + "waypoint_generator_node.cpp", S + "safe_landing_planner_visualization.cpp"
G = "global_planner/src/"
GP, GN, GC = G + "library/global_planner.cpp", G + "nodes/global_planner_node.cpp", G + "library/cell.cpp"

P = []


def prop(pid, title, statement, over, text, why, files, mech, observe, state=(), technique=None, note=None, na=None):
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, state=state, technique=technique, note=note, na=na))


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.py")).read())

SEARCH = "deterministic simulation with fault injection: seeded search over schedules and fault plans of the real node, "
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "python3 sim/tools/vsim.py build",
     "checks": [{"property": p["id"], "quick_cmd": "python3 sim/tools/vsim.py check %s --tier quick" % p["id"], "thorough_cmd": "python3 sim/tools/vsim.py check %s --tier thorough" % p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"], "technique": SEARCH + p["technique"], "level": "exploration",
                 "level_note": p["note"] or "Sampled, not exhaustive: every run is one exact seed and replays exactly. Trusts the simulated roscpp/tf/pcl and sequentially consistent interleavings."} for p in P if not p["na"]],
     "hooks": {"guard": "VERIF_SIM", "enable": "-DVERIF_SIM is passed by sim/tools/build.py; no source of the repository tests it: all seams are the libraries the nodes already use (roscpp, tf, pcl, std::thread, std::mutex, clocks)", "source_commits": []},
     "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]],
     "notes": "See DESIGN.md. known_findings.txt lists repaired and known defects. 'vsim.py replay FILE' replays a reported violation."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(m["checks"]), "claimed")
