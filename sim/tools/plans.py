"""Plan generators: what is simulated for each property, drawn from a seeded generator."""
import random

KEEP = {"dur", "race", "twin"}
REAL = {
    "local": ["local_planner_nodelet", "local_planner", "star_planner", "tree_node", "planner_functions", "waypoint_generator", "trajectory_simulator", "local_planner_visualization", "avoidance_node", "transform_buffer", "histogram", "common"],
    "unit": ["avoidance_node", "transform_buffer", "common"],
    "slp": ["safe_landing_planner", "safe_landing_planner_node", "safe_landing_planner waypoint_generator", "waypoint_generator_node", "safe_landing_planner_visualization", "avoidance_node", "transform_buffer", "common"],
    "global": ["global_planner", "global_planner_node", "cell", "node", "avoidance_node", "common"],
}
STUB = {s: ["roscpp (queues, spinners, timers, topics, services, parameters)", "tf", "pcl", "dynamic_reconfigure", "mavros/PX4 and the vehicle", "cameras", "pthreads, clocks and sleeps (simulated)"] +
        (["nodelet loader"] if s == "local" else []) + (["octomap"] if s == "global" else []) for s in REAL}
ASSUMPTIONS = [
    "threads interleave at synchronisation calls and at instrumented loads/stores, one at a time (sequential consistency); weak-memory effects are not simulated",
    "roscpp, tf, pcl, octomap and dynamic_reconfigure behave as in the simulated implementations in /verif/sim (written from their documented semantics)",
    "PX4 and the vehicle behave like the kinematic stand-in of the simulation",
]
RECONF = ["max_sensor_range_", "min_sensor_range_", "pitch_cost_param_", "yaw_cost_param_", "velocity_cost_param_",
          "obstacle_cost_param_", "tree_heuristic_weight_", "goal_z_param", "timeout_startup_", "timeout_critical_",
          "timeout_termination_", "max_point_age_s_", "min_num_points_per_cell_", "smoothing_speed_xy_", "smoothing_speed_z_",
          "smoothing_margin_degrees_", "children_per_node_", "n_expanded_nodes_", "tree_node_distance_"]
R = {n: i for i, n in enumerate(RECONF)}


def sched(rng, k):
    k["p_sync"] = rng.choice([0.0, 0.02, 0.1, 0.3])
    k["mean_access"] = rng.choice([0, 0, 300, 3000, 30000])
    k["p_spurious"] = rng.choice([0, 0, 0.01, 0.1])
    k["timer_slack_us"] = rng.choice([0, 100, 2000])
    k["net_lat_ms"] = rng.choice([1, 2, 10, 20])


# ------------------------------------------------------------------ local planner
def local_base(rng, lo=8, hi=14):
    k = {"dur": round(rng.uniform(lo, hi), 2)}
    sched(rng, k)
    k["world"] = rng.randrange(1, 100000)
    k["boxes"] = rng.choice([0, 1, 3, 3, 6])
    k["ground"] = rng.choice([1, 1, 0])
    k["ncam"] = rng.choice([1, 1, 1, 2, 3])
    k["hfov"] = rng.choice([59, 70, 90])
    k["vfov"] = rng.choice([46, 60])
    k["nx"] = rng.choice([12, 18, 24])
    k["ny"] = rng.choice([8, 12, 16])
    k["spread"] = rng.choice([55, 80, 110])
    k["cam_pitch"] = rng.choice([0, 0, 10])
    k["cam_hz"] = rng.choice([8, 10, 15])
    k["pose_hz"] = rng.choice([10, 30, 30, 50])
    k["n_expanded_nodes_"] = rng.choice([3, 6, 10, 15])
    k["children_per_node_"] = rng.choice([1, 3, 8])
    k["tree_node_distance_"] = rng.choice([1, 2, 2, 3])
    k["goal_x"] = round(rng.uniform(-15, 25), 1)
    k["goal_y"] = round(rng.uniform(-15, 15), 1)
    k["goal_z"] = round(rng.uniform(1.5, 6), 1)
    k["z0"] = round(rng.uniform(1.5, 5), 1)
    k["yaw0"] = round(rng.uniform(-3.1, 3.1), 2)
    k["mode"] = rng.choice([0, 0, 1, 1, 4])
    k["plan_ms"] = rng.choice([0, 0, 5, 40])
    k["px_MPC_XY_CRUISE"] = rng.choice([1, 2, 3, 5])
    if rng.random() < 0.25:
        k["smoothing_speed_xy_"] = 0
        k["smoothing_speed_z_"] = 0
    return k


def wtime(rng, dur, lo=0.6):
    return round(rng.uniform(lo, max(lo + 0.1, dur - 1)), 3)


def op_net(rng, dur, topics=None, maxlen=4):
    tp = rng.choice(topics if topics is not None else list(range(9)))
    return [wtime(rng, dur), "net", tp, round(rng.uniform(0.3, maxlen), 2), rng.choice([0, 0.1, 0.5, 1.0]), rng.choice([0, 0.2]), rng.choice([0, 0.3]), rng.choice([0.002, 0.05, 0.3])]


def op_stall(rng, dur, maxlen=2.5):
    if rng.random() < 0.15:
        return op_spawn_stall(rng, 12)
    return [wtime(rng, dur, 0.05), "stall", rng.randrange(0, 14), round(rng.choice([0.05, 0.3, 1.0, maxlen]) * rng.uniform(0.5, 1), 3)]


def op_cam(rng, dur, maxlen=4):
    c = rng.randrange(0, 3)
    q = rng.random()
    t = wtime(rng, dur)
    d = round(rng.uniform(0.3, maxlen), 2)
    if q < 0.35:
        return [t, "cam_off", c, d]
    if q < 0.6:
        return [t, "cam_kind", c, rng.choice([1, 2, 3, 4]), d]
    if q < 0.8:
        return [t, "cam_skew", c, rng.choice([-8, -3, -0.5, -0.1, 0.1, 0.5, 2]), d]
    return [t, "cam_lag", c, rng.choice([0.1, 0.4, 1.5]), d]


def op_svc(rng, dur):
    return [round(rng.uniform(0, dur - 1), 3), "svc", rng.choice([1, 2, 3, 4]), rng.choice([0.2, 1, 4]), round(rng.uniform(0.5, 8), 2)]


def op_goal(rng, dur, kinds=("goal_click", "goal_topic")):
    return [wtime(rng, dur), rng.choice(kinds), round(rng.uniform(-20, 20), 2), round(rng.uniform(-20, 20), 2), round(rng.uniform(1, 8), 2)]


def op_traj(rng, dur):
    g = [round(rng.uniform(-20, 20), 2) for _ in range(2)] + [round(rng.uniform(1, 8), 2)]
    n = [round(rng.uniform(-20, 20), 2) for _ in range(2)] + [round(rng.uniform(1, 8), 2)]
    return [wtime(rng, dur), "traj"] + g + n + [rng.choice([1, 1, 0]), rng.choice([1, 1, 0]), rng.choice([16, 22, 65535]), rng.choice([16, 21, 65535])]


def op_reconf(rng, dur):
    ch = [("max_sensor_range_", [8, 12, 20]), ("min_sensor_range_", [0.2, 0.5, 1]), ("pitch_cost_param_", [5, 30]), ("yaw_cost_param_", [0, 10]),
          ("velocity_cost_param_", [0, 20000]), ("obstacle_cost_param_", [0.5, 20]), ("tree_heuristic_weight_", [0, 50]), ("max_point_age_s_", [0, 1, 5, 60]),
          ("min_num_points_per_cell_", [1, 2, 5]), ("smoothing_speed_xy_", [0, 1, 10]), ("smoothing_speed_z_", [0, 3]), ("smoothing_margin_degrees_", [0, 20, 80]),
          ("children_per_node_", [1, 4, 20]), ("n_expanded_nodes_", [0, 1, 5, 20]), ("tree_node_distance_", [0.5, 1, 4])]
    o = [wtime(rng, dur, 0.05), "reconf"]
    for n, v in rng.sample(ch, rng.randrange(1, 4)):
        o += [R[n], rng.choice(v)]
    return o


def op_misc(rng, dur):
    q = rng.random()
    t = wtime(rng, dur)
    if q < 0.3:
        return [t, "mode", rng.choice([0, 1, 2, 4, 5, 6])]
    if q < 0.4:
        return [t, "arm", rng.choice([0, 1])]
    if q < 0.7:
        i = rng.randrange(0, 11)
        v = {0: [0.5, 2, 6], 1: [-1, 1, 5], 2: [1, 5], 3: [5, 30], 4: [1, 3], 5: [0.5, 1], 6: [20, 90], 7: [5], 8: [5], 9: [1], 10: [2]}[i]
        return [t, "param_set", i, rng.choice(v)]
    if q < 0.85:
        return [t, "mission", rng.choice([0, 1]), rng.choice([1, 2.5, 4])]
    return [t, "wind", round(rng.uniform(-3, 3), 1), round(rng.uniform(-3, 3), 1), round(rng.uniform(-1, 1), 1)]


def P(sim, prop, rng, k, ops):
    ops = [o for o in ops if o]
    ops.sort(key=lambda o: o[0])
    return {"sim": sim, "prop": prop, "seed": rng.randrange(1, 2**31), "knobs": k, "ops": ops}


def some(rng, n, f):
    return [f() for _ in range(rng.randrange(0, n + 1))]


def local_any(rng, k, n=4, stalls=True):
    d = k["dur"]
    fs = [lambda: op_cam(rng, d), lambda: op_net(rng, d), lambda: op_goal(rng, d), lambda: op_traj(rng, d), lambda: op_reconf(rng, d), lambda: op_misc(rng, d),
          lambda: op_svc(rng, d), lambda: [wtime(rng, d), "pose_off", round(rng.uniform(0.3, 3), 2)], lambda: [wtime(rng, d), "tf_off", round(rng.uniform(0.1, 3), 2)]]
    if stalls:
        fs.append(lambda: op_stall(rng, d))
    return [rng.choice(fs)() for _ in range(rng.randrange(0, n + 1))]


def light(rng, k):
    """make the planner cheap: the property does not depend on the depth of the search"""
    k["n_expanded_nodes_"] = rng.choice([1, 3, 5])
    k["nx"], k["ny"] = rng.choice([(8, 6), (12, 8)])
    return k


def g_c01(rng, tier):
    long = rng.random() < 0.3
    k = light(rng, local_base(rng, 10, 16))
    ops = []
    if long:
        k["dur"] = round(rng.uniform(24, 40), 1)
        k["pose_hz"] = 10
        t = rng.uniform(1, 8)
        kind = rng.choice(["cam_off", "cam_off", "tf_off", "cam_kind"])
        ln = round(rng.uniform(10, 22), 1)
        for c in range(3):
            if kind == "cam_off":
                ops.append([round(t, 2), "cam_off", c, ln])
            elif kind == "cam_kind":
                ops.append([round(t, 2), "cam_lag", c, 3, ln])
        if kind == "tf_off":
            ops.append([round(t, 2), "tf_off", ln])
    else:
        d = k["dur"]
        for _ in range(rng.randrange(1, 4)):
            t = wtime(rng, d)
            ln = round(rng.uniform(0.3, 5), 2)
            q = rng.random()
            if q < 0.5:
                ops.append([t, "cam_off", rng.randrange(0, int(k["ncam"])), ln])
            elif q < 0.75:
                ops.append([t, "tf_off", ln])
            else:
                ops.append([t, "cam_lag", rng.randrange(0, int(k["ncam"])), rng.choice([0.6, 1.5]), ln])
    if rng.random() < 0.15:
        k["cam_start"] = round(rng.uniform(2, 25), 1)
        k["dur"] = round(max(k["dur"], k["cam_start"] + 4), 1)
    ops += some(rng, 2, lambda: rng.choice([op_net(rng, k["dur"], [6, 7, 8]), op_svc(rng, k["dur"]), op_goal(rng, k["dur"]), op_reconf(rng, k["dur"])]))
    if rng.random() < 0.2:
        ops.append([wtime(rng, k["dur"], 1), "pose_off", round(rng.uniform(0.4, 3), 2)])
    return k, ops


def g_c02(rng, tier):
    k, ops = g_c01(rng, tier)
    k["pose_hz"] = rng.choice([3, 8, 15, 30, 60])
    d = k["dur"]
    ops += some(rng, 3, lambda: rng.choice([[wtime(rng, d), "pose_off", round(rng.uniform(0.2, 4), 2)], op_net(rng, d, [0]), op_stall(rng, d)]))
    q = rng.random()
    if q < 0.15:    # shut down, preferably while no position is known
        t = round(rng.uniform(2, 6), 2)
        ops = [o for o in ops if o[0] < t]
        ops += [[t, "pose_off", 30], [round(t + rng.choice([0.05, 0.3, 1, 4]) * rng.uniform(0.5, 1), 3), rng.choice(["shutdown", "unload"])]]
        k["dur"] = round(t + 9, 1)
    elif q < 0.3:   # clouds and positions are lost together, clouds come back first
        t = round(rng.uniform(5.5, 7), 2)
        ops = [o for o in ops if o[0] < t - 3]
        gap = round(rng.uniform(0.7, 3), 2)
        ops += [[t, "cam_off", c, gap] for c in range(3)] + [[round(t + rng.uniform(-0.2, gap), 2), "pose_off", round(gap + rng.uniform(0.5, 3), 2)]]
        k["dur"] = round(max(k["dur"], t + 9), 1)
    return k, ops


def g_c03(rng, tier):
    k = light(rng, local_base(rng, 8, 18))
    d = k["dur"]
    k["svc0"] = rng.choice([0, 0, 1, 2, 3])
    k["svc0_delay"] = rng.choice([0.5, 2, 10])
    k["svc0_until"] = rng.choice([3, 8, 1e9])
    k["plan_ms"] = rng.choice([0, 50, 400])
    k["no_liveness"] = 1
    if rng.random() < 0.3:
        k["pose_start"] = rng.choice([3, 8, 100])
    if rng.random() < 0.3:
        k["cam_start"] = rng.choice([3, 8, 100])
    return k, local_any(rng, k, 5)


def g_c04(rng, tier):
    k = light(rng, local_base(rng, 8, 14))
    k["no_liveness"] = 1
    ops = local_any(rng, k, 5)
    if rng.random() < 0.3:
        for i in rng.sample(range(11), 3):
            k["px_" + ["MPC_XY_CRUISE", "CP_DIST", "MPC_ACC_HOR", "MPC_JERK_MAX", "NAV_ACC_RAD", "MPC_LAND_SPEED", "MPC_YAWRAUTO_MAX", "MPC_ACC_DOWN_MAX", "MPC_ACC_UP_MAX", "MPC_Z_VEL_MAX_DN", "MPC_Z_VEL_MAX_UP"][i]] = rng.choice([0.1, 1, 10, 90])
    if rng.random() < 0.3:
        k["svc0"] = 3
    if rng.random() < 0.2:
        k["goal_x"], k["goal_y"], k["goal_z"] = 0, 0, k["z0"]
    if rng.random() < 0.3:
        k["landy"] = 1
        ops.append([wtime(rng, k["dur"]), "mode", 3])
    if rng.random() < 0.3:
        ops.append([wtime(rng, k["dur"], 0.05), "vel_bad", round(rng.choice([0.2, 1, 5]) * rng.uniform(0.5, 1), 2), rng.randrange(0, 3)])
    return k, ops


def g_c05(rng, tier):
    k = light(rng, local_base(rng, 22, 34))
    k["pose_hz"] = 10
    k["ncam"] = 1
    t = round(rng.uniform(0.5, 6), 2)
    ln = round(rng.choice([rng.uniform(5, 14), rng.uniform(15.5, 22)]), 2)
    ops = [[t, "pose_off", ln]]
    if rng.random() < 0.3:
        ops.append([round(t + ln + rng.uniform(0.5, 2), 2), "pose_off", round(rng.uniform(1, 18), 2)])
    if rng.random() < 0.2:
        k["pose_start"] = round(rng.uniform(5, 20), 1)
    if rng.random() < 0.3:
        ops.append([round(rng.uniform(0.1, 1), 2), "reconf", R["timeout_termination_"], rng.choice([3, 6, 15])])
    k["dur"] = round(max(k["dur"], max(o[0] + (o[2] if o[1] == "pose_off" else 0) for o in ops) + 10), 1)
    ops += some(rng, 2, lambda: rng.choice([op_cam(rng, k["dur"]), op_goal(rng, k["dur"]), op_svc(rng, k["dur"])]))
    return k, ops


def g_c06(rng, tier):
    k = light(rng, local_base(rng, 9, 15))
    d = k["dur"]
    if rng.random() < 0.6:
        k["smoothing_speed_xy_"], k["smoothing_speed_z_"] = rng.choice([(0, 0), (0, 0), (0, 3), (10, 0)])
    k["px_MPC_XY_CRUISE"] = rng.choice([0.3, 1, 2, 4, 8])
    k["svc0"] = rng.choice([0, 0, 0, 1, 3])
    k["svc0_until"] = 5
    if rng.random() < 0.5:   # fly to a close goal: approach and arrival
        a = rng.uniform(2, 6)
        k["goal_x"], k["goal_y"], k["goal_z"] = round(a, 1), round(rng.uniform(-3, 3), 1), k["z0"]
        k["boxes"] = rng.choice([0, 0, 1])
    k["no_liveness"] = 1
    ops = some(rng, 3, lambda: rng.choice([op_goal(rng, d, ("goal_topic",)), op_traj(rng, d), op_misc(rng, d), op_cam(rng, d), op_net(rng, d), [wtime(rng, d), "param_set", 0, rng.choice([0.5, 1, 6])],
                                       [wtime(rng, d), "mission", 1, rng.choice([0.5, 1, 6])]]))
    if rng.random() < 0.35:  # the allowed speed falls and stays low
        k["svc0"] = 0
        k["dur"] = round(rng.uniform(14, 20), 1)
        k["boxes"] = 0
        k["goal_x"] = rng.choice([-60, 60])
        ops = some(rng, 1, lambda: rng.choice([op_goal(rng, d, ("goal_topic",)), op_cam(rng, 3, 1)]))
        ops += [[round(rng.uniform(0.05, 4.5), 2), "mission", 1, rng.choice([0.5, 1, 3])] for _ in range(rng.choice([0, 1, 2]))]
        ops += [[round(rng.uniform(4.1, 6), 2), "param_set", 0, rng.choice([0.5, 1, 6])] for _ in range(rng.choice([0, 1]))]
    return k, [o for o in ops if not (o[1] == "mode" and o[2] == 3)]


def g_c07(rng, tier):
    k = local_base(rng, 9, 16)
    k["n_expanded_nodes_"] = rng.choice([1, 3])
    k["boxes"] = rng.choice([1, 3, 6, 8])
    k["ncam"] = rng.choice([1, 1, 2])
    k["spin"] = rng.choice([0, 0.3, -0.3, 0.8, -0.8])
    k["max_point_age_s_"] = rng.choice([2, 4, 20, 20])
    k["tilt"] = rng.choice([0, 0, 1, 2])
    k["no_liveness"] = 1
    ops = []
    d = k["dur"]
    q = rng.random()
    if q < 0.3:
        ops += some(rng, 2, lambda: op_goal(rng, d))
    if q < 0.5:
        ops += some(rng, 2, lambda: op_cam(rng, d))
    elif q < 0.6:
        ops += some(rng, 2, lambda: op_reconf(rng, d))
    elif q < 0.75:
        ops += some(rng, 2, lambda: op_net(rng, d))
    return k, ops


def g_c08(rng, tier):
    k = local_base(rng, 7, 11)
    k["n_expanded_nodes_"] = rng.choice([1, 2])
    k["boxes"] = rng.choice([1, 3, 6])
    k["nx"], k["ny"] = rng.choice([(24, 16), (32, 12)])
    k["px_CP_DIST"] = rng.choice([5, 5, 5, 0.5, -1])
    k["ground"] = rng.choice([0, 0, 1])
    k["spin"] = rng.choice([0, 0, 0.4])
    k["no_liveness"] = 1
    if rng.random() < 0.3:
        k["max_sensor_range_"] = rng.choice([6, 10, 25])
        k["min_sensor_range_"] = rng.choice([0.2, 1, 2])
    if rng.random() < 0.25:  # start close to a wall
        k["wall"] = round(k.get("min_sensor_range_", 0.2) + rng.uniform(0.3, 1.8), 2)
        k["yaw0"] = round(rng.uniform(-0.6, 0.6), 2)
    d = k["dur"]
    ops = some(rng, 3, lambda: rng.choice([op_cam(rng, d), op_goal(rng, d), [wtime(rng, d), "param_set", 1, rng.choice([-1, 3])], op_net(rng, d)]))
    return k, ops


def g_c09(rng, tier):
    k = local_base(rng, 6, 10)
    k["n_expanded_nodes_"] = rng.choice([1, 5, 10, 25, 40])
    k["children_per_node_"] = rng.choice([1, 2, 5, 8, 20])
    k["tree_node_distance_"] = rng.choice([0.5, 1, 2, 4])
    k["boxes"] = rng.choice([2, 5, 8])
    if rng.random() < 0.5:
        k["wall"] = round(rng.uniform(4, 9), 1)
        k["wall_w"] = rng.choice([3, 8, 20])
    k["no_liveness"] = 1
    d = k["dur"]
    return k, some(rng, 3, lambda: rng.choice([op_goal(rng, d), op_cam(rng, d), op_reconf(rng, d), [wtime(rng, d), "wind", rng.choice([-3, 3]), 2, 0]]))


def g_c10(rng, tier):
    k = local_base(rng, 9, 15)
    k["n_expanded_nodes_"] = rng.choice([3, 6, 10])
    k["boxes"] = rng.choice([3, 6])
    k["ground"] = 1
    k["goal_x"], k["goal_y"] = round(rng.uniform(15, 30), 1), round(rng.uniform(-10, 10), 1)
    k["px_MPC_XY_CRUISE"] = rng.choice([2, 3, 5, 8])
    k["tree_node_distance_"] = rng.choice([0.5, 1, 1])
    k["mode"] = rng.choice([0, 1])
    k["no_liveness"] = 1
    # slow planning or slow cameras: the path runs out before the next one
    d = k["dur"]
    ops = []
    if rng.random() < 0.5:
        k["ground"] = 0
        k["boxes"] = rng.choice([1, 2])
    for _ in range(rng.randrange(1, 4)):
        ops.append([wtime(rng, d), rng.choice(["cam_off", "cam_kind"]), 0, round(rng.uniform(1, 4), 2)])
        if ops[-1][1] == "cam_kind":
            ops[-1] = ops[-1][:3] + [rng.choice([1, 2])] + ops[-1][3:]
    return k, ops


def g_c11(rng, tier):
    k = light(rng, local_base(rng, 8, 12))
    k["svc0"] = rng.choice([0, 0, 0, 1, 2, 3])
    k["svc0_delay"] = rng.choice([0.2, 3])
    t = rng.choice([0.0001, 0.0005, 0.002, 0.02, 0.3, 1, 2, 4, 7]) * rng.uniform(0.3, 1.2)
    if rng.random() < 0.2:
        k["pose_start"] = 100
    if rng.random() < 0.2:
        k["cam_start"] = 100
    ops = some(rng, 2, lambda: op_cam(rng, 5)) + some(rng, 1, lambda: op_svc(rng, 5)) + some(rng, 1, lambda: [wtime(rng, 5), "tf_off", 20])
    ops = [o for o in ops if o[0] < t]
    ops.append([round(t, 5), rng.choice(["shutdown", "shutdown", "unload"])])
    k["mean_access"] = rng.choice([0, 100, 500, 5000])
    k["dur"] = round(t + 16, 2)
    return k, ops


def g_c12(rng, tier):
    k = light(rng, local_base(rng, 6, 12))
    k["svc0"] = rng.choice([0, 0, 0, 1, 2, 4])
    k["svc0_until"] = rng.choice([2, 5])
    k["svc0_delay"] = 1
    d = k["dur"]
    ops = local_any(rng, k, 6)
    if rng.random() < 0.3:
        ops += [op_stall(rng, d, 3) for _ in range(3)]
    # calm tail for the recovery check
    end = d
    for o in ops:
        e = o[0] + {"cam_off": 3, "cam_kind": 4, "cam_skew": 4, "cam_lag": 4, "net": 3, "svc": 4, "stall": 3, "pose_off": 2, "tf_off": 2}.get(o[1], 0) * 0
        if o[1] in ("cam_off", "net", "stall"):
            e += o[3]
        elif o[1] in ("cam_kind", "cam_skew", "cam_lag", "svc"):
            e += o[4] + (abs(o[3]) if o[1] != "cam_kind" else 0)
        elif o[1] in ("pose_off", "tf_off"):
            e += o[2]
        end = max(end, e)
    k["dur"] = round(end + rng.choice([0, 12, 12, 19]), 1)
    ops = [o for o in ops if not (o[1] == "arm" or (o[1] == "mode" and o[2] in (3,)))]
    return k, ops


def g_c14(rng, tier):
    k = local_base(rng, 7, 12)
    k["n_expanded_nodes_"] = rng.choice([1, 3])
    k["ncam"] = rng.choice([1, 2, 2, 3, 3])
    k["boxes"] = rng.choice([3, 6, 8])
    k["spin"] = rng.choice([0, 0.5, -0.8, 1.2])
    k["cam_latency"] = rng.choice([0.01, 0.05, 0.2])
    k["tilt"] = rng.choice([0, 1])
    k["tf_hz"] = rng.choice([20, 50, 100])
    k["no_liveness"] = 1
    d = k["dur"]
    ops = some(rng, 3, lambda: rng.choice([op_cam(rng, d), [wtime(rng, d), "tf_off", round(rng.uniform(0.1, 1.5), 2)], op_net(rng, d, [6, 7, 8]), op_goal(rng, d), op_stall(rng, d, 0.6)]))
    if rng.random() < 0.15:
        k["ncam"] = rng.choice([2, 3])
        ops.append([0.01, "cam_off", rng.randrange(0, int(k["ncam"])), rng.choice([3, 100])])
    return k, ops


def g_c17(rng, tier):
    k = light(rng, local_base(rng, 6, 11))
    k["no_liveness"] = 1
    k["accept_topic"] = rng.choice([1, 1, 1, 0])
    k["mean_access"] = rng.choice([0, 30, 100, 500])
    k["p_sync"] = rng.choice([0, 0.1, 0.4])
    d = k["dur"]
    ops = [rng.choice([op_goal, op_goal, op_traj])(rng, d) for _ in range(rng.randrange(2, 14))]
    ops += some(rng, 2, lambda: rng.choice([op_cam(rng, d), op_net(rng, d, [3]), op_misc(rng, d), op_stall(rng, d, 0.6)]))
    return k, ops


# ------------------------------------------------------------------ landing
SLP = {n: i for i, n in enumerate(["n_points_threshold", "std_dev_threshold", "smoothing_size", "mean_diff_thr", "max_n_mean_diff_cells", "min_n_land_cells",
                                   "grid_size", "cell_size", "alpha", "timeout_critical", "timeout_termination"])}
WG = {n: i for i, n in enumerate(["can_land_thr", "loiter_height", "smoothing_land_cell", "beta", "vertical_range_error", "spiral_width"])}


def slp_base(rng, lo, hi):
    k = {"dur": round(rng.uniform(lo, hi), 2)}
    sched(rng, k)
    k["world"] = rng.randrange(1, 100000)
    k["terrain"] = rng.choice([0, 2, 3, 3, 4])
    k["base"] = rng.choice([0, 0, -2, 3])
    k["slope"] = rng.choice([0.02, 0.1, 0.5])
    k["spots"] = rng.choice([1, 2, 4])
    k["spot_spread"] = rng.choice([3, 6])
    k["land_x"], k["land_y"] = round(rng.uniform(-6, 6), 1), round(rng.uniform(-6, 6), 1)
    k["land_z"] = round(k["base"] + rng.uniform(2, 8), 1)
    k["z0"] = round(k["base"] + rng.uniform(2, 7), 1)
    k["yaw0"] = round(rng.uniform(-3, 3), 2)
    k["mode"] = rng.choice([0, 0, 1])
    k["fcu_vel"] = rng.choice([0, 0, 1])
    k["no_yaw"] = rng.choice([0, 0, 1])
    k["loiter_height"] = rng.choice([3, 4, 5])
    k["smoothing_land_cell"] = rng.choice([2, 3, 3, 4])
    k["can_land_thr"] = rng.choice([0.2, 0.4, 0.6])
    k["beta"] = rng.choice([0.7, 0.9, 0.9])
    k["spiral_width"] = rng.choice([1, 2])
    k["pose_hz"] = rng.choice([10, 30])
    return k


def slp_grid_params(rng, k):
    k["grid_size"], k["cell_size"] = rng.choice([(10, 0.5), (8, 0.5), (6, 0.25), (12, 1), (7, 0.4)])
    k["smoothing_size"] = rng.choice([-1, 0, 1, 2, 3])
    k["n_points_threshold"] = rng.choice([0, 1, 2, 5])
    k["std_dev_threshold"] = rng.choice([0.05, 0.2, 0.5])
    k["mean_diff_thr"] = rng.choice([0.05, 0.1, 0.5])
    k["max_n_mean_diff_cells"] = rng.choice([0, 3, 8])
    k["min_n_land_cells"] = rng.choice([0, 4, 6, 8])
    k["alpha"] = rng.choice([0, 0.5, 0.9, 0.95])
    return k


def op_lcam(rng, d, maxlen=4):
    t, ln, q = wtime(rng, d), round(rng.uniform(0.2, maxlen), 2), rng.random()
    if q < 0.4:
        return [t, "cam_off", ln]
    if q < 0.65:
        return [t, "cam_kind", rng.choice([1, 2, 3, 4]), ln]
    if q < 0.85:
        return [t, "cam_skew", rng.choice([-3, -0.3, 0.1, 0.5, 2]), ln]
    return [t, "cam_lag", rng.choice([0.1, 0.4, 1.5]), ln]


def op_lnet(rng, d, topics=(0, 1, 2, 3, 4), maxlen=4):
    return [wtime(rng, d), "net", rng.choice(list(topics)), round(rng.uniform(0.3, maxlen), 2), rng.choice([0, 0.1, 0.5, 1.0]), rng.choice([0, 0.2]), rng.choice([0, 0.3]), rng.choice([0.002, 0.05, 0.3])]


def op_lstall(rng, d, procs=(0, 1), maxlen=2.5):
    if rng.random() < 0.15:
        return op_spawn_stall(rng, 6, rng.choice([0.001, 0.001, wtime(rng, d)]))
    return [wtime(rng, d, 0.01), "stall", rng.randrange(0, 6), round(rng.choice([0.05, 0.3, 1.0, maxlen]) * rng.uniform(0.5, 1), 3), rng.choice(list(procs))]


def op_wp(rng, d, base=0):
    p = [round(rng.uniform(-8, 8), 1), round(rng.uniform(-8, 8), 1), round(base + rng.uniform(2, 7), 1)]
    q = list(p)
    q[2] = base
    return [wtime(rng, d), "wp"] + p + q + [rng.choice([21, 21, 16, 16, 17]), rng.choice([1, 1, 1, 0]), rng.choice([1, 1, 1, 0]), rng.choice([0, 1])]


def op_mode(rng, d):
    return [wtime(rng, d), "mode", rng.choice([0, 0, 1, 1, 2, 3, 4, 5, 6])] if rng.random() < 0.8 else [wtime(rng, d), "arm", rng.choice([0, 1, 1])]


def op_lreconf(rng, d, which, legal=True):
    if which == "slp":
        ch = [("n_points_threshold", [0, 1, 3]), ("std_dev_threshold", [0.05, 0.2, 0.5]), ("smoothing_size", [-1, 0, 1, 2, 4]), ("mean_diff_thr", [0.05, 0.5]), ("max_n_mean_diff_cells", [0, 3, 9]),
              ("min_n_land_cells", [0, 4, 8]), ("grid_size", [6, 8, 10, 12]), ("cell_size", [0.25, 0.5, 0.7, 1]), ("alpha", [0, 0.5, 0.9]), ("timeout_critical", [0.5, 1, 3]), ("timeout_termination", [4, 15])]
        names = SLP
    else:
        ch = [("can_land_thr", [0.2, 0.4, 0.8]), ("loiter_height", [2, 3, 5]), ("smoothing_land_cell", [0, 1, 2, 3, 5, 9, 20]), ("beta", [0.5, 0.9]), ("vertical_range_error", [0.3, 1]), ("spiral_width", [1, 3])]
        names = WG
    o = [wtime(rng, d, 0.05), "reconf_" + which]
    for n, v in rng.sample(ch, rng.randrange(1, 4)):
        o += [names[n], rng.choice(v)]
    return o


def g_c18(rng, tier):
    k = slp_base(rng, 25, 45)
    k["syn"] = rng.choice([1, 1, 0])
    d = k["dur"]
    if k["syn"]:
        k["grid_size"], k["cell_size"] = rng.choice([(10, 0.5), (8, 0.5), (10, 0.25), (12, 1)])
        k["grid_noise"] = rng.choice([0, 0, 0, 0.02, 0.2])
    else:
        k["spot_max"] = 2
    ops = some(rng, 3, lambda: rng.choice([op_lnet(rng, d, [0, 4]), op_lstall(rng, d), op_wp(rng, d, k["base"]), op_mode(rng, d), op_lreconf(rng, d, "wg"), [wtime(rng, d), "pose_off", round(rng.uniform(0.3, 3), 2)],
                                       [wtime(rng, d), "grid_off", round(rng.uniform(0.3, 3), 2)], op_lcam(rng, d), [wtime(rng, d), "drift", round(rng.uniform(-1, 1), 1), round(rng.uniform(-1, 1), 1), 0]]))
    if k["syn"] and rng.random() < 0.2:
        k["seq0"] = rng.choice([30, 500, 100000])
        ops.append([wtime(rng, k["dur"]), "seq_reset"])
    if k["syn"] and rng.random() < 0.15:
        ops.append([wtime(rng, d), "regrid"] + rng.choice([[8, 0.5], [12, 0.5], [5, 1], [10, 0.25]]))
    elif k["syn"] and rng.random() < 0.15:
        ops.append([0.1, "regrid_hold", rng.randrange(1, 21)] + rng.choice([[8, 0.5], [12, 0.5], [9, 0.5], [10, 0.4]]))
    return k, ops


def g_c19(rng, tier):
    k = slp_grid_params(rng, slp_base(rng, 8, 16))
    k["no_wg"] = rng.choice([1, 1, 0])
    k["pts"] = rng.choice([12, 26, 40])
    k["drift_x"], k["drift_y"] = rng.choice([(0, 0), (0.5, -0.3), (2, 1)])
    k["nan_frac"] = rng.choice([0, 0.05, 0.5])
    k["tilt"] = rng.choice([0, 1])
    k["x0"], k["y0"] = rng.choice([(0, 0), (120.3, -55.7), (-1000, 300)])
    if rng.random() < 0.2:
        k["x0"], k["rim"], k["no_wg"], k["drift_x"], k["drift_y"] = rng.choice([0, 2.7, 3, 0.3]), 0.1, 1, 0, 0
    k["land_x"] += k["x0"]
    k["land_y"] += k["y0"]
    d = k["dur"]
    if rng.random() < 0.08:  # few cells, many points in each
        k["grid_size"], k["cell_size"], k["pts"] = 8, 4, 60
    ops = some(rng, 3, lambda: rng.choice([op_lcam(rng, d), op_lnet(rng, d, [0, 3]), op_lreconf(rng, d, "slp"), [wtime(rng, d), "tf_off", round(rng.uniform(0.1, 2), 2)], op_lstall(rng, d, [0], 1)]))
    if rng.random() < 0.1:
        k["rosbag"] = 1
        if rng.random() < 0.6:
            ops.append([wtime(rng, d), "regrid"] + rng.choice([[8, 0.5], [12, 0.5], [5, 1], [10, 0.25]]))
    return k, ops


def g_c20(rng, tier):
    k = slp_base(rng, 10, 18)
    k["no_wg"] = 1
    k["cam_hz"] = rng.choice([10, 10, 20, 30])
    k["timeout_critical"] = rng.choice([0.5, 0.5, 1, 2])
    k["timeout_termination"] = rng.choice([3, 6, 15])
    if rng.random() < 0.2:
        k["cam_start"] = round(rng.uniform(1, 9), 1)
    ops = []
    for _ in range(rng.randrange(1, 4)):
        t, ln = wtime(rng, k["dur"]), round(rng.uniform(0.2, 1) * rng.choice([1, 4, 9]), 2)
        ops.append(rng.choice([[t, "cam_off", ln], [t, "tf_off", ln], [t, "cam_lag", rng.choice([0.4, 1.5]), ln], [t, "net", 3, ln, rng.choice([0.5, 1]), 0, 0, 0.01]]))
    if rng.random() < 0.3:
        k["timeout_termination"] = 15
        k["dur"] = 30
        ops.append([2, rng.choice(["cam_off", "tf_off"]), round(rng.uniform(14, 22), 1)])
    ops += some(rng, 1, lambda: op_lstall(rng, k["dur"], [0]))
    return k, ops


def g_c21(rng, tier):
    k = slp_base(rng, 8, 14)
    k["p_spurious"] = rng.choice([0, 0.01, 0.1, 0.3])
    k["cam_hz"] = rng.choice([5, 10, 30])
    d = k["dur"]
    ops = some(rng, 5, lambda: rng.choice([op_lcam(rng, d), op_lnet(rng, d), op_lstall(rng, d), [wtime(rng, d), "tf_off", round(rng.uniform(0.1, 3), 2)], [wtime(rng, d), "pose_off", round(rng.uniform(0.3, 3), 2)], op_lreconf(rng, d, "slp")]))
    if rng.random() < 0.25:
        t = wtime(rng, d)
        ops += [[t, "slp_down", rng.choice([0, 1])], [round(t + rng.uniform(0.5, 3), 2), "slp_up"]]
    return tail(rng, k, ops, 9)


def tail(rng, k, ops, extra):
    """leave a calm period at the end"""
    end = 0
    for o in ops:
        e = o[0]
        if o[1] in ("cam_off", "pose_off", "tf_off", "grid_off"):
            e += o[2]
        elif o[1] in ("stall", "cam_kind"):
            e += o[3]
        elif o[1] in ("cam_skew", "cam_lag"):
            e += abs(o[2]) + o[3] + 1
        elif o[1] == "net":
            e += o[3] + 1
        end = max(end, e)
    k["dur"] = round(max(k["dur"], end) + extra, 1)
    return k, ops


def g_c22(rng, tier):
    k = slp_base(rng, 20, 40)
    k["syn"] = rng.choice([1, 1, 1, 0])
    k["terrain"] = rng.choice([0, 1, 1, 2, 3])
    k["cmd"] = rng.choice([21, 21, 16])
    k["land_x"], k["land_y"] = round(rng.uniform(-3, 3), 1), round(rng.uniform(-3, 3), 1)
    d = k["dur"]
    if rng.random() < 0.35:
        k["terrain"] = 1     # nowhere to land: explores until something changes
        k["dur"] = d = round(rng.uniform(40, 90), 1)
        k["mode"] = 0
        ops = some(rng, 1, lambda: rng.choice([op_lnet(rng, d, [0, 4]), op_lstall(rng, d, [1], 1)]))
        ops += some(rng, 1, lambda: op_wp(rng, d, k["base"]))
    else:
        ops = [op_wp(rng, d, k["base"]) for _ in range(rng.randrange(1, 4))] + [op_mode(rng, d) for _ in range(rng.randrange(0, 4))]
        ops += some(rng, 2, lambda: rng.choice([op_lnet(rng, d, [0, 1, 2, 4]), op_lstall(rng, d, [1], 1), op_lreconf(rng, d, "wg"), [wtime(rng, d), "traj_off", round(rng.uniform(1, 6), 2)]]))
    return k, ops


def g_c23(rng, tier):
    k = slp_base(rng, 3, 9)
    d = k["dur"]
    k["mean_access"] = rng.choice([0, 100, 500, 5000])
    t = rng.choice([0.0001, 0.0005, 0.002, 0.02, 0.3, 1, 2, 4, 7]) * rng.uniform(0.3, 1.2)
    if rng.random() < 0.2:
        k["cam_start"] = 100
    if rng.random() < 0.2:
        k["pose_start"] = 100
    if rng.random() < 0.4:
        slp_grid_params(rng, k)
    if rng.random() < 0.3:
        k["smoothing_land_cell"] = rng.choice([0, 1, 5, 9, 10, 20])
    if rng.random() < 0.15:
        k["rosbag"] = 1
    if rng.random() < 0.3:
        k["x0"], k["y0"] = rng.choice([(120.3, -55.7), (-4000, 9000)])
    ops = some(rng, 2, lambda: rng.choice([op_lcam(rng, d), op_lnet(rng, d), op_lstall(rng, d), op_lreconf(rng, d, rng.choice(["slp", "wg"])), op_wp(rng, d), op_mode(rng, d), [wtime(rng, d), "tf_off", 20],
                                       [wtime(rng, d), "regrid"] + rng.choice([[8, 0.5], [12, 0.5], [5, 1], [10, 0.25]])]))
    k["dur"] = round(max(d, t) + 6, 2)
    w = rng.choice(["slp", "wg", "both"])
    crash = rng.choice([0, 0, 0, 1])
    if w != "wg":
        ops.append([round(t, 5), "slp_down", crash])
        if rng.random() < 0.3:
            ops.append([round(t + rng.uniform(0.5, 3), 3), "slp_up"])
    if w != "slp":
        ops.append([round(t * rng.uniform(0.7, 1.3), 5), "wg_down", crash])
        if rng.random() < 0.3:
            ops.append([round(t * 1.3 + rng.uniform(0.5, 3), 3), "wg_up"])
    return k, ops


def g_c28(rng, tier):
    k = slp_base(rng, 8, 14)
    k["syn"] = rng.choice([1, 0, 0])
    k["terrain"] = 0
    k["must_land"] = 1
    k["mode"] = rng.choice([0, 0, 1])
    if k["syn"]:
        k["grid_size"], k["cell_size"] = rng.choice([(10, 0.5), (8, 0.5), (10, 0.25), (12, 1)])
    d = k["dur"]
    fs = [lambda: op_lnet(rng, d, [0, 3, 4]), lambda: op_lstall(rng, d), lambda: [wtime(rng, d), "tf_off", round(rng.uniform(0.1, 3), 2)], lambda: [wtime(rng, d), "pose_off", round(rng.uniform(0.3, 3), 2)],
          lambda: op_lcam(rng, d), lambda: [wtime(rng, d), "grid_off", round(rng.uniform(0.3, 3), 2)]]
    ops = some(rng, 4, lambda: rng.choice(fs)())
    if rng.random() < 0.3:
        t = wtime(rng, d)
        ops += [[t, "mode", rng.choice([2, 3, 4, 5])], [round(t + rng.uniform(1, 4), 2), "mode", k["mode"]]]
        # the flight controller repeats its item after the interruption; only a changed item is taken over
        ops.append([round(t + 5, 2), "wp", k["land_x"], k["land_y"], k["land_z"], k["land_x"], k["land_y"], k["base"] - 0.5, 21, 1, 1, 1])
    if rng.random() < 0.2 and not k["syn"]:
        t = wtime(rng, d)
        ops += [[t, "slp_down", rng.choice([0, 1])], [round(t + rng.uniform(0.5, 3), 2), "slp_up"]]
    if k["syn"] and rng.random() < 0.5:
        # the planner has been running for long before it is restarted: its grid numbers start again
        k["seq0"] = rng.choice([500, 5000, 100000])
        for _ in range(rng.choice([1, 1, 2])):
            ops.append([round(rng.uniform(2, d + 4), 2), "seq_reset"])
    k["land2_z"] = k["base"]
    k["pts"], k["max_half"], k["nan_frac"] = 44, 6, 0.02
    return tail(rng, k, ops, 45)


def g_c29(rng, tier):
    k = slp_base(rng, 12, 30)
    k["syn"] = 1
    k["terrain"] = rng.choice([0, 0, 1, 3])
    if rng.random() < 0.2:
        k["traj_start"] = rng.choice([2, 100])
    if rng.random() < 0.2:
        k["pose_start"] = rng.choice([2, 100])
    d = k["dur"]
    ops = some(rng, 4, lambda: rng.choice([op_wp(rng, d, k["base"]), op_mode(rng, d), op_lnet(rng, d, [0, 1, 2, 4]), op_lstall(rng, d, [1]), op_lreconf(rng, d, "wg")]))
    return k, ops


def T(qr, qs, tr, ts):
    return {"quick": {"runs": qr, "seconds": qs}, "thorough": {"runs": tr, "seconds": ts}}


def L(gen, need=(), **kw):
    d = dict(sim="local", gen=gen, need=list(need), **T(320, 60, 20000, 1500))
    d.update(kw)
    return d


# ------------------------------------------------------------------ shared parts
def g_c13(rng, tier):
    k = {"dur": 30}
    sched(rng, k)
    k["mean_access"] = rng.choice([0, 5, 20, 100, 1000])
    k["p_sync"] = rng.choice([0.02, 0.2, 0.5])
    k["threads"] = n = rng.choice([2, 3, 4, 6])
    k["buffer_s"] = rng.choice([10, 10, 10, 2, 0.5])
    b = k["buffer_s"]
    pairs = rng.choice([[0], [0], [0, 1], [0, 1, 2]])
    head = {p: rng.choice([0.5, 1000.0, 1700000000.0]) for p in range(3)}
    step = rng.choice([0.01, 0.02, 0.1, b / 3])
    uid = rng.randrange(1, 10 ** 6)
    ops = []
    t = 0.01
    sent = {p: [] for p in range(3)}
    for _ in range(rng.choice([20, 60, 120])):
        t += rng.choice([0, 0, 0, 0.0000005, 0.00001, 0.01, 0.1])
        p = rng.choice(pairs)
        th = rng.randrange(n)
        q = rng.random()
        uid += 20
        st = lambda x: round(max(0, x), 6)
        if q < 0.45:
            z = rng.random()
            if z < 0.65:
                head[p] = st(head[p] + step * rng.uniform(0.2, 1.8)); s = head[p]
            elif z < 0.75:
                head[p] = st(head[p] + b * rng.uniform(0.5, 2.5)); s = head[p]
            elif z < 0.87 and sent[p]:
                s = rng.choice(sent[p])  # duplicate stamp
            else:
                s = st(head[p] - step * rng.uniform(0.1, 5))
            sent[p].append(s)
            ops.append([round(t, 7), "ins", th, p, s, uid])
        elif q < 0.85:
            z = rng.random()
            if z < 0.25 and sent[p]:
                s = rng.choice(sent[p][-6:])  # an exact stamp
            elif z < 0.7:
                s = st(head[p] - rng.uniform(0, 1) * step * 5)
            elif z < 0.8:
                s = st(head[p] + step * rng.uniform(0, 2))
            elif z < 0.9:
                s = st(head[p] - b * rng.uniform(0.8, 1.2))
            else:
                s = st(head[p] - b * rng.uniform(0, 1))
            ops.append([round(t, 7), "get", th, p, s])
        else:
            m = rng.choice([3, 6, 12])
            ins = rng.random() < 0.5
            ops.append([round(t, 7), "burst", th, p, st(head[p] + (step if ins else -step * 2)), m, 1 if ins else 0, round(step, 6), uid])
            if ins:
                sent[p] += [st(head[p] + step + i * round(step, 6)) for i in range(m)]
                head[p] = max(head[p], sent[p][-1])
                uid += m
    k["dur"] = round(t + 5, 2)
    return k, ops


def g_fcu(rng, tier, lo, hi):
    k = {"dur": round(rng.uniform(lo, hi), 1)}
    sched(rng, k)
    k["read_gap"] = rng.choice([0.05, 0.3, 0.6])
    if rng.random() < 0.5:
        k["svc0"] = rng.choice([1, 2, 3, 4])
        k["svc0_delay"] = rng.choice([0.2, 1, 4])
        k["svc0_until"] = round(rng.uniform(0.5, k["dur"] * 0.5), 2)
    return k, []


def g_c15(rng, tier):
    k, ops = g_fcu(rng, tier, 60, 110)
    d = k["dur"]
    quiet = round(d - rng.choice([36, 36, 45]), 2)
    for _ in range(rng.randrange(0, 4)):
        ops.append([round(rng.uniform(0.5, max(1, quiet)), 3), "svc", rng.choice([1, 2, 2, 3, 3, 4]), rng.choice([0.2, 1, 4]), round(rng.uniform(0.3, 15), 2)])
    for _ in range(rng.randrange(0, 12)):
        ops.append([round(rng.uniform(0.05, quiet + 2), 3), "param_set", rng.randrange(14), round(rng.uniform(0.1, 30), 4), rng.choice([1, 1, 1, 0])])
    # changes pushed right around the polls, which start at 0 s and follow 5 or 30 s after the previous one
    for _ in range(rng.randrange(0, 8)):
        base = rng.choice([0.0, 0.0, 5.1, 30.1, 35.3])
        ops.append([round(base + rng.uniform(0.001, 0.2), 4), "param_set", rng.randrange(14), round(rng.uniform(0.1, 30), 4), rng.choice([1, 1, 0])])
    if rng.random() < 0.4:
        # slow answers while values change
        a = round(rng.choice([0.0, 5.0, 30.0]) + 0.01, 3)
        ops.append([a, "svc", 2, rng.choice([0.3, 1.0, 3.0]), 8])
        for _ in range(6):
            ops.append([round(a + rng.uniform(0.05, 12), 3), "param_set", rng.randrange(11), round(rng.uniform(0.1, 30), 4), rng.choice([1, 1, 1, 0])])
    if rng.random() < 0.3:
        ops.append([round(rng.uniform(0.1, d * 0.5), 3), rng.choice(["push_all", "push"]), rng.randrange(14)])
    if rng.random() < 0.4:
        ops.append([round(rng.uniform(0.1, quiet), 3), "net", 0, round(rng.uniform(1, 10), 2), rng.choice([0, 0.3, 1.0]), rng.choice([0, 0.3]), rng.choice([0, 0.5]), rng.choice([0.002, 0.1, 0.5])])
    if rng.random() < 0.25:
        ops.append(op_stall(rng, max(2, quiet), 2))
    if rng.random() < 0.2:
        ops.append([round(rng.uniform(0.3, d - 6), 3), "shutdown", rng.choice([0, 1])])
    return k, ops


def g_c16(rng, tier):
    k, ops = g_fcu(rng, tier, 10, 20)
    k["read_gap"] = rng.choice([0.01, 0.1])
    t = 0.3
    while t < k["dur"] - 1:
        t += rng.choice([0.001, 0.05, 0.4, 1.5]) * rng.uniform(0.5, 1.5)
        n = rng.choice([0, 1, 2, 5, 9, 14])
        o = [round(t, 4), "mission", rng.choice([-1] + list(range(n)) * 3) if n else -1]
        for _ in range(n):
            if rng.random() < 0.4:
                o += [178, rng.choice([1, 1, 1, 0, 2, 3, -1]), rng.choice([0, -1, round(rng.uniform(0.5, 20), 2), round(rng.uniform(0.5, 20), 2), round(rng.uniform(0.5, 20), 2)])]
            else:
                o += [rng.choice([16, 16, 22, 21, 177, 179, 205]), rng.choice([0, 1, 15]), rng.choice([0, 5, 16])]
        ops.append(o)
    if rng.random() < 0.5:
        ops.append([round(rng.uniform(0.3, k["dur"] - 2), 3), "net", 1, round(rng.uniform(1, 8), 2), rng.choice([0, 0.3]), rng.choice([0, 0.4]), rng.choice([0, 0.6]), rng.choice([0.002, 0.2, 1.0])])
    return k, ops


# ------------------------------------------------------------------ global planner
GP_P = ["min_altitude_", "max_altitude_", "max_cell_risk_", "smooth_factor_", "vert_to_hor_cost_", "risk_factor_", "neighbor_risk_flow_", "explore_penalty_",
        "up_cost_", "down_cost_", "search_time_", "min_overestimate_factor_", "max_overestimate_factor_", "risk_threshold_risk_based_speedup_",
        "default_speed_", "max_speed_", "max_iterations_", "goal_must_be_free_", "use_current_yaw_", "use_risk_heuristics_", "use_speedup_heuristics_",
        "use_risk_based_speedup_", "clicked_goal_alt_", "clicked_goal_radius_", "simplify_iterations_", "simplify_margin_", "default_node_type_"]
GPI = {n: i for i, n in enumerate(GP_P)}
GP_V = {"max_altitude_": [6, 10, 15], "max_cell_risk_": [0.1, 0.2, 0.5], "smooth_factor_": [0, 5, 40], "risk_factor_": [50, 500, 1000], "neighbor_risk_flow_": [0.2, 1],
        "explore_penalty_": [0.001, 0.005, 0.01], "up_cost_": [1, 5, 10], "down_cost_": [0, 1, 5], "search_time_": [0, 0.5, 1], "max_overestimate_factor_": [1, 1.2, 2, 4],
        "min_overestimate_factor_": [1, 1.03, 1.3], "risk_threshold_risk_based_speedup_": [0, 0.2, 0.5, 1], "default_speed_": [0.5, 1, 2], "max_speed_": [1, 2, 3, 5],
        "max_iterations_": [100, 300, 800], "goal_must_be_free_": [0, 1], "use_current_yaw_": [0, 1], "use_risk_heuristics_": [0, 1], "use_speedup_heuristics_": [0, 1],
        "clicked_goal_alt_": [2.5, 3.5, 5.5], "clicked_goal_radius_": [1, 2, 4], "simplify_iterations_": [0, 1, 3, 20], "simplify_margin_": [0.5, 1, 1.01, 1.5, 2]}


def gp_base(rng, lo=12, hi=22):
    k = {"dur": round(rng.uniform(lo, hi), 2)}
    sched(rng, k)
    k["p_sync"] = rng.choice([0.0, 0.02, 0.1])
    k["world"] = rng.randrange(1, 100000)
    k["boxes"] = rng.choice([0, 1, 3, 5])
    k["walls"] = rng.choice([0, 0, 1, 2])
    k["res"] = rng.choice([1, 1, 1, 0.5])
    k["full_map"] = rng.choice([1, 1, 0])
    k["uncertain"] = rng.choice([0, 0, 0.1, 0.3])
    k["free"] = rng.choice([0, 0, 30])
    k["x0"], k["y0"] = round(rng.uniform(-4, 4), 2), round(rng.uniform(-4, 4), 2)
    k["z0"] = round(rng.uniform(2.2, 5.5), 2)
    k["yaw0"] = round(rng.uniform(-3.1, 3.1), 2)
    k["start_x"], k["start_y"], k["start_z"] = k["x0"], k["y0"], k["z0"]
    g_goal(rng, k)
    k["max_iterations_"] = rng.choice([150, 300, 300, 600])
    k["pose_hz"] = rng.choice([10, 30, 30])
    k["map_hz"] = rng.choice([1, 3, 3, 6])
    k["offboard"] = rng.choice([1, 1, 0])
    k["stream"] = rng.choice([1, 1, 0])
    k["cam"] = rng.choice([0, 0, 1])
    k["v_max"] = rng.choice([2, 4, 4])
    if rng.random() < 0.3:
        k["robot_radius"] = rng.choice([0.2, 0.8, 1.3, 2.2])
    if rng.random() < 0.2:
        k["camera_frame"] = 0
    if rng.random() < 0.25:
        k["default_node_type_"] = rng.choice([0, 1])
    for n in rng.sample(sorted(GP_V), rng.choice([0, 0, 1, 2, 4])):
        if n != "max_iterations_":
            k[n] = rng.choice(GP_V[n])
    return k


def g_goal(rng, k, far=14):
    a, r = rng.uniform(-3.14, 3.14), rng.choice([rng.uniform(2, far), rng.uniform(5, far)])
    import math
    k["goal_x"], k["goal_y"] = round(k["x0"] + r * math.cos(a), 2), round(k["y0"] + r * math.sin(a), 2)
    k["goal_z"] = round(rng.uniform(2.2, 6), 2)


def gp_goal(rng, k, t=None, how=None):
    return [t if t is not None else round(rng.uniform(0.5, 3), 3), "goal", k["goal_x"], k["goal_y"], k["goal_z"], how if how is not None else rng.choice([0, 0, 1])]


def op_spawn_stall(rng, n, t=0.001):
    return [t, "spawn_stall", rng.randrange(1, n + 1), round(rng.choice([0.15, 0.4, 1.1, 6]) * rng.uniform(0.8, 1.2), 3)]


def op_gnet(rng, d, topics=None):
    return [wtime(rng, d), "net", rng.choice(topics if topics is not None else list(range(7))), round(rng.uniform(0.3, 4), 2), rng.choice([0, 0.1, 0.5, 1.0]), rng.choice([0, 0.2]), rng.choice([0, 0.3]), rng.choice([0.002, 0.05, 0.3])]


def op_gstall(rng, d, mx=2.0):
    if rng.random() < 0.25:
        return op_spawn_stall(rng, 6)
    return [wtime(rng, d, 0.05), "stall", rng.randrange(0, 8), round(rng.choice([0.05, 0.3, 1.0, mx]) * rng.uniform(0.5, 1), 3)]


def op_greconf(rng, d):
    n = rng.choice(sorted(GP_V))
    return [wtime(rng, d), "reconf", GPI[n], rng.choice(GP_V[n])]


def op_ggoal(rng, d, k):
    q = {"x0": k["x0"], "y0": k["y0"]}
    g_goal(rng, q)
    return [wtime(rng, d), "goal", q["goal_x"], q["goal_y"], q["goal_z"], rng.choice([0, 0, 0, 1, 1, 2, 3, 4, 5])]


def op_gworld(rng, d, k):
    q = rng.random()
    t = wtime(rng, d)
    if q < 0.4:
        return [t, "wall_ahead", round(rng.uniform(2, 5), 1), rng.choice([2, 4, 8]), rng.choice([4, 8, 12])]
    if q < 0.7:
        return [t, "box", round(k["x0"] + rng.uniform(-8, 8), 1), round(k["y0"] + rng.uniform(-8, 8), 1), round(rng.uniform(0, 6), 1), rng.choice([0.5, 1, 2]), rng.choice([0.5, 1, 2]), rng.choice([0.5, 1, 3])]
    if q < 0.8:
        return [t, "clear"]
    return [t, "map_kind", rng.choice([1, 2, 3, 4]), round(rng.uniform(0.3, 3), 2)]


def op_goff(rng, d, w=("map_off", "pose_off", "tf_off", "cam_off")):
    return [wtime(rng, d), rng.choice(list(w)), round(rng.choice([0.3, 1, 3]) * rng.uniform(0.5, 1.2), 2)]


def op_gmove(rng, d):
    if rng.random() < 0.6:
        return [wtime(rng, d), "vel", round(rng.uniform(-3, 3), 1), round(rng.uniform(-3, 3), 1), round(rng.uniform(-1, 1), 1), round(rng.uniform(0.3, 2), 2)]
    return [wtime(rng, d), "jump", round(rng.uniform(-3, 3), 1), round(rng.uniform(-3, 3), 1), round(rng.uniform(-1, 1), 1)]


def g_c24(rng, tier):
    k = gp_base(rng, 10, 20)
    d = k["dur"]
    if rng.random() < 0.25:
        # too few iterations for the search in space: the way leads along the maximum altitude
        k["max_iterations_"] = rng.choice([20, 60, 100])
        k["max_altitude_"] = rng.choice([5, 6, 8])
        k["walls"], k["boxes"] = rng.choice([1, 2]), rng.choice([0, 1, 3])
        k["full_map"] = 1
        k["box_h"] = rng.choice([4, 7, 9])
        if rng.random() < 0.6:
            k["goal_roof"] = k["max_altitude_"] + rng.choice([-1, 0, 0, 0, 1])
    ops = [gp_goal(rng, k)] + some(rng, 4, lambda: rng.choice([op_gworld(rng, d, k), op_gworld(rng, d, k), op_gnet(rng, d), op_gstall(rng, d), op_greconf(rng, d), op_ggoal(rng, d, k), op_goff(rng, d), op_gmove(rng, d)]))
    return k, ops


def g_c25(rng, tier):
    k = gp_base(rng, 8, 16)
    d = k["dur"]
    if rng.random() < 0.3:
        k["pose_start"] = rng.choice([1, 3, 100])
    if rng.random() < 0.3:
        k["map_start"] = rng.choice([2, 6, 100])
    k["mean_access"] = rng.choice([0, 300, 3000])
    ops = [gp_goal(rng, k)] + some(rng, 3, lambda: rng.choice([op_gworld(rng, d, k), op_gnet(rng, d), op_gstall(rng, d), op_greconf(rng, d), op_ggoal(rng, d, k), op_goff(rng, d), op_gmove(rng, d)]))
    if rng.random() < 0.3:
        ops.append([wtime(rng, d), "place", k["goal_x"], k["goal_y"], k["goal_z"]])
    if rng.random() < 0.3:
        # exactly on a waypoint
        import math
        ops.append([wtime(rng, d), "place"] + [math.floor(k[n]) + 0.5 for n in ("goal_x", "goal_y", "goal_z")])
        k["follow"] = rng.choice([0, 1])
    return k, ops


def g_c26(rng, tier):
    k = gp_base(rng, 12, 24)
    d = k["dur"]
    if rng.random() < 0.4:
        # a healthy world in which the goal must be reached
        for n in list(k):
            if n in GP_V or n in ("robot_radius", "default_node_type_"):
                del k[n]
        k["max_iterations_"] = 600
        k["full_map"], k["uncertain"] = 1, 0
        k["boxes"], k["walls"] = rng.choice([0, 1, 2]), 0
        k["v_max"] = 4
        k["must_reach"] = 30
        ops = [gp_goal(rng, k)] + some(rng, 3, lambda: rng.choice([op_gnet(rng, d), op_gstall(rng, d), op_goff(rng, d), [wtime(rng, d), "goal", 3, 3, 3, rng.choice([2, 3, 4, 5])], [wtime(rng, d), "map_kind", rng.choice([1, 2, 4]), 2]]))
        k["dur"] = round(max(o[0] + 4 for o in ops) + 34, 1)
        return k, ops
    if rng.random() < 0.25:
        k["goal_box"] = 1
    if rng.random() < 0.2:
        k["goal_roof"] = 7
    ops = [gp_goal(rng, k)] + [op_ggoal(rng, d, k) for _ in range(rng.randrange(0, 4))]
    ops += some(rng, 2, lambda: rng.choice([op_gworld(rng, d, k), op_gnet(rng, d), op_gstall(rng, d), op_greconf(rng, d), op_goff(rng, d)]))
    return k, ops


def g_c27(rng, tier):
    k = gp_base(rng, 3, 10)
    d = k["dur"]
    k["mean_access"] = rng.choice([0, 100, 500, 5000])
    k["cam"] = rng.choice([0, 1])
    if rng.random() < 0.5:
        # planning takes a noticeable part of every second and overlaps with the callbacks
        k["cost_access"] = rng.choice([20, 100])
        k["mean_access"] = rng.choice([500, 5000, 50000])
        k["slow"] = 4
        k["cam"] = 1
    q = rng.random()
    t = rng.choice([0.0001, 0.001, 0.02, 0.3, 1, 3, 6]) * rng.uniform(0.3, 1.2)
    if rng.random() < 0.2:
        k["map_start"] = 100
    if rng.random() < 0.2:
        k["pose_start"] = 100
    if rng.random() < 0.2:
        k["start_z"] = rng.choice([-3, 0.2, 30, 60])
    ops = [gp_goal(rng, k)]
    if rng.random() < 0.3:
        ops = [[round(rng.uniform(0.5, 3), 2), "goal", k["goal_x"], k["goal_y"], rng.choice([-2, 0.3, 20, 26, 80, 1000]), 0]]
    ops += some(rng, 4, lambda: rng.choice([op_gworld(rng, d, k), op_gworld(rng, d, k), op_gnet(rng, d), op_gstall(rng, d), op_greconf(rng, d), op_ggoal(rng, d, k), op_goff(rng, d), op_gmove(rng, d),
                                            [wtime(rng, d), "click", round(rng.uniform(-9, 9), 1), round(rng.uniform(-9, 9), 1), round(rng.uniform(-3, 30), 1)], [wtime(rng, d), "cam_kind", rng.randrange(5), 2],
                                            [wtime(rng, d), "place", round(rng.uniform(-9, 9), 1), round(rng.uniform(-9, 9), 1), rng.choice([-1, 0.2, 9, 24, 26, 40])]]))
    if q < 0.6:
        ops.append([round(rng.choice([t, k.get("t_start", 0.3) + t]), 5), "shutdown"])
        k["dur"] = round(max(d, ops[-1][0]) + 9, 2)
    return k, ops


def g_c30(rng, tier):
    k = gp_base(rng, 10, 26)
    k["max_iterations_"] = 100
    if rng.random() < 0.3:
        k["map_start"] = rng.choice([3, 8, 100])
    d = k["dur"]
    ops = [gp_goal(rng, k)] if rng.random() < 0.7 else []
    ops += some(rng, 2, lambda: rng.choice([op_gnet(rng, d, [3]), op_gstall(rng, d), op_gworld(rng, d, k), op_goff(rng, d, ["map_off", "tf_off"])]))
    if rng.random() < 0.5:
        ops.append([wtime(rng, d), "map_off", rng.choice([0.4, 0.6, 1, 5, 14.5, 15.5, 17])])
        k["dur"] = round(d + 8, 2)
    if rng.random() < 0.3:
        ops.append([round(0.3 + rng.choice([0.0001, 0.001, 0.01, 0.03]) * rng.uniform(0.2, 2), 5), "stall", rng.randrange(6), rng.choice([0.3, 1, 2])])
    return k, ops


def g_c31(rng, tier):
    k = gp_base(rng, 5, 12)
    k["cam"] = 1
    k["cam_hz"] = rng.choice([5, 10, 20])
    k["max_iterations_"] = 100
    k["mean_access"] = rng.choice([0, 300, 3000])
    d = k["dur"]
    ops = ([gp_goal(rng, k)] if rng.random() < 0.7 else []) + some(rng, 4, lambda: rng.choice([op_gnet(rng, d, [6]), op_gstall(rng, d), op_goff(rng, d, ["tf_off", "cam_off"]), [wtime(rng, d), "cam_kind", rng.randrange(5), 2]]))
    return k, ops


PROPS = {
    "C01": L(g_c01, ["c01_evaluated", "c01_stale", "status_critical", "status_termination"]),
    "C02": L(g_c02, ["setpoints", "c01_stale"]),
    "C03": L(g_c03, ["op_stall"]),
    "C04": L(g_c04, ["setpoints", "trajectories"]),
    "C05": L(g_c05, ["c05_evaluated", "c05_recovered"]),
    "C06": L(g_c06, ["c06_checked"]),
    "C07": L(g_c07, ["c07_must_remember", "c07_remembered"]),
    "C08": L(g_c08, ["c08_scans", "c08_bins"]),
    "C09": L(g_c09, ["c09_trees", "c09_paths"]),
    "C10": L(g_c10, ["c10_on_path", "c10_expired"]),
    "C11": L(g_c11, ["shutdown_completed"]),
    "C12": L(g_c12, ["c12_recovery_checked"]),
    "C13": L(g_c13, ["c13_answers", "c13_refusals", "c13_overlapping_histories"], sim="unit", **T(6000, 40, 400000, 1200)),
    "C15": L(g_c15, ["c15_converged", "c15_pushes", "c15_reads"], sim="unit", **T(6000, 40, 400000, 1200)),
    "C16": L(g_c16, ["c16_changed", "c16_unchanged"], sim="unit", **T(6000, 40, 400000, 1200)),
    "C14": L(g_c14, ["c14_points", "c14_complete"]),
    "C17": L(g_c17, ["c17_checked"]),
    "C18": L(g_c18, ["c18_altitude_checked", "c18_verdicts", "c18_landings", "c18_patch_checked"], sim="slp"),
    "C19": L(g_c19, ["c19_geometry", "c19_stats", "c19_landable"], sim="slp"),
    "C20": L(g_c20, ["c20_evaluated", "slp_critical", "slp_termination"], sim="slp"),
    "C21": L(g_c21, ["c21_grids", "c21_recovery_checked"], sim="slp"),
    "C22": L(g_c22, ["c22_nonland_iterations", "c22_goto_checked", "c22_explored"], sim="slp"),
    "C23": L(g_c23, ["c23_shutdowns"], sim="slp"),
    "C28": L(g_c28, ["c28_checked", "c28_landed"], sim="slp"),
    "C29": L(g_c29, ["c29_messages"], sim="slp"),
    "C24": L(g_c24, ["c24_paths", "c24_legal", "c24_simplified"], sim="global"),
    "C25": L(g_c25, ["c25_checked", "c25_speed_varied"], sim="global"),
    "C26": L(g_c26, ["c26_new_goals", "c26_to_goal", "c26_reach_checked"], sim="global"),
    "C27": L(g_c27, ["c27_shutdowns"], sim="global"),
    "C30": L(g_c30, ["c30_evaluated", "status_critical"], sim="global"),
    "C31": L(g_c31, ["c31_forwarded"], sim="global"),
}


# properties whose runs are partly made in the build that follows data races, with the share of such runs
RACE_SHARE = {"C12": 0.25, "C13": 0.3, "C14": 0.1, "C15": 0.3, "C16": 0.3, "C23": 0.3, "C27": 0.3}
for _p, _s in RACE_SHARE.items():
    PROPS[_p]["race"] = _s
# whose generators the two properties about all nodes draw from
ALL_NODES = ["C01", "C02", "C05", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C20", "C21", "C22", "C23", "C28", "C24", "C25", "C26", "C27", "C30", "C31"]
ALL_TOPICS = ["C01", "C02", "C04", "C05", "C06", "C08", "C10", "C12", "C14", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C28", "C29", "C24", "C25", "C26", "C27", "C30", "C31"]
PROPS["C32"] = dict(L(None, ["race_accesses"]), of=ALL_NODES, knobs={"race": 2})
PROPS["C33"] = dict(L(None, ["twin_publications_compared"]), of=ALL_TOPICS, knobs={"twin": 1})


def builds(prop):
    """(simulation, build variant) pairs the plans of a property need"""
    c = PROPS[prop]
    if c.get("of"):
        return sorted({(PROPS[q]["sim"], "race") for q in c["of"]})
    return [(c["sim"], "")] + ([(c["sim"], "race")] if c.get("race") else [])


def generate(rng, prop, tier, index):
    c = PROPS[prop]
    if c.get("of"):
        base = c["of"][index % len(c["of"])]
        p = generate(rng, base, tier, index)
        p["knobs"].pop("race", 0)
        p["knobs"].update(c["knobs"])
        return p
    k, ops = c["gen"](rng, tier)
    if rng.random() < c.get("race", 0):
        k["race"] = 1
    return P(c["sim"], prop, rng, k, ops)


def mutate(rng, plan, prop):
    prop = plan["prop"]
    c = PROPS[prop]
    k = dict(plan["knobs"])
    ops = [list(o) for o in plan["ops"]]
    if rng.random() < 0.4:
        sched(rng, k)
    if not c.get("fixed_ops"):
        for _ in range(rng.randrange(0, 3)):
            q = rng.random()
            if ops and q < 0.3:
                ops.pop(rng.randrange(len(ops)))
            elif ops and q < 0.7:
                o = rng.choice(ops)
                o[0] = round(max(0.0001, o[0] + rng.gauss(0, 0.3)), 4)
            else:
                _, more = c["gen"](rng, "quick")
                more = [o for o in more if o[0] < k["dur"] - 0.5 and o[1] not in ("shutdown", "unload", "slp_down", "wg_down", "slp_up", "wg_up")]
                if more:
                    ops.append(rng.choice(more))
    return P(plan["sim"], prop, rng, k, ops)
