SCHED = "every interleaving of the node's threads and timers, every delay, loss, duplication or reordering of its inputs"

prop("C01", "Companion status tells the truth about the age of the planning data",
     "While vehicle positions keep arriving, the status the local planner reports to the flight controller is never ACTIVE once its newest planning result is older than the 0.5 s critical time-out (plus one status period), and is TERMINATION once that result is older than the 15 s termination time-out, apart from a start-up grace of 5 s. It is never CRITICAL or TERMINATION while planning results and vehicle positions arrive regularly, and a recovered data stream makes it ACTIVE again.",
     ["schedules", "fault_sequences", "histories"], SCHED + "; camera, transform and service outages of any length at any time",
     "The tests call the status function with hand-made ages; they never let the cloud, transform, planning, command and status threads run against each other with outages and recoveries.",
     [AN, LN], [("failsafe state machine on the ages reported by the planner", AN + " AvoidanceNode::checkFailsafe"), ("data age bookkeeping", LN + " threadFunction / cmdLoopCallback"), ("independent 5 Hz status timer", AN + " publishSystemStatus")],
     ["mavros/companion_process/status", "local_pointcloud"], [("last planning result time", "age compared with the time-outs", LN)],
     technique="monitor of status against the age of published planning results")

prop("C02", "Setpoints only in answer to fresh positions and fresh planning data",
     "The local planner sends a position setpoint only in answer to a newly received vehicle position, at most one per position. After the 5 s start-up grace it sends none while its newest planning result is older than the 0.5 s critical time-out, and none after it has been shut down.",
     ["schedules", "fault_sequences"], SCHED + "; position outages and slow positions, camera outages, thread stalls, shutdown",
     "No test runs the command loop; counting setpoints against positions needs the real loop with concurrent callbacks.",
     [LN, AN], [("position flag taken and cleared by the command loop", LN + " cmdLoopCallback / positionCallback"), ("setpoints suppressed unless ACTIVE", LN + " cmdLoopCallback")],
     ["mavros/setpoint_position/local", "mavros/local_position/pose", "local_pointcloud"], technique="counting setpoints against delivered positions and result ages")

prop("C03", "Heartbeat to the flight controller is never starved",
     "From start-up to shutdown the avoidance process publishes its status every 0.2 s (gaps at most 0.35 s), identified as the avoidance component (196) and stamped with the current time, whatever the planner, camera, parameter-service or position-waiting code is doing. The reported state is always one of boot, active, critical or termination.",
     ["schedules", "fault_sequences"], SCHED + "; hanging or slow parameter services, missing positions, missing clouds, long planning iterations",
     "Tests never run the timer threads; starvation only shows when another thread holds a lock or a queue for long.",
     [AN, LN], [("status timer with its own callback queue and spinner", AN + " AvoidanceNode::init"), ("status published without taking planner locks", AN + " publishSystemStatus")],
     ["mavros/companion_process/status"], technique="timing monitor of the status stream under stalls and hanging services")

prop("C04", "Every setpoint and trajectory message is well formed",
     "Every trajectory message sent to the flight controller is a waypoint trajectory with exactly its first point valid, that point carrying a finite yaw and on every axis a finite position or velocity, no acceleration and no infinite value, and the unused points and time horizons carrying NaN; position setpoints are finite with a unit quaternion and agree with the trajectory sent alongside. This holds for every configuration, goal, vehicle state and sensor input, including empty, all-invalid and partly garbage point clouds.",
     ["inputs", "configurations", "histories"], "all goals, poses, clouds (empty, NaN, infinite, huge values), parameter values and reconfigurations at any time",
     "Unit tests check the message conversion with hand-picked numbers; NaNs appear from combinations of geometry, timing and configuration.",
     [LN, WG, CM], [("message construction", CM + " transformToTrajectory / fillUnusedTrajectoryPoint"), ("waypoint computation", WG + " getWaypoints")],
     ["mavros/trajectory/generated", "mavros/setpoint_position/local"], technique="well-formedness monitor on every outgoing message")

prop("C05", "Loss of vehicle position leads to termination, and recovery follows its return",
     "When no vehicle position has arrived for longer than the configured termination time-out, the reported status becomes TERMINATION within a second, even though the command loop is blocked waiting for a position. When positions return, the status returns to ACTIVE and setpoints resume within 3 seconds.",
     ["fault_sequences", "schedules", "configurations"], "position outages of any start and length, repeated outages, positions that never start, changed time-outs; " + SCHED,
     "Tests contain no position outage; the waiting loop nests callback processing inside another callback.",
     [LN, AN], [("waiting loop with time-out", LN + " cmdLoopCallback")], ["mavros/companion_process/status", "mavros/setpoint_position/local"],
     technique="status monitor across injected position outages")

prop("C06", "Commanded waypoint is bounded by the allowed speed and by the goal",
     "The speed-limited waypoint commanded by the local planner never lies farther from the vehicle than the currently allowed cruise speed covers in one second (the flight controller's cruise speed, or the mission speed once one is in force, and no more than the configured sensor range allows for stopping), and never farther than the goal. With smoothing disabled the setpoint sent is exactly that waypoint.",
     ["histories", "inputs", "configurations"], "all flights: approaches, arrivals, goal changes, mode changes, speed changes and camera faults at any time",
     "Unit tests step the generator a few times with fixed inputs; the bound depends on the history of positions, goals and parameters.",
     [WG, LN, PF], [("speed limitation and goal clamping", WG + " adaptSpeed"), ("cruise speed selection", LN + " / " + AN)], ["adapted_waypoint", "mavros/setpoint_position/local"],
     technique="bound monitor against delivered positions, goals and speeds")

prop("C07", "Obstacle memory neither invents, moves, ages wrongly nor loses points",
     "An obstacle point kept from earlier sensor data stays exactly where it was, its age grows with elapsed time, and it was part of the previous obstacle set; it disappears once older than the configured maximum age or out of sensor range, and once a camera looks at its place again. A remembered point that is young, in range and outside every camera's field of view is not forgotten unless another point occupies its direction.",
     ["histories", "inputs", "schedules"], "all flights and rotations, any number of cameras (including fields of view across the rear), obstacle layouts, cloud losses and reconfigurations",
     "Unit tests merge two hand-made clouds once; the guarantee is about histories of merges under motion, field-of-view learning and concurrency.",
     [PF, LP], [("merge of new and remembered points", PF + " processPointcloud"), ("field-of-view test", CM + " pointInsideFOV / updateFOVFromMaxima")], ["local_pointcloud"],
     [("obstacle cloud with ages", "points with intensity = age", LP)], technique="comparison of consecutive published obstacle sets with camera geometry")

prop("C08", "Obstacle distances sent to the flight controller match the obstacle set",
     "Every obstacle-distance message has 60 bins of 6 degrees and the configured range limits; a bin reports a distance only if it lies in a camera's field of view, a bin well inside the view a camera has shown it has is reported, and its value is the distance of the nearest obstacle cell within 1 m of the vehicle's height in that direction, or one centimetre beyond the maximum range if there is none. No message is sent while collision prevention is disabled in the flight controller.",
     ["inputs", "histories", "schedules"], "all obstacle layouts, attitudes, camera set-ups, parameter changes and cloud faults",
     "Unit tests check the cell compression on one synthetic histogram and never the published message against the obstacle set of the same iteration.",
     [LP, PF, LN], [("message construction", LP + " updateObstacleDistanceMsg"), ("histogram compression", PF + " compressHistogramElevation")], ["mavros/obstacle/send", "local_pointcloud"],
     technique="recomputation of every bin from the published obstacle set")

prop("C09", "Search tree and path are well formed",
     "Each planning result's search tree is rooted at the vehicle's position, is connected, has edges of the configured node distance, holds no two nodes closer than 0.2 m, stays within sensor range and expands at most the configured number of nodes. The published path is a contiguous chain of tree nodes from the vehicle outwards whose inner nodes were all expanded.",
     ["inputs", "configurations", "histories"], "all obstacle layouts, goals, velocities, tree parameters and reconfigurations between iterations",
     "Unit tests build the tree for a few fixed goals and one obstacle.",
     [SP, "local_planner/src/nodes/tree_node.cpp", LV], [("tree expansion and back-tracking", SP + " buildLookAheadTree")], ["complete_tree", "tree_path"],
     technique="structural monitor of every published tree and path")

prop("C10", "A path is not followed past its end",
     "The local planner does not keep following a planned path once the vehicle, flying at the cruise speed in force, would have reached the path's end since the path was generated; it then leaves path following within half a second of commands. New planning results restart that time.",
     ["schedules", "fault_sequences", "histories"], SCHED + "; camera outages and empty clouds during path following",
     "Unit tests evaluate the interpolation function for fixed times; expiry in flight depends on the timing of planning, outages and commands.",
     [PF, WG], [("interpolation between nodes with expiry", PF + " interpolateBetweenSetpoints / getSetpointFromPath"), ("state change when no path", WG + " updateState / changeState")], ["current_setpoint", "tree_path"],
     technique="reference path clock compared with the follow-path state")

prop("C11", "Shutdown at any moment is clean and bounded",
     "Shutting the node down or unloading the planner at any moment ends all its threads, timers and callbacks within 12 seconds without crash, deadlock, use of destroyed state or abort (an unload cannot cut short a parameter request the flight controller never answers).",
     ["crash_points", "schedules", "fault_sequences"], "every shutdown instant from construction onwards, in every thread state: waiting for clouds, transforms, positions or services; " + SCHED,
     "The tests never destroy a running node.",
     [LN, AN], [("destructor order: stop timers, spinners and subscriptions, wake and join threads", LN + " ~LocalPlannerNodelet"), ("base node tear-down", AN + " ~AvoidanceNode")], ["process exit"],
     technique="crash-point search with memory checking (AddressSanitizer) and deadlock detection")

prop("C12", "No crash or deadlock, and full recovery after faults",
     "No combination of thread interleaving, sensor fault, message fault, transform outage, service fault or reconfiguration crashes or deadlocks the local planner. Within 9 seconds after the last fault ends it plans again on every camera cycle, reports ACTIVE and sends setpoints.",
     ["schedules", "fault_sequences", "inputs"], SCHED + "; garbage clouds, time-stamp skew, stalls, hanging services, reconfigurations",
     "Tests are single threaded and fault free.",
     [LN, AN, TB], [("condition variables and predicates", LN + " threadFunction / pointCloudTransformThread"), ("lock order", LN)], ["all outputs", "process liveness"],
     technique="progress check after faults stop, deadlock detection, AddressSanitizer")

prop("C13", "Transform buffer answers exactly the interpolated transform, or nothing",
     "Used by any number of threads at once, the transform buffer behaves as if its calls happened one after another: a transform is accepted exactly if it is newer than the newest accepted one of its frames, a lookup succeeds exactly if buffered transforms received within the buffer's length bracket the requested time, and its answer is the linear (rotation: spherical) interpolation between the two neighbours, stamped with the requested time. With a single buffered transform a lookup may be refused.",
     ["schedules", "histories", "inputs"], "every interleaving of inserting and reading threads; stamps in order, repeated, out of order, after gaps longer than the buffer; lookups at, between, before and after the buffered stamps; several frame pairs and buffer lengths",
     "Unit tests insert and look up in one thread with a handful of stamps.",
     [TB], [("ordered insertion and expiry", TB + " insertTransform"), ("search and interpolation", TB + " getTransform / interpolateTransform")], ["returned transforms"],
     [("buffer", "deque of stamped transforms per frame pair", TB)], technique="linearizability check of concurrent histories against a reference model")

prop("C15", "Flight controller parameters are learned and stay current",
     "The parameters kept for the planner are always values the flight controller actually had, never older than the last one it sent by itself. Once the parameter service answers, all polled parameters are known within 7 seconds, and equal the flight controller's values within 33 seconds of any change, even if the notification of the change was lost. A hanging, slow, failing or refusing service never delays a reader of the parameters, and the node ends within 3 seconds of a shutdown of its process.",
     ["schedules", "fault_sequences", "histories"], "service outages, hangs, slow and refused answers of any length; parameter changes at any time, in particular while requests are pending; lost, duplicated and reordered notifications; stalls; shutdown instants",
     "No test runs the polling thread against changing parameters.",
     [AN], [("polling thread", AN + " checkPx4Parameters"), ("notifications", AN + " px4ParamsCallback"), ("readers", AN + " getPX4Parameters")], ["mavros/param/get", "mavros/param/param_value"],
     [("px4_", "kept parameter values", AN)], technique="versioned reference of the flight controller's parameters compared with every read")

prop("C16", "Mission speed is the last ground speed item up to the current one",
     "After every received mission list the mission speed is the value of the last speed change item (ground speed, positive value) at or before the current mission item; without such an item, or without a current item, it keeps its previous value. Nothing else changes it.",
     ["histories", "inputs", "fault_sequences"], "all sequences of mission lists with any items in any order, any current item or none, lost, duplicated and reordered lists, overtaken by newer ones in the queue",
     "One unit test walks through a single list.",
     [AN], [("mission list evaluation", AN + " missionCallback")], ["mavros/mission/waypoints", "mission speed used by the planner"],
     [("mission_item_speed_", "mission speed", AN)], technique="reference model stepped with every list the real node receives")

prop("C14", "Point clouds enter the obstacle set with the pose of their own time stamp",
     "Every new obstacle point is a point reported by a configured camera, moved with the vehicle pose at that cloud's time stamp, whatever the latency, order or loss of clouds and transforms. Every planning iteration uses at least one new cloud of every configured camera, and each camera's obstacles within the sensor range limits appear in the obstacle set in their direction.",
     ["schedules", "histories", "fault_sequences"], SCHED + "; rotating and tilting vehicle, one to three cameras, late and skewed clouds, sparse transforms",
     "Tests cover only the interpolation arithmetic of the transform buffer.",
     [LN, TB], [("transform at cloud time", LN + " pointCloudTransformThread"), ("all cameras transformed before planning", LN + " threadFunction / updatePlanner")], ["local_pointcloud"],
     technique="comparison with ground-truth geometry of the simulated cameras")

prop("C17", "Goal updates reach the planner whole and only goals change the goal",
     "After a goal from the operator or from the flight controller's mission has been received, the next planning iteration that starts works towards exactly that goal, never towards a mixture of two goals, and later goals win. No other message or setting changes the goal.",
     ["schedules", "histories"], "all sequences of goal messages from all sources with all interleavings of receiving and planning threads",
     "Tests set the goal directly on the planner object from one thread.",
     [LN], [("goal hand-over under a lock", LN + " updateGoalCallback / trajectoryCallback / updatePlannerInfo")], ["goal_position"],
     technique="comparison of the planner's goal with the delivered goals")

LAND = "every interleaving, delay, loss, duplication or reordering in and between the two landing nodes"

prop("C18", "Landing descends only onto ground observed to be landable",
     "The landing waypoint generator first climbs or descends to the configured loiter height above the area below it, then holds one fixed position while it observes the span of at least 20 landing grids (which a restart of the landing planner may shorten). It starts the final descent only at a spot (within 0.5 m) around which every cell of a disc of the configured patch size, lying inside the grid, had a smoothed landable score above the configured threshold over those grids. From then on it only descends and does not move sideways. A landing grid that is honest about rough ground therefore never leads to a landing on rough ground.",
     ["histories", "schedules", "inputs"], LAND + "; all sequences of landing grids, grid sizes and parameters, missions, modes and vehicle motions",
     "Unit tests drive single states with constant hand-made grids; the guarantee is about the whole landing history under changing grids and late, lost or restarted inputs.",
     [SG, SW], [("landable scores over the observed grids", SG + " calculateWaypoint / landingAreaVisualization"), ("state machine altitude change, loiter, evaluate, go to land, land", SG + " chooseNextState"), ("input bookkeeping", SW)],
     ["mavros/trajectory/generated", "grid_slp"], technique="reference model of the smoothed scores and of the landing sequence")

prop("C19", "Landing grid equals the statistics of the observed points",
     "Every landing grid is computed from exactly those points of one camera cloud, moved into the local frame at the cloud's time stamp, that lie over the grid centred at the vehicle. Point counts, smoothed means and standard deviations of every cell match those points and the smoothing factor, and a cell is marked landable exactly if it holds enough points, its deviation and the height differences to its neighbours are within the configured limits and enough cells around it qualify. The published grid has the configured size and names the cell the vehicle is over.",
     ["inputs", "histories", "configurations"], "all point clouds (including NaN, infinite and huge values), terrains, attitudes and motions, grid and smoothing parameters, reconfigurations, replayed grids of other sizes",
     "Unit tests check the statistics of one or two hand-made grids with fixed parameters; padding, rounding at cell borders and histories are not covered.",
     [SL, SN], [("points to grid", SL + " processPointcloud / Grid::getIndex"), ("smoothed mean and deviation", SL + " Grid::updateStatistics"), ("landable decision", SL + " isLandingPossible")],
     ["grid_slp", "grid_pointcloud"], technique="independent recomputation of every published grid from the simulated terrain points")

prop("C20", "Landing planner status tells the truth and keeps coming",
     "While it runs, the landing planner publishes its status at least every 0.55 s, as component 196 with the current time, even while no cloud or transform arrives. The status is CRITICAL or TERMINATION once its newest landing grid is older than the configured critical time-out and TERMINATION once older than the termination time-out (within 0.35 s), and neither while grids arrive regularly.",
     ["fault_sequences", "schedules", "configurations"], "camera and transform outages of any start and length, lost clouds, late starts, stalls, changed time-outs",
     "No test runs the node.",
     [SN], [("failsafe ages", SN + " checkFailsafe"), ("status while waiting for clouds", SN + " cmdLoopCallback / publishSystemStatus")], ["mavros/companion_process/status", "grid_slp"],
     technique="status compared with the age of the newest published landing grid")

prop("C21", "Each cloud yields at most one landing grid and grids resume after faults",
     "A received point cloud is used for at most one landing grid, and no landing grid is made from a cloud that was not received. Whatever faults occurred, within a few seconds after the last one ends landing grids are again produced at the camera's rate (limited by 10 Hz) and reach the waypoint generator, also after a restart of the landing planner.",
     ["schedules", "fault_sequences"], LAND + "; spurious wake-ups, clouds faster or slower than the loop, transform outages, stalls, restarts",
     "The hand-over between callback, worker thread and command loop is never run by a test.",
     [SN, SW], [("cloud hand-over with two mutexes and a condition variable", SN + " pointCloudCallback / pointCloudTransformThread / cmdLoopCallback"), ("topics and parameters of the two nodes", SN + " / " + SW)], ["grid_pointcloud", "grid_slp"],
     technique="counting grids per delivered cloud, progress check after faults stop")

prop("C22", "Outside a landing the mission is passed through, and landings restart clean",
     "When neither the current mission item nor the flight mode asks for a landing, the landing waypoint generator commands exactly the flight controller's waypoint and velocity and no part of the landing sequence. A disarm, a mode without landing or a new waypoint ends a landing attempt; the next attempt starts from the beginning with nothing left over. When no landing spot is found it explores around the first loiter position in growing square rings without returning to a point it explored before.",
     ["histories", "schedules"], LAND + "; all sequences of mission items, modes, arming, waypoints with and without positions, velocities and yaw",
     "Unit tests visit each state once with hand-set members; leftovers between attempts only show in histories.",
     [SG, SW], [("reset conditions", SG + " updateSLPState / reset"), ("mission item and mode", SW + " trajectoryCallback / stateCallback"), ("exploration pattern", SG + " exploration states")], ["mavros/trajectory/generated"],
     technique="reference model of the landing context and the exploration rings")

prop("C23", "The landing nodes neither crash nor hang, and shut down at any moment",
     "No message, configuration, interleaving or fault crashes or deadlocks the landing planner or the landing waypoint generator, and each of them ends within 3 seconds of a shutdown request at any moment, without abort, deadlock or use of destroyed state, also while it waits for clouds, grids, positions or transforms.",
     ["crash_points", "schedules", "inputs", "configurations"], "every shutdown instant; garbage clouds, malformed or resized grids, extreme positions, reconfigurations; " + LAND,
     "The tests never run or destroy the nodes.",
     [SN, SW, SL, SG], [("thread, timer and spinner life cycle", SN + " / " + SW + " destructors and startNode"), ("grid indices", SL + " and safe_landing_planner/include/safe_landing_planner/grid.hpp")], ["process exit"],
     technique="crash-point search with memory checking (AddressSanitizer) and deadlock detection")

prop("C28", "A landing over suitable ground is completed once faults stop",
     "When the mission asks for a landing, the ground is suitable everywhere and positions, clouds and transforms are healthy, the landing sequence reaches the final descent within a bounded time, whatever faults happened before.",
     ["fault_sequences", "schedules", "histories"], "camera, transform, position, grid and network faults, stalls and restarts before the healthy period",
     "Liveness of the whole chain camera - landing grid - waypoint generator - vehicle is not covered by any test.",
     [SN, SG, SW], [("landing state machine progress", SG + " chooseNextState"), ("grid production", SN)], ["mavros/trajectory/generated"],
     technique="progress check (bounded liveness) of the closed landing loop after faults stop")

prop("C29", "Every landing setpoint is well formed",
     "Every trajectory message of the landing waypoint generator is a waypoint trajectory whose points 2 to 5 are unused (NaN, invalid) with NaN time horizons and no acceleration, whose values are never infinite, and whose first point is marked valid exactly if it gives a position or a velocity on every axis. There is at most one per iteration.",
     ["inputs", "histories", "configurations"], "all landing histories, grids and clouds (sparse, empty, NaN), missions without positions or yaw, configurations",
     "Unit tests do not look at the outgoing message.",
     [SW, SG, CM], [("message construction and validity", SW + " publishTrajectorySetpoints"), ("setpoints of each state", SG)], ["mavros/trajectory/generated"],
     technique="well-formedness monitor on every outgoing landing message")

GPLN = "every interleaving of the global planner's main, command, planning and status threads, every delay, loss, duplication or reordering of its inputs"

prop("C24", "The global path leads from the vehicle over cells that are free in the map",
     "Every new path of the global planner starts in the cell where the vehicle is about to be, consists of grid cells at most one search step apart, does not climb above the configured maximum altitude (unless the vehicle is above it already) and crosses no cell or segment whose risk, computed from the newest occupancy map, exceeds the configured limit. Simplifying the path only leaves out vertices and never leads it through a segment above that limit. A path that the newest map shows to be blocked is not kept for ever while another way can be planned.",
     ["histories", "inputs", "configurations", "schedules"], "all worlds, maps (changing, empty, partial, unusable), goals, vehicle motions, search parameters, vehicle sizes and node types; " + GPLN,
     "Unit tests of this package only test string helpers; no test plans a path, let alone against a map that changes while the vehicle flies.",
     [GP, "global_planner/include/global_planner/search_tools.h", GC, "global_planner/src/library/node.cpp", GN], [("risk of cells and segments", GP + " getSingleCellRisk / getRisk / isLegal"), ("search", "global_planner/include/global_planner/search_tools.h findSmoothPath / find2DPath"), ("simplification", "global_planner/include/global_planner/search_tools.h simplifyPath"), ("map update", GP + " updateFullOctomap")],
     ["global_temp_path", "smooth_path", "octomap_full"], [("risk_cache_, occupied_", "risks derived from the newest map", GP)], technique="independent recomputation of cell and segment risks from the map in force for every published path")

prop("C25", "Global planner setpoints follow the published path at the allowed speed",
     "Once a position was received, and not before, the global planner sends a finite setpoint in its frame at least every 0.3 s, also while a path is being planned and when the vehicle is exactly at a waypoint. It lies from the current position in the direction of the waypoint of the published path that is next, at most a waypoint closer than 1 m or otherwise at a distance equal to the speed that the configuration and the risk at the vehicle allow. Waypoints are followed in order and none is left out before the vehicle has come near it. The trajectory message sent alongside says the same and is well formed.",
     ["schedules", "histories", "configurations"], "all paths, positions (also exactly on waypoints), vehicle motions, speeds and risk settings; " + GPLN,
     "No test runs the node; the path is replaced by the planning thread while the command and position threads walk along it.",
     [GN, CM], [("setpoint", GN + " publishSetpoint"), ("walking along the path", GN + " positionCallback / setCurrentPath / isCloseToGoal"), ("speed from risk", GN + " publishSetpoint")], ["mavros/setpoint_position/local", "mavros/trajectory/generated", "global_temp_path"],
     technique="every setpoint explained by a delivered position, a waypoint of the published path and the admissible speed range")

prop("C26", "The global planner works towards the newest goal and reaches it",
     "A finite goal from the operator or the flight controller replaces the previous goal and any stops or waypoints belonging to it, is announced, and the paths published from then on end at it (or, while it cannot be reached, at the place where the vehicle stopped). Goals that are not finite or not valid change nothing, a goal that differs in altitude only is a new goal, and the planner never turns back to an older goal. In a healthy world with a free way the vehicle that follows the setpoints reaches the goal within a bounded time after faults stop.",
     ["histories", "schedules", "fault_sequences"], "all sequences of goals from both sources (repeated, invalid, not finite, blocked), maps that appear or change in between; " + GPLN,
     "Nothing tests the goal handling; that the goal is reached is a property of the closed loop of map, planner, node and vehicle.",
     [GN, GP], [("goal reception", GN + " moveBaseSimpleCallback / fcuInputGoalCallback"), ("new goal, next goal, stop", GN + " setNewGoal / popNextGoal / plannerLoopCallback"), ("goal state", GP + " setGoal / stop / getGlobalPath")], ["global_goal", "global_temp_goal", "global_temp_path"],
     technique="goal history compared with announced goals and path ends; progress check of the closed loop after faults stop")

prop("C27", "The global planner neither crashes nor hangs, keeps planning and shuts down",
     "No message, map, position, goal, configuration, interleaving or fault crashes or deadlocks the global planner. It runs a planning cycle about every second whatever its inputs are, and ends within 3 seconds of a shutdown request at any moment, without use of destroyed state.",
     ["crash_points", "schedules", "inputs", "configurations"], "every shutdown instant; garbage clouds, unusable maps, goals and positions below the ground or far above it, clicked points, reconfiguration of every parameter; " + GPLN,
     "The tests never construct, run or destroy the node.",
     [GN, GP, GC, "global_planner/src/nodes/global_planner_node_main.cpp"], [("thread and timer life cycle", GN + " constructor / destructor"), ("shared planner guarded by mutex_", GN), ("termination of the search", GP + " findPath")], ["process exit", "global_temp_path"],
     technique="crash-point search with memory checking (AddressSanitizer), deadlock and busy-hang detection")

prop("C30", "Global planner status tells the truth about the age of the map",
     "The global planner reports its status every 0.2 s (gaps at most 0.45 s) as component 196. After a start-up grace of 5 s it is never ACTIVE while the newest usable map is older than the critical time-out of 0.5 s, is TERMINATION once that map is older than 15 s, and is neither CRITICAL nor TERMINATION while maps arrive regularly. Maps that cannot be used do not count.",
     ["fault_sequences", "schedules"], "map outages of any start and length, late, lost, duplicated, undecodable or empty maps, stalls of any thread; " + GPLN,
     "No test runs the node; the age is kept by the map callback and read by the command loop.",
     [GN, AN], [("age of the map", GN + " octomapFullCallback / cmdLoopCallback"), ("fail-safe states", AN + " checkFailsafe")], ["mavros/companion_process/status", "octomap_full"],
     technique="status compared with the delivery times of the usable maps")

prop("C31", "Camera clouds reach the mapping server exactly once and unchanged",
     "Every point cloud that the global planner receives from a configured camera while the camera's transform is available is forwarded to the mapping server exactly once, with its points, frame and time stamp unchanged, and nothing else is ever forwarded.",
     ["inputs", "fault_sequences", "schedules"], "all clouds (empty, sparse, NaN, infinite), rates, transform outages, lost, duplicated and late clouds, missing camera frame parameter; " + GPLN,
     "No test runs the node.",
     [GN], [("forwarding", GN + " depthCameraCallback"), ("camera subscriptions", GN + " initializeCameraSubscribers")], ["cloud_in", "camera/depth/points"],
     technique="matching of forwarded with delivered clouds, byte by byte")

ALLN = [LN, LP, WG, AN, GN, GP, "safe_landing_planner/src/nodes/safe_landing_planner_node.cpp", "safe_landing_planner/src/nodes/waypoint_generator_node.cpp", "avoidance/src/transform_buffer.cpp"]

prop("C32", "Threads of a node never touch the same data unsynchronised",
     "In every node (local planner, safe landing planner and its waypoint generator, global planner) and in the shared building blocks (transform buffer, parameter and mission handling), two threads never access the same memory at the same time, one of them writing, with nothing ordering the accesses: every value that one callback, timer or worker thread hands to another travels under a lock, through an atomic or through a start or join of the thread.",
     ["schedules", "crash_points", "configurations"], "every interleaving of all threads, timers and callbacks; start-up, reconfiguration at any time, shutdown at any time",
     "The tests are single-threaded; a data race shows only in the order in which threads happen to run, and mostly not even then.",
     ALLN, [("vehicle state, goal and waypoints shared by callbacks, planner thread and setpoint loop", LN), ("goal, path and planner shared by four threads", GN), ("grid and cloud shared by two loops", "safe_landing_planner/src/nodes/safe_landing_planner_node.cpp"), ("companion status and parameters", AN), ("transforms", "avoidance/src/transform_buffer.cpp")],
     ["every subscription, timer and worker thread"], [("members shared by threads", "data written by one thread and read by another", "see anchors")],
     technique="happens-before data race detection over every access of the code under test while the seeded scheduler drives it")

prop("C33", "What a node publishes depends only on what it was given",
     "Everything a node publishes (setpoints, trajectories, statuses, obstacle distances, grids, paths and visualisation) is a function of its inputs, its configuration and time. It never depends on memory that was not written: two executions that differ in nothing but the left-over contents of fresh memory publish the same messages at the same times.",
     ["inputs", "histories", "configurations"], "all inputs and schedules, from the very first message on; any left-over contents of the heap and of thread stacks",
     "A test process finds mostly zeros in fresh memory, so a variable that was never initialised looks initialised.",
     ALLN + [CM, PF], [("state before the first planning result", "local_planner/include/local_planner/avoidance_output.h, " + WG), ("messages filled field by field", CM + " transformToTrajectory"), ("grids, nodes and cells", "safe_landing_planner/include, global_planner/include")],
     ["every published topic"], technique="twin runs: one seed executed twice with different contents of fresh heap and stack memory, publications compared one by one")
