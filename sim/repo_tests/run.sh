# run the repo's ROS-dependent unit tests against the stubs: run.sh REPO
R=${1:-/repo}; O=/tmp/ut/out; mkdir -p $O
INC="-I/verif/sim/include -I/verif/sim/harness -I/verif/.build/gen -isystem /usr/include/eigen3 -I$R/avoidance/include -I$R/local_planner/include -I$R/safe_landing_planner/include -I$R/global_planner/include"
FL="-std=c++14 -g1 -w -O1 -fsanitize=address -DDISABLE_SIMULATION -DVERIF_SIM"
par() { xargs -P 8 -I{} sh -c '{}'; }
( for t in avoidance/test/test_common avoidance/test/test_transform_buffer local_planner/test/test_local_planner local_planner/test/test_planner_functions local_planner/test/test_star_planner local_planner/test/test_waypoint_generator safe_landing_planner/test/test_grid safe_landing_planner/test/test_safe_landing_planner safe_landing_planner/test/test_waypoint_generator avoidance/src/common avoidance/src/transform_buffer avoidance/src/avoidance_node avoidance/src/histogram local_planner/src/nodes/tree_node local_planner/src/nodes/star_planner local_planner/src/nodes/planner_functions local_planner/src/nodes/local_planner local_planner/src/nodes/waypoint_generator local_planner/src/utils/trajectory_simulator safe_landing_planner/src/nodes/safe_landing_planner safe_landing_planner/src/nodes/waypoint_generator; do
  o=$(echo $t | tr / _); echo "clang++ $FL $INC -c $R/$t.cpp -o $O/$o.o 2>$O/$o.log || head -5 $O/$o.log"; done
echo "clang++ $FL $INC -c /verif/sim/core/core.cpp -o $O/core.o"; echo "clang++ $FL $INC -c /verif/sim/core/simros.cpp -o $O/simros.o"
echo "clang++ $FL $INC -c /tmp/ut/main.cpp -o $O/main.o" ) | par
C="$O/core.o $O/simros.o $O/main.o $O/avoidance_src_common.o $O/avoidance_src_transform_buffer.o $O/avoidance_src_histogram.o $O/avoidance_src_avoidance_node.o"
L="$O/local_planner_src_*.o"; S="$O/safe_landing_planner_src_*.o"
l() { n=$1; shift; clang++ -fsanitize=address -rdynamic "$@" -o $O/$n -lgtest -lpthread -ldl 2>$O/$n.log || { head -20 $O/$n.log; return; }; ( cd $O && timeout 120 ./$n 2>&1 | grep -E "FAILED|PASSED|Failure|rror" | head -20 ); }
for t in $O/avoidance_test_*.o; do echo == $t; l t_$(basename $t .o) $t $C; done
for t in $O/local_planner_test_*.o; do echo == $t; l t_$(basename $t .o) $t $C $L; done
for t in $O/safe_landing_planner_test_*.o; do echo == $t; l t_$(basename $t .o) $t $C $S; done
