import runpy, os
B = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds3.py'))
PRE = B['PRE']
SEEDS = {}
def S(id, property, file, edits, includes, demo, needs, breaks, **k):
    SEEDS[id] = dict(property=property, edits=[(file, o, n) for o, n in edits], demo=PRE % includes + demo, needs=needs, breaks=breaks, ros=True, **k)
PI = '#include <ros/ros.h>\n#include <Eigen/Core>\n#include <Eigen/Geometry>\n#include <geometry_msgs/Pose.h>\n#include <nav_msgs/Path.h>\n#include <tf2/utils.h>\n#include <trajectory_tracker/path2d.h>'
PF = 'trajectory_tracker/include/trajectory_tracker/path2d.h'
PP = r'''
using namespace trajectory_tracker; typedef Eigen::Vector2d V;
static Path2D mk(std::vector<std::array<double, 3>> v) { Path2D p; for (auto& a : v) p.push_back(Pose2D(V(a[0], a[1]), a[2], NAN)); return p; }
'''
S('C19a', 'C19', PF, [('      if (max_search_range > 0 && distance_path_search > max_search_range)\n        break;\n\n', ''),
  ('        it_nearest = it;\n      }\n      it_prev = it;', '        it_nearest = it;\n      }\n      if (max_search_range > 0 && distance_path_search > max_search_range)\n        break;\n      it_prev = it;')],
  PI, PP + 'int main() { auto p = mk({{0, 0, 0}, {0.6, 0, 0}, {1.2, 0, 0}, {1.8, 0, 0}}); EXPECT(p.findNearest(p.cbegin(), p.cend(), V(1, 0), 1.0) - p.cbegin() == 1); EXPECT(p.findNearest(p.cbegin(), p.cend(), V(1, 0), 0) - p.cbegin() == 2); return 0; }',
  'a target nearest to the segment that leaves the search range', 'a segment out of the range is found', sources=[])
S('C19b', 'C19', PF, [('    trajectory_tracker::Pose2D in_place_turn_end;\n', '    trajectory_tracker::Pose2D in_place_turn_end;\n    Eigen::Vector2d pos_prev(0, 0);\n'),
  ('        push_back(next);\n        continue;', '        push_back(next);\n        pos_prev = next.pos_;\n        continue;'),
  ('      if ((back().pos_ - next.pos_).squaredNorm() >= std::pow(in_place_turn_eps, 2))', '      const bool moved = (pos_prev - next.pos_).squaredNorm() >= std::pow(in_place_turn_eps, 2);\n      pos_prev = next.pos_;\n      if (moved)')],
  PI, PP + r'''int main() { nav_msgs::Path m; m.poses.resize(30); for (int i = 0; i < 30; ++i) { m.poses[i].pose.position.x = 0.06 * i; m.poses[i].pose.orientation.w = 1; } Path2D p; p.fromMsg(m, 0.1); EXPECT(p.size() > 10); EXPECT(std::abs(p.length() - 0.06 * 28) < 1e-3 || p.length() > 1.6); return 0; }''',
  'a path of steps each shorter than the tolerance', 'the path collapses into a turn on the spot', sources=[])
S('C19c', 'C19', PF, [('          rel.pos_.x() * sin_v);', '          sin_v);')],
  PI, PP + 'int main() { auto p = mk({{0, 0, 0}, {-std::sin(0.5), 1 - std::cos(0.5), -0.5}}); EXPECT(std::abs(p.getCurvature(p.cbegin(), p.cend(), V(0, 0), 10) - 1) < 1e-3); return 0; }',
  'two poses, the second behind the first', 'the curvature of arcs driven backwards is wrong', sources=[])
S('C19d', 'C19', PF, [('        double ang_diff = std::abs(it_prev->yaw_ - it->yaw_);\n        if (ang_diff > M_PI)\n        {\n          ang_diff = 2 * M_PI - ang_diff;\n        }', '        double ang_diff = it->yaw_ - it_prev->yaw_;\n        if (ang_diff > M_PI)\n        {\n          ang_diff -= 2 * M_PI;\n        }\n        ang_diff = std::abs(ang_diff);')],
  PI, PP + 'int main() { auto p = mk({{0, 0, 3.0}, {0, 0, -3.0}}); EXPECT(std::abs(p.getEstimatedTimeOfArrivals(p.cbegin(), p.cend(), 1, 1)[1] - (2 * M_PI - 6)) < 1e-3); auto q = mk({{0, 0, -3.0}, {0, 0, 3.0}}); EXPECT(std::abs(q.getEstimatedTimeOfArrivals(q.cbegin(), q.cend(), 1, 1)[1] - (2 * M_PI - 6)) < 1e-3); return 0; }',
  'a turn to the left across the heading of pi', 'the turn seems to take almost a full circle', sources=[])

TF = 'trajectory_tracker/src/trajectory_tracker.cpp'
TI = '#include <tf2/utils.h>\n#define main sx_main\n#include <trajectory_tracker/src/trajectory_tracker.cpp>\n#undef main'
TP = r'''
using trajectory_tracker::TrackerNode; using trajectory_tracker::TrajectoryTrackerConfig; typedef trajectory_tracker_msgs::TrajectoryTrackerStatus St;
static geometry_msgs::Pose pose(double x, double y, double yaw) { geometry_msgs::Pose p; p.position.x = x; p.position.y = y; p.orientation.z = std::sin(yaw / 2); p.orientation.w = std::cos(yaw / 2); return p; }
struct Node { std::unique_ptr<TrackerNode> n; int64_t t = 1000000000; double v, w; TrajectoryTrackerConfig c;
 Node() { sxros::params<bool>()["use_odom"] = true; n.reset(new TrackerNode); n->cbParameter(c, 0); sxros::setTf(sxros::makeTf("map", "odom", 0, 0, 0, tf2::Quaternion(0, 0, 0, 1))); }
 void path(std::vector<std::array<double, 3>> ps) { nav_msgs::Path::Ptr m(new nav_msgs::Path); m->header.frame_id = "map"; m->poses.resize(ps.size()); for (size_t i = 0; i < ps.size(); ++i) m->poses[i].pose = pose(ps[i][0], ps[i][1], ps[i][2]); n->cbPath<nav_msgs::Path>(m); }
 int step(double x, double y, double yaw) { t += 100000000; ros::Time::clock() = t; nav_msgs::Odometry::Ptr o(new nav_msgs::Odometry); o->header.frame_id = "odom"; o->child_frame_id = "base_link"; o->header.stamp.ns = t; o->pose.pose = pose(x, y, yaw); n->cbOdometry(o);
  if (sxros::sent<St>().empty()) return -1; v = sxros::sent<geometry_msgs::Twist>().back().msg.linear.x; w = sxros::sent<geometry_msgs::Twist>().back().msg.angular.z; return sxros::sent<St>().back().msg.status; } };
static std::vector<std::array<double, 3>> line(int n, double s = 0.5) { std::vector<std::array<double, 3>> p; for (int i = 0; i < n; ++i) p.push_back({i * s, 0, 0}); return p; }
'''
S('C20a', 'C20', TF, [('  switch (tracking_result.status)\n  {\n    case trajectory_tracker_msgs::TrajectoryTrackerStatus::NO_PATH:\n    case trajectory_tracker_msgs::TrajectoryTrackerStatus::FAR_FROM_PATH:\n    {\n      v_lim_.clear();\n      w_lim_.clear();',
  '  switch (tracking_result.status)\n  {\n    case trajectory_tracker_msgs::TrajectoryTrackerStatus::NO_PATH:\n      v_lim_.clear();\n      w_lim_.clear();\n      // fallthrough\n    case trajectory_tracker_msgs::TrajectoryTrackerStatus::FAR_FROM_PATH:\n    {')],
  TI, TP + 'int main() { Node s; s.step(0, 0, 0); s.path(line(7)); for (int k = 0; k < 5; ++k) s.step(0.1 * k, 0, 0); EXPECT(s.v > 0.2); s.step(1, 5, 0); EXPECT(s.v == 0); s.step(1, 0, 0); EXPECT(s.v <= s.c.max_acc * 0.1 + 1e-5); return 0; }',
  'a robot that was far from the path and is near it again', 'the robot jumps to the speed it had before', sources=[])
S('C20b', 'C20', TF, [('  path_step_done_ = 0;\n  path_.fromMsg(*msg, epsilon_);', '  const size_t prev_size = path_.size();\n  path_.fromMsg(*msg, epsilon_);\n  if (path_.size() != prev_size)\n    path_step_done_ = 0;')],
  TI, TP + 'int main() { Node s; s.step(0, 0, 0); s.path(line(7)); for (int k = 0; k < 29; ++k) s.step(0.1 * k, 0, 0); s.path({{3, 0, 0}, {3.5, 0, 0}, {4, 0, 0.7}, {4, 0.5, 1.57}, {4, 1, 1.57}, {4, 1.5, 1.57}, {4, 2, 1.57}}); for (int k = 0; k < 3; ++k) s.step(2.9, 0, 0); EXPECT(std::abs(sxros::sent<St>().back().msg.distance_remains - 3.1) < 0.6); return 0; }',
  'a new path with as many poses as the one followed so far', 'the new path is followed from the middle on', sources=[])
S('C20c', 'C20', TF, [('      const tf2::Vector3 translation(odom->twist.twist.linear.x * predict_dt, 0, 0);', '      const tf2::Vector3 translation(std::max(0.0, odom->twist.twist.linear.x) * predict_dt, 0, 0);')],
  TI, TP + r"""int main() { Node s; s.step(0, 0, M_PI); auto p = line(5); for (auto& a : p) a[2] = M_PI; s.path(p); for (int k = 0; k < 18; ++k) s.step(0.1 * k, 0, M_PI);
 s.t += 100000000; ros::Time::clock() = s.t + 100000000; nav_msgs::Odometry::Ptr o(new nav_msgs::Odometry); o->header.frame_id = "odom"; o->child_frame_id = "base_link"; o->header.stamp.ns = s.t; o->pose.pose = pose(2 - s.c.goal_tolerance_dist + 0.01, 0, M_PI); o->twist.twist.linear.x = -0.3; s.n->cbOdometry(o);
 EXPECT(sxros::sent<St>().back().msg.status == St::GOAL); return 0; }""",
  'odometry with a delay while driving backwards', 'the goal is reported at another place', sources=[])
S('C20d', 'C20', TF, [('        if (limit_vel_by_avel_ && std::abs(wref) > vel_[1])', '        if (limit_vel_by_avel_ && wref > vel_[1])')],
  TI, TP + r'''int main() { for (int sg = -1; sg <= 1; sg += 2) { Node s; s.c.limit_vel_by_avel = true; s.c.max_angvel = 0.5; s.n->cbParameter(s.c, 0); s.step(0, 0, 0); std::vector<std::array<double, 3>> p; for (int i = 0; i < 12; ++i) p.push_back({0.5 * std::sin(0.2 * i), sg * 0.5 * (1 - std::cos(0.2 * i)), sg * 0.2 * i}); s.path(p);
 for (int k = 0; k < 12; ++k) s.step(0.5 * std::sin(0.05 * k), sg * 0.5 * (1 - std::cos(0.05 * k)), sg * 0.05 * k); EXPECT(s.v < 0.3); EXPECT(s.v > 0.1); } return 0; }''',
  'the option to limit the speed in curves, and a curve to the right', 'the robot drives right-hand curves faster than it can turn', sources=[])
S('C20e', 'C20', TF, [('        w_lim_.increment(dt * (-dist_diff * k_[0] - angle_diff * k_ang - wvel_diff * k_[2]), vel_[1], acc_[1], dt);', '        w_lim_.increment(dt * (-dist_diff * k_[0] * std::copysign(1.0, tracking_result.signed_local_distance) - angle_diff * k_ang - wvel_diff * k_[2]), vel_[1], acc_[1], dt);'),
  ('        const double dist_diff = tracking_result.distance_from_target;', '        const double dist_diff = -tracking_result.distance_from_target;')],
  TI, TP + r'''int main() { Node s; s.step(0, 0, 0); s.path(line(7)); s.step(1.3, 0.3, 0); EXPECT(s.w < 0); Node b; b.step(0, 0, M_PI); auto p = line(7); for (auto& a : p) a[2] = M_PI; b.path(p); double w0; b.step(1.3, 0.3, M_PI); EXPECT(b.v < 0); EXPECT(b.w < 0); return 0; }''',
  'a path driven backwards', 'driving backwards the robot turns away from the path', sources=[])
