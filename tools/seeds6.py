import runpy, os
B = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds3.py'))
PRE = B['PRE']
SEEDS = {}
def S(id, property, file, edits, includes, demo, needs, breaks, **k):
    SEEDS[id] = dict(property=property, edits=[(file, o, n) for o, n in edits], demo=PRE % includes + demo, needs=needs, breaks=breaks, ros=True, **k)
OF = 'track_odometry/src/track_odometry.cpp'
OI = '#include <tf2/utils.h>\n#define main sx_main\n#include <track_odometry/src/track_odometry.cpp>\n#undef main'
OP = r'''
struct Node { std::unique_ptr<TrackOdometryNode> n; int64_t t = 1000000000; Node() { n.reset(new TrackOdometryNode); n->base_link_id_ = "base_link"; link(); }
 void link() { sxros::setTf(sxros::makeTf("base_link", "imu_link", 0, 0, 0, tf2::Quaternion(0, 0, 0, 1))); }
 void step(double x, double y, double oyaw, double iyaw) { t += 20000000; nav_msgs::Odometry::Ptr o(new nav_msgs::Odometry); sensor_msgs::Imu::Ptr i(new sensor_msgs::Imu); o->header.frame_id = "odom"; o->child_frame_id = "base_link"; o->header.stamp.ns = i->header.stamp.ns = t; i->header.frame_id = "imu_link";
  o->pose.pose.position.x = x; o->pose.pose.position.y = y; o->pose.pose.orientation.z = std::sin(oyaw / 2); o->pose.pose.orientation.w = std::cos(oyaw / 2); i->orientation.z = std::sin(iyaw / 2); i->orientation.w = std::cos(iyaw / 2); n->cbOdomImu(o, i); }
 size_t count() { return sxros::sent<nav_msgs::Odometry>().size(); } geometry_msgs::Point pos() { return sxros::sent<nav_msgs::Odometry>().back().msg.pose.pose.position; } };
'''
S('C21a', 'C21', OF, [('        ROS_ERROR_THROTTLE(1.0, "IMU data not received");\n', '        ROS_ERROR_THROTTLE(1.0, "IMU data not received");\n        odomraw_prev_ = *msg;\n')],
  OI, OP + 'int main() { Node s; s.step(0, 0, 0, 0); s.step(1, 0, 0, 0); sxros::tfs().clear(); s.step(2, 0, 0, 0); s.step(3, 0, 0, 0); s.link(); s.step(4, 0, 0, 0); EXPECT(std::abs(s.pos().x - 4) < 1e-6); return 0; }',
  'an IMU that is away for a while', 'the way driven meanwhile is lost', sources=[])
S('C21b', 'C21', OF, [('          toEigen(odom.pose.pose.orientation) * toEigen(msg->pose.pose.orientation).inverse() * diff;', '          toEigen(odom.pose.pose.orientation) * toEigen(odomraw_prev_.pose.pose.orientation).inverse() * diff;')],
  OI, OP + 'int main() { Node s; s.step(0, 0, 0, 0); s.step(std::cos(0.4), std::sin(0.4), 0.4, 0.4); EXPECT(std::abs(s.pos().x - std::cos(0.4)) < 1e-6); EXPECT(std::abs(s.pos().y - std::sin(0.4)) < 1e-6); return 0; }',
  'a robot that turns while it drives', 'the way bends although IMU and odometry agree', sources=[])
S('C21c', 'C21', OF, [('      ROS_ERROR("%s", e.what());\n      has_imu_ = false;\n', '      ROS_ERROR("%s", e.what());\n')],
  OI, OP + 'int main() { Node s; s.step(0, 0, 0, 0); s.step(1, 0, 0, 0); sxros::tfs().clear(); size_t n = s.count(); s.step(2, 0, 0, 0); EXPECT(s.count() == n); return 0; }',
  'a transform of the IMU that is lost after it was there', 'odometry with an old heading is published', sources=[])
JF = 'track_odometry/src/tf_projection_node.cpp'
JI = '#include <tf2/utils.h>\n#define main sx_main\n#include <track_odometry/src/tf_projection.cpp>\n#include <track_odometry/src/tf_projection_node.cpp>\n#undef main'
S('C21d', 'C21', JF, [('        const float yaw = tf2::getYaw(trans.getRotation());', '        const float yaw = tf2::getYaw((trans_target * trans).getRotation());')],
  JI, r'''static tf2::Quaternion yaw(double a) { return tf2::Quaternion(0, 0, std::sin(a / 2), std::cos(a / 2)); }
int main() { sxros::params<bool>()["project_posture"] = true; sxros::params<std::string>()["parent_frame"] = "par"; TfProjectionNode n; sxros::setTf(sxros::makeTf("map", "base_link", 1, 2, 3, yaw(0.3))); sxros::setTf(sxros::makeTf("par", "map", 0, 0, 0, yaw(0.5))); n.process();
 EXPECT(std::abs(tf2::getYaw(sxros::sent<geometry_msgs::TransformStamped>().back().msg.transform.rotation) - 0.8) < 1e-4); return 0; }''',
  'a surface that is turned against the parent frame', 'the heading is turned twice', sources=[])
RF = 'planner_cspace/src/start_pose_predictor.cpp'
RI = '#include <ros/ros.h>\n#include <list>\n#include <omp.h>\n#include <costmap_cspace_msgs/MapMetaData3D.h>\n#include <nav_msgs/Path.h>\n#include <tf2/utils.h>\n#include <planner_cspace/planner_3d/start_pose_predictor.h>\n#include <planner_cspace/planner_3d/grid_metric_converter.h>'
RP = r'''
using namespace planner_cspace; using namespace planner_cspace::planner_3d; typedef GridAstar<3, 2>::Vec V;
struct Env { GridAstar<3, 2>::Gridmap<char, 0x40> cm; costmap_cspace_msgs::MapMetaData3D i; StartPosePredictor p; V r; nav_msgs::Path path;
 Env(double T) { i.width = 8; i.height = 8; i.angle = 4; i.linear_resolution = 0.5; i.angular_resolution = M_PI / 2; i.origin.orientation.w = 1; cm.reset(V(8, 8, 4)); cm.clear(0); StartPosePredictor::Config c; c.prediction_sec_ = T; c.switch_back_prediction_sec_ = 3; c.dist_stop_ = 0.6; c.lin_vel_ = 1; c.ang_vel_ = 1.57; p.setConfig(c); }
 static geometry_msgs::Pose pose(double x, double y, double a) { geometry_msgs::Pose p; p.position.x = x; p.position.y = y; p.orientation.z = std::sin(a / 2); p.orientation.w = std::cos(a / 2); return p; }
 void add(double x, double y, double a) { path.poses.resize(path.poses.size() + 1); path.poses.back().pose = pose(x, y, a); }
 bool run(double x, double y, double a) { return p.process(pose(x, y, a), cm, i, path, r); } };
'''
RS = ['planner_cspace/src/start_pose_predictor.cpp']
S('C22a', 'C22', RF, [('  if (nearest_pos == 1)\n  {', '  if (nearest_pos == 0)\n  {')],
  RI, RP + 'int main() { Env s(0.7); for (int k = 0; k < 6; ++k) s.add(0.75 + 0.5 * k, 0.75, 0); EXPECT(s.run(0.5, 0.75, 0)); EXPECT(s.p.getPreservedPath().poses.size() == 1); EXPECT(std::abs(s.p.getPreservedPath().poses[0].pose.position.x - 0.75) < 1e-6); return 0; }',
  'a robot behind the beginning of the path', 'the first pose of the path is dropped', sources=RS)
S('C22b', 'C22', RF, [('      if ((config_.prediction_sec_ < local_goal_eta) &&\n          (local_goal_eta < config_.switch_back_prediction_sec_))', '      if (local_goal_eta < config_.switch_back_prediction_sec_)')],
  RI, RP + 'int main() { Env s(0.7); for (int k = 0; k < 4; ++k) s.add(0.75 + 0.5 * k, 0.75, 0); for (int k = 1; k < 4; ++k) s.add(2.25 - 0.5 * k, 0.75 + 0.5 * k, 0); EXPECT(s.run(1.7, 0.75, 0)); EXPECT(s.r[1] > 1); return 0; }',
  'a robot that is almost where the path turns over', 'the plan starts where the robot has already been', sources=RS)
S('C22c', 'C22', RF, [('    grid_metric_converter::metric2Grid(map_info_, grid[0], grid[1], grid[2], it->pos_.x(), it->pos_.y(), it->yaw_);\n    grid.cycleUnsigned(map_info_.angle);', '    grid_metric_converter::metric2Grid(map_info_, grid[0], grid[1], grid[2], it->pos_.x(), it->pos_.y(), it->yaw_);\n    if (grid[2] < 0)\n      grid[2] = 0;')],
  RI, RP + 'int main() { Env s(1.2); for (int k = 0; k < 6; ++k) s.add(0.75, 3.75 - 0.5 * k, -M_PI / 2); EXPECT(s.run(0.75, 3.7, -M_PI / 2)); s.cm[V(1, 6, 3)] = 100; EXPECT(!s.run(0.75, 3.7, -M_PI / 2)); return 0; }',
  'a path with a negative heading', 'obstacles on the part that is kept are missed', sources=RS)
S('C22d', 'C22', 'planner_cspace/include/planner_cspace/planner_3d/grid_metric_converter.h', [('  yaw = std::lround(gyaw / map_info.angular_resolution);', '  yaw = static_cast<int>(gyaw / map_info.angular_resolution + 0.5);')],
  RI, RP + 'int main() { Env s(1); int x, y, a; grid_metric_converter::metric2Grid(s.i, x, y, a, 0.1f, 0.1f, -1.5f); EXPECT(a == -1); return 0; }',
  'a negative heading', 'the heading is rounded to the wrong cell', sources=RS)
