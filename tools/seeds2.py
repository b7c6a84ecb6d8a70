
ROS=r'''#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <limits>
#include <list>
#include <map>
#include <vector>
#include <deque>
#include <memory>
#include <set>
#include <queue>
#include <sstream>
#include <iostream>
#include <cassert>
#include <cstring>
#include <functional>
#include <algorithm>
#include <unordered_map>
#include <boost/chrono.hpp>
#include <sxros/misc.h>
#define private public
#define protected public
#define main node_main
#include <%s>
#undef main
#undef private
#undef protected
#define EXPECT(c) do { if (!(c)) { std::printf("failed: %%s\n", #c); std::exit(1); } } while (0)
'''
SEEDS={}
def S(id, property, file, edits, demo, needs, breaks, **k): SEEDS[id]=dict(property=property, edits=[(file, o, n) for o, n in edits], demo=ROS % file+demo, needs=needs, breaks=breaks, ros=True, **k)
J='joystick_interrupt/src/joystick_interrupt.cpp'
S('C13a','C13',J,[('(std::abs(value2) > std::abs(value)) ? value2 : value;','(std::abs(value2) > value) ? value2 : value;')],
"""
int main() { auto& I = sxros::params<int>(); I["interrupt_button"] = 0; I["linear_axis"] = 0; I["linear_axis2"] = 1; JoystickInterrupt n; sensor_msgs::Joy::Ptr j(new sensor_msgs::Joy); j->axes = {-1.0f, 0.25f}; j->buttons = {1}; n.cbJoy(j); auto& o = sxros::sent<geometry_msgs::Twist>(); EXPECT(o.size() == 1 && o[0].msg.linear.x < -0.4); return 0; }
""",'a main stick pushed backwards and a second stick slightly off centre','the second stick overrides the first although it is pushed less')
S('C13b','C13',J,[('    last_input_twist_ = *msg;\n    std_msgs::Bool status;','    std_msgs::Bool status;'),('      pub_twist_.publish(last_input_twist_);\n      status.data = true;','      last_input_twist_ = *msg;\n      pub_twist_.publish(last_input_twist_);\n      status.data = true;')],
"""
int main() { auto& I = sxros::params<int>(); I["interrupt_button"] = 0; JoystickInterrupt n; sensor_msgs::Joy::Ptr j(new sensor_msgs::Joy); j->axes = {0, 0}; j->buttons = {1};
geometry_msgs::Twist::Ptr a(new geometry_msgs::Twist), b(new geometry_msgs::Twist); a->linear.x = 0.5; n.cbTwist(a); n.cbJoy(j); n.cbTwist(b); j->buttons = {0}; auto& o = sxros::sent<geometry_msgs::Twist>(); o.clear(); n.cbJoy(j); EXPECT(o.size() == 1 && o[0].msg.linear.x == 0); return 0; }
""",'an input command received while the joystick is in control, then the button released','releasing the button replays a command from before the override')
L='safety_limiter/src/safety_limiter.cpp'
MK="""
using safety_limiter::SafetyLimiterNode;
static std::unique_ptr<SafetyLimiterNode> make() { XmlRpc::XmlRpcValue f; const double p[4][2] = {{0.2, 0.25}, {0.2, -0.25}, {-0.3, -0.25}, {-0.3, 0.25}}; for (int i = 0; i < 4; ++i) { f[i][0] = XmlRpc::XmlRpcValue(p[i][0]); f[i][1] = XmlRpc::XmlRpcValue(p[i][1]); } sxros::params<XmlRpc::XmlRpcValue>()["footprint"] = f; sxros::extraKeys()["footprint"] = true; sxros::setTf(sxros::makeTf("odom", "base_link", 0, 0, 0, tf2::Quaternion(0, 0, 0, 1)));
 std::unique_ptr<SafetyLimiterNode> n(new SafetyLimiterNode); safety_limiter::SafetyLimiterConfig c; c.freq = 10; c.lin_vel = 0.5; c.lin_acc = 1.0; c.ang_vel = 0.8; c.ang_acc = 1.6; c.dt = 0.1; c.d_margin = 0.1; c.yaw_margin = 0.1; c.d_escape = c.yaw_escape = 0; c.z_range_min = -0.5; c.z_range_max = 0.5; c.max_linear_vel = 1.0; c.max_angular_vel = 1.5; c.cloud_timeout = 0.8; c.disable_timeout = 0.1; c.hold = 0.3; n->cbParameter(c, 0); return n; }
static sensor_msgs::PointCloud2::Ptr cloud(std::vector<std::array<float, 3>> ps) { sensor_msgs::PointCloud2::Ptr m(new sensor_msgs::PointCloud2); m->header.frame_id = "base_link"; m->header.stamp = ros::Time::now(); sensor_msgs::PointCloud2Modifier d(*m); d.setPointCloud2FieldsByString(1, "xyz"); d.resize(ps.size()); sensor_msgs::PointCloud2Iterator<float> x(*m, "x"), y(*m, "y"), z(*m, "z"); for (auto& p : ps) { *x = p[0]; *y = p[1]; *z = p[2]; ++x; ++y; ++z; } return m; }
static geometry_msgs::Twist::Ptr tw(double v, double w) { geometry_msgs::Twist::Ptr t(new geometry_msgs::Twist); t->linear.x = v; t->angular.z = w; return t; }
static geometry_msgs::Twist last() { return sxros::sent<geometry_msgs::Twist>().back().msg; }
"""
S('C14a','C14',L,[('      const float dist = std::hypot(v[0], v[1]);','      const float dist = std::max(std::abs(v[0]), std::abs(v[1]));')],
MK+"""
int main() { auto n = make(); n->cbTwist(tw(0, -0.8)); n->cbCloud(cloud({{-0.27f, 0.26f, 0}})); n->cbPredictTimer(ros::TimerEvent()); n->cbTwist(tw(0, -0.8)); EXPECT(last().angular.z > -0.79); return 0; }
""",'turning with an obstacle only the corners of the footprint reach','obstacles beyond the longest side of the footprint are not seen')
S('C14b','C14',L,[('      cloud_accum_.reset(new pcl::PointCloud<pcl::PointXYZ>);\n      has_cloud_ = false;\n      r_lim_ = 0;','      cloud_clear_ = true;\n      has_cloud_ = !cloud_accum_->empty();\n      r_lim_ = 0;')],
MK+"""
int main() { auto n = make(); n->cbTwist(tw(0.5, 0)); n->cbCloud(cloud({{-5.0f, 0, 0}})); n->cbPredictTimer(ros::TimerEvent()); n->cbTwist(tw(0.5, 0)); EXPECT(last().linear.x == 0.5); ros::Time::clock() += 2000000000; n->cbPredictTimer(ros::TimerEvent()); n->cbTwist(tw(0.5, 0)); n->cbTwist(tw(0.5, 0)); EXPECT(last().linear.x == 0); return 0; }
""",'obstacle data stops arriving, and the second command after that','the robot moves again without obstacle data')
