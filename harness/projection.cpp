// Projection of a frame onto a surface
#include "pre.h"
#include <sxros/misc.h>
#include <tf2/utils.h>
#define private public
#define protected public
#define main sx_main
#include <track_odometry/src/tf_projection.cpp>
#include <track_odometry/src/tf_projection_node.cpp>
#undef main
#undef private
#undef protected
#include "sx.h"
static double ab(double a) { return a < 0 ? -a : a; }
static bool near(double a, double b) { return ab(a - b) < 1e-4; }
static tf2::Quaternion rpy(double r, double p, double y)
{
  tf2::Quaternion q;
  q.setRPY(r, p, y);
  return q;
}
static bool same(const geometry_msgs::Quaternion& r, const tf2::Quaternion& q)
{
  return near(ab(r.x * q.x() + r.y * q.y() + r.z * q.z() + r.w * q.w()), 1);
}
extern "C" void h_project()
{
  const int posture = sx_param("posture", 0), align = sx_param("align", 0), flat = sx_param("flat", 0), old = sx_param("old", 0), fix = sx_param("static", 0);
  const double rolls[] = {0, 0.3, 0, -0.4}, pitches[] = {0, 0, 0.4, 0.6}, yaws[] = {0, 1.2, -2.5, 3};
  const int k = sx_param("k", 1), l = sx_param("l", 0);
  auto& p = sxros::params<std::string>();
  p[old ? "base_link_frame" : "source_frame"] = "src";
  p[old ? "projection_frame" : "projection_surface_frame"] = "surf";
  p[old ? "target_frame" : "parent_frame"] = "par";
  p[old ? "frame" : "projected_frame"] = "out";
  sxros::params<double>()["tf_tolerance"] = 0.5;
  sxros::params<bool>()["flat"] = flat;
  sxros::params<bool>()["project_posture"] = posture;
  sxros::params<bool>()["align_all_posture_to_source"] = align;
  TfProjectionNode n;
  const tf2::Quaternion q = rpy(rolls[k], pitches[k], yaws[k]), qs = rpy(rolls[l], pitches[3 - l], yaws[3 - l]);
  double c[3] = {1, 2, 3};
  const int free = sx_param("free", 0);
  c[free] = sx_f64("c", -20, 20);
  ros::Time stamp;
  stamp.ns = fix ? 0 : 7000000000LL;
  sxros::setTf(sxros::makeTf("surf", "src", c[0], c[1], c[2], q, stamp));
  const tf2::Vector3 os(0.5, -4, 1.5);
  sxros::setTf(sxros::makeTf("par", "surf", os.x(), os.y(), os.z(), qs, stamp));
  n.process();
  auto& sent = sxros::sent<geometry_msgs::TransformStamped>();
  sx_check(sent.size() == 1, "one transform");
  const geometry_msgs::TransformStamped& r = sent.back().msg;
  sx_check(r.header.frame_id == "par" && r.child_frame_id == "out", "the frames");
  sx_check(r.header.stamp.ns == (fix ? 0 : 7500000000LL), "the time, with the tolerance");
  const tf2::Transform surf(qs, os);
  const tf2::Vector3 in(r.transform.translation.x, r.transform.translation.y, r.transform.translation.z);
  const tf2::Vector3 on = surf.inverse() * in;
  sx_check(near(on.z(), 0), "the frame is on the surface");
  if (!posture || !align)
    sx_check(near(on.x(), c[0]) & near(on.y(), c[1]), "at the foot of the source");
  const double yaw = tf2::getYaw(q);
  const tf2::Quaternion want = posture ? qs * tf2::Quaternion(tf2::Vector3(0, 0, 1), yaw) : qs * q;
  if (!flat)
    sx_check(same(r.transform.rotation, want), posture ? "upright on the surface, with the heading of the source" : "with the attitude of the source");
  else
    sx_check(near(r.transform.rotation.x, 0) & near(r.transform.rotation.y, 0) & near(std::sin(tf2::getYaw(want) - tf2::getYaw(r.transform.rotation)), 0) & (std::cos(tf2::getYaw(want) - tf2::getYaw(r.transform.rotation)) > 0), "flat, with the heading it had");
  sx_reach("projected");
}
extern "C" void h_noproject()
{
  TfProjectionNode n;
  sxros::tfs().clear();
  const double x = sx_f64("x", -20, 20);
  if (sx_param("half", 0))
  {
    sxros::params<std::string>()["parent_frame"] = "par";
    n.parent_frame_ = "par";
    sxros::setTf(sxros::makeTf("map", "base_link", x, 0, 0, rpy(0, 0, 1)));
  }
  n.process();
  sx_check(sxros::sent<geometry_msgs::TransformStamped>().empty(), "nothing is published without the transforms");
  sx_reach("nothing");
}
