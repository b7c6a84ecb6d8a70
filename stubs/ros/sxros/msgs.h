// The messages the repository uses, as the plain structs their generated headers provide
#ifndef SXROS_MSGS_H
#define SXROS_MSGS_H
#include <sxros/core.h>
#define SXMSG(N)                                              \
  typedef boost::shared_ptr<N> Ptr;                           \
  typedef boost::shared_ptr<N const> ConstPtr;
#define SXMSG_T(N)                                            \
  typedef boost::shared_ptr<N> N##Ptr;                        \
  typedef boost::shared_ptr<N const> N##ConstPtr;
namespace std_msgs
{
struct Header { uint32_t seq = 0; ros::Time stamp; std::string frame_id; SXMSG(Header) };
struct Empty { SXMSG(Empty) };
struct Bool { uint8_t data = 0; SXMSG(Bool) };
struct Int32 { int32_t data = 0; SXMSG(Int32) };
struct Float32 { float data = 0; SXMSG(Float32) };
struct Float64 { double data = 0; SXMSG(Float64) };
struct String { std::string data; SXMSG(String) };
SXMSG_T(Empty) SXMSG_T(Bool) SXMSG_T(Int32) SXMSG_T(Float32)
}
namespace std_srvs
{
struct EmptyRequest {};
struct EmptyResponse {};
struct Empty { typedef EmptyRequest Request; typedef EmptyResponse Response; Request request; Response response; };
}
namespace geometry_msgs
{
struct Point { double x = 0, y = 0, z = 0; SXMSG(Point) };
struct Point32 { float x = 0, y = 0, z = 0; SXMSG(Point32) };
struct Vector3 { double x = 0, y = 0, z = 0; SXMSG(Vector3) };
struct Quaternion { double x = 0, y = 0, z = 0, w = 0; SXMSG(Quaternion) };
struct Pose { Point position; Quaternion orientation; SXMSG(Pose) };
struct PoseStamped { std_msgs::Header header; Pose pose; SXMSG(PoseStamped) };
struct PoseArray { std_msgs::Header header; std::vector<Pose> poses; SXMSG(PoseArray) };
struct PoseWithCovariance { Pose pose; boost::array<double, 36> covariance; PoseWithCovariance() { covariance.assign(0); } SXMSG(PoseWithCovariance) };
struct PoseWithCovarianceStamped { std_msgs::Header header; PoseWithCovariance pose; SXMSG(PoseWithCovarianceStamped) };
struct Twist { Vector3 linear, angular; SXMSG(Twist) };
struct TwistStamped { std_msgs::Header header; Twist twist; SXMSG(TwistStamped) };
struct TwistWithCovariance { Twist twist; boost::array<double, 36> covariance; TwistWithCovariance() { covariance.assign(0); } SXMSG(TwistWithCovariance) };
struct Transform { Vector3 translation; Quaternion rotation; SXMSG(Transform) };
struct TransformStamped { std_msgs::Header header; std::string child_frame_id; Transform transform; SXMSG(TransformStamped) };
struct Vector3Stamped { std_msgs::Header header; Vector3 vector; SXMSG(Vector3Stamped) };
struct PointStamped { std_msgs::Header header; Point point; SXMSG(PointStamped) };
struct QuaternionStamped { std_msgs::Header header; Quaternion quaternion; SXMSG(QuaternionStamped) };
struct Polygon { std::vector<Point32> points; SXMSG(Polygon) };
struct PolygonStamped { std_msgs::Header header; Polygon polygon; SXMSG(PolygonStamped) };
SXMSG_T(PoseStamped) SXMSG_T(Twist) SXMSG_T(PoseArray) SXMSG_T(PoseWithCovarianceStamped) SXMSG_T(PolygonStamped)
}
namespace nav_msgs
{
struct MapMetaData { ros::Time map_load_time; float resolution = 0; uint32_t width = 0, height = 0; geometry_msgs::Pose origin; SXMSG(MapMetaData) };
struct OccupancyGrid { std_msgs::Header header; MapMetaData info; std::vector<int8_t> data; SXMSG(OccupancyGrid) };
struct Path { std_msgs::Header header; std::vector<geometry_msgs::PoseStamped> poses; SXMSG(Path) };
struct Odometry { std_msgs::Header header; std::string child_frame_id; geometry_msgs::PoseWithCovariance pose; geometry_msgs::TwistWithCovariance twist; SXMSG(Odometry) };
struct GetPlanRequest { geometry_msgs::PoseStamped start, goal; float tolerance = 0; };
struct GetPlanResponse { Path plan; };
struct GetPlan { typedef GetPlanRequest Request; typedef GetPlanResponse Response; Request request; Response response; };
struct GetMapRequest {};
struct GetMapResponse { OccupancyGrid map; };
struct GetMap { typedef GetMapRequest Request; typedef GetMapResponse Response; Request request; Response response; };
SXMSG_T(OccupancyGrid) SXMSG_T(Path) SXMSG_T(Odometry)
}
namespace sensor_msgs
{
struct PointField
{
  enum { INT8 = 1, UINT8 = 2, INT16 = 3, UINT16 = 4, INT32 = 5, UINT32 = 6, FLOAT32 = 7, FLOAT64 = 8 };
  std::string name; uint32_t offset = 0; uint8_t datatype = 0; uint32_t count = 0; SXMSG(PointField)
};
struct PointCloud2
{
  std_msgs::Header header; uint32_t height = 0, width = 0; std::vector<PointField> fields; uint8_t is_bigendian = 0;
  uint32_t point_step = 0, row_step = 0; std::vector<uint8_t> data; uint8_t is_dense = 0; SXMSG(PointCloud2)
};
struct ChannelFloat32 { std::string name; std::vector<float> values; };
struct PointCloud { std_msgs::Header header; std::vector<geometry_msgs::Point32> points; std::vector<ChannelFloat32> channels; SXMSG(PointCloud) };
struct LaserScan
{
  std_msgs::Header header; float angle_min = 0, angle_max = 0, angle_increment = 0, time_increment = 0, scan_time = 0, range_min = 0, range_max = 0;
  std::vector<float> ranges, intensities; SXMSG(LaserScan)
};
struct Imu
{
  std_msgs::Header header; geometry_msgs::Quaternion orientation; boost::array<double, 9> orientation_covariance;
  geometry_msgs::Vector3 angular_velocity; boost::array<double, 9> angular_velocity_covariance;
  geometry_msgs::Vector3 linear_acceleration; boost::array<double, 9> linear_acceleration_covariance;
  Imu() { orientation_covariance.assign(0); angular_velocity_covariance.assign(0); linear_acceleration_covariance.assign(0); } SXMSG(Imu)
};
struct Joy { std_msgs::Header header; std::vector<float> axes; std::vector<int32_t> buttons; SXMSG(Joy) };
struct JointState { std_msgs::Header header; std::vector<std::string> name; std::vector<double> position, velocity, effort; SXMSG(JointState) };
SXMSG_T(PointCloud) SXMSG_T(PointCloud2) SXMSG_T(LaserScan) SXMSG_T(Imu) SXMSG_T(Joy) SXMSG_T(JointState)
}
namespace trajectory_msgs
{
struct JointTrajectoryPoint { std::vector<double> positions, velocities, accelerations, effort; ros::Duration time_from_start; SXMSG(JointTrajectoryPoint) };
struct JointTrajectory { std_msgs::Header header; std::vector<std::string> joint_names; std::vector<JointTrajectoryPoint> points; SXMSG(JointTrajectory) };
SXMSG_T(JointTrajectory)
}
namespace costmap_cspace_msgs
{
struct MapMetaData3D
{
  ros::Time map_load_time; float linear_resolution = 0, angular_resolution = 0; uint32_t width = 0, height = 0, angle = 0;
  geometry_msgs::Pose origin; SXMSG(MapMetaData3D)
};
struct CSpace3D { std_msgs::Header header; MapMetaData3D info; std::vector<int8_t> data; SXMSG(CSpace3D) };
struct CSpace3DUpdate { std_msgs::Header header; uint32_t x = 0, y = 0, yaw = 0, width = 0, height = 0, angle = 0; std::vector<int8_t> data; SXMSG(CSpace3DUpdate) };
SXMSG_T(MapMetaData3D) SXMSG_T(CSpace3D) SXMSG_T(CSpace3DUpdate)
}
namespace planner_cspace_msgs
{
struct PlannerStatus
{
  enum : uint8_t { DONE = 0, DOING = 1, RECOVERING = 2, FINISHING = 3 };
  enum : uint8_t { GOING_WELL = 0, IN_ROCK = 1, PATH_NOT_FOUND = 2, DATA_MISSING = 3, INTERNAL_ERROR = 4 };
  std_msgs::Header header; uint8_t status = 0, error = 0; SXMSG(PlannerStatus)
};
struct MoveWithToleranceGoal
{
  geometry_msgs::PoseStamped target_pose; uint8_t continuous_movement_mode = 0;
  double goal_tolerance_lin = 0, goal_tolerance_ang = 0, goal_tolerance_ang_finish = 0; SXMSG(MoveWithToleranceGoal)
};
struct MoveWithToleranceFeedback { geometry_msgs::PoseStamped base_position; SXMSG(MoveWithToleranceFeedback) };
struct MoveWithToleranceResult { SXMSG(MoveWithToleranceResult) };
struct MoveWithToleranceAction { typedef MoveWithToleranceGoal Goal; typedef MoveWithToleranceFeedback Feedback; typedef MoveWithToleranceResult Result; };
SXMSG_T(PlannerStatus) SXMSG_T(MoveWithToleranceGoal)
}
namespace move_base_msgs
{
struct MoveBaseGoal { geometry_msgs::PoseStamped target_pose; SXMSG(MoveBaseGoal) };
struct MoveBaseFeedback { geometry_msgs::PoseStamped base_position; SXMSG(MoveBaseFeedback) };
struct MoveBaseResult { SXMSG(MoveBaseResult) };
struct MoveBaseAction { typedef MoveBaseGoal Goal; typedef MoveBaseFeedback Feedback; typedef MoveBaseResult Result; };
SXMSG_T(MoveBaseGoal)
}
namespace trajectory_tracker_msgs
{
struct PoseStampedWithVelocity { std_msgs::Header header; geometry_msgs::Pose pose; geometry_msgs::Vector3 linear_velocity; SXMSG(PoseStampedWithVelocity) };
struct PathWithVelocity { std_msgs::Header header; std::vector<PoseStampedWithVelocity> poses; SXMSG(PathWithVelocity) };
struct TrajectoryTrackerStatus
{
  enum : uint8_t { NO_PATH = 0, FOLLOWING = 1, GOAL = 2, FAR_FROM_PATH = 3 };
  std_msgs::Header header; double distance_remains = 0, angle_remains = 0; uint8_t status = 0; std_msgs::Header path_header; SXMSG(TrajectoryTrackerStatus)
};
struct TrajectoryServerStatus { std_msgs::Header header; std::string filename; uint32_t id = 0; SXMSG(TrajectoryServerStatus) };
struct ChangePathRequest { std::string filename; uint32_t id = 0; double hz = 0; };
struct ChangePathResponse { uint8_t success = 0; };
struct ChangePath { typedef ChangePathRequest Request; typedef ChangePathResponse Response; Request request; Response response; };
SXMSG_T(PathWithVelocity) SXMSG_T(TrajectoryTrackerStatus)
inline PathWithVelocity toPathWithVelocity(const nav_msgs::Path& s, const double vel)
{
  PathWithVelocity d;
  d.header = s.header;
  for (const auto& p : s.poses)
  {
    PoseStampedWithVelocity q;
    q.header = p.header; q.pose = p.pose; q.linear_velocity.x = vel;
    d.poses.push_back(q);
  }
  return d;
}
}
namespace safety_limiter_msgs
{
struct SafetyLimiterStatus
{
  std_msgs::Header header; double limit_ratio = 0; uint8_t is_cloud_available = 0, has_watchdog_timed_out = 0; ros::Time stuck_started_since; SXMSG(SafetyLimiterStatus)
};
SXMSG_T(SafetyLimiterStatus)
}
namespace map_organizer_msgs
{
struct OccupancyGridArray { std::vector<nav_msgs::OccupancyGrid> maps; SXMSG(OccupancyGridArray) };
SXMSG_T(OccupancyGridArray)
}
namespace neonavigation_metrics_msgs
{
struct Metric { std::string name, unit; double value = 0; std::vector<std::string> tags; SXMSG(Metric) };
struct Metrics { std_msgs::Header header; std::vector<Metric> data; SXMSG(Metrics) };
inline Metric metric(const std::string& n, double v, const std::string& u, const std::vector<std::string>& t = std::vector<std::string>())
{
  Metric m; m.name = n; m.value = v; m.unit = u; m.tags = t; return m;
}
SXMSG_T(Metrics)
}
namespace diagnostic_msgs
{
struct KeyValue { std::string key, value; };
struct DiagnosticStatus { enum : int8_t { OK = 0, WARN = 1, ERROR = 2, STALE = 3 }; int8_t level = 0; std::string name, message, hardware_id; std::vector<KeyValue> values; SXMSG(DiagnosticStatus) };
struct DiagnosticArray { std_msgs::Header header; std::vector<DiagnosticStatus> status; SXMSG(DiagnosticArray) };
}
namespace rosgraph_msgs { struct Clock { ros::Time clock; SXMSG(Clock) }; }
namespace sxros
{
// drops the messages sent so far
template <class M> inline void clearSent() { sent<M>().clear(); }
}
#endif
