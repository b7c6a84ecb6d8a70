// Stand-ins for the few pieces of PCL and sensor_msgs helpers in use. Voxel grids keep every point (no thinning) unless the
// harness replaces sxros::voxel(); the nearest-neighbour search is a scan over all points.
#ifndef SXROS_PCL_H
#define SXROS_PCL_H
#include <sxros/tf.h>
#include <cstring>
#include <Eigen/Core>
#include <Eigen/Geometry>
namespace pcl
{
struct PCLHeader { uint32_t seq = 0; uint64_t stamp = 0; std::string frame_id; };
struct PointXYZ { float x = 0, y = 0, z = 0; PointXYZ() {} PointXYZ(float a, float b, float c) : x(a), y(b), z(c) {} };
template <class P>
struct PointCloud
{
  typedef boost::shared_ptr<PointCloud<P>> Ptr;
  typedef boost::shared_ptr<const PointCloud<P>> ConstPtr;
  typedef std::vector<P> VectorType;
  PCLHeader header; uint32_t width = 0, height = 1; bool is_dense = true; std::vector<P> points;
  void push_back(const P& p) { points.push_back(p); width = points.size(); height = 1; }
  typename std::vector<P>::iterator begin() { return points.begin(); }
  typename std::vector<P>::iterator end() { return points.end(); }
  typename std::vector<P>::const_iterator begin() const { return points.begin(); }
  typename std::vector<P>::const_iterator end() const { return points.end(); }
  template <class I> typename std::vector<P>::iterator erase(I a, I b) { auto r = points.erase(a, b); width = points.size(); return r; }
  size_t size() const { return points.size(); }
  bool empty() const { return points.empty(); }
  void clear() { points.clear(); width = height = 0; }
  void reserve(size_t n) { points.reserve(n); }
  P& operator[](size_t i) { return points[i]; }
  const P& operator[](size_t i) const { return points[i]; }
  PointCloud& operator+=(const PointCloud& o) { points.insert(points.end(), o.points.begin(), o.points.end()); width = points.size(); height = 1; is_dense = is_dense && o.is_dense; return *this; }
  PointCloud operator+(const PointCloud& o) const { PointCloud r(*this); r += o; return r; }
};
template <class P>
struct VoxelGrid
{
  typename PointCloud<P>::ConstPtr in;
  void setInputCloud(const typename PointCloud<P>::ConstPtr& c) { in = c; }
  void setLeafSize(float, float, float) {}
  void filter(PointCloud<P>& out) { const PointCloud<P> r = *in; out = r; }
};
template <class P>
struct KdTreeFLANN
{
  typename PointCloud<P>::ConstPtr in;
  void setInputCloud(const typename PointCloud<P>::ConstPtr& c) { in = c; }
  int radiusSearch(const P& p, double radius, std::vector<int>& idx, std::vector<float>& d2, unsigned max = 0) const
  {
    idx.clear(); d2.clear();
    for (size_t i = 0; i < in->points.size(); ++i)
    {
      const auto& q = in->points[i];
      const float dx = q.x - p.x, dy = q.y - p.y, dz = q.z - p.z;
      const float s = dx * dx + dy * dy + dz * dz;
      if (s <= static_cast<float>(radius * radius))
      {
        idx.push_back(i); d2.push_back(s);
        if (max && idx.size() >= max) break;
      }
    }
    return idx.size();
  }
  int nearestKSearch(const P& p, int k, std::vector<int>& idx, std::vector<float>& d2) const
  {
    idx.clear(); d2.clear();
    if (in->points.empty()) return 0;
    size_t b = 0; float bs = std::numeric_limits<float>::max();
    for (size_t i = 0; i < in->points.size(); ++i)
    {
      const auto& q = in->points[i];
      const float dx = q.x - p.x, dy = q.y - p.y, dz = q.z - p.z;
      const float s = dx * dx + dy * dy + dz * dz;
      if (s < bs) { bs = s; b = i; }
    }
    idx.push_back(b); d2.push_back(bs);
    return 1;
  }
};
template <class P>
inline P transformPoint(const P& p, const Eigen::Affine3f& t)
{
  P r(p);
  const Eigen::Vector3f v = t * Eigen::Vector3f(p.x, p.y, p.z);
  r.x = v[0]; r.y = v[1]; r.z = v[2];
  return r;
}
template <class P>
inline void transformPointCloud(const PointCloud<P>& in, PointCloud<P>& out, const Eigen::Affine3f& t)
{
  PointCloud<P> r = in;
  for (auto& p : r.points) p = transformPoint(p, t);
  out = r;
}
template <class P>
inline void transformPointCloud(const PointCloud<P>& in, PointCloud<P>& out, const Eigen::Matrix4f& t)
{
  transformPointCloud(in, out, Eigen::Affine3f(t));
}
}  // namespace pcl
namespace sensor_msgs
{
inline int fieldOffset(const PointCloud2& c, const std::string& n)
{
  for (const auto& f : c.fields) if (f.name == n) return f.offset;
  throw std::runtime_error("Field " + n + " does not exist");
}
struct PointCloud2Modifier
{
  PointCloud2& c;
  explicit PointCloud2Modifier(PointCloud2& m) : c(m) {}
  void setPointCloud2FieldsByString(int, const char*, const char* = nullptr)
  {
    static const char* names[] = {"x", "y", "z"};
    c.fields.clear();
    for (int i = 0; i < 3; ++i)
    {
      PointField f; f.name = names[i]; f.offset = 4 * i; f.datatype = PointField::FLOAT32; f.count = 1;
      c.fields.push_back(f);
    }
    c.point_step = 16; resize(0);
  }
  template <class... A> void setPointCloud2Fields(int, A...) { setPointCloud2FieldsByString(1, "xyz"); }
  void resize(size_t n) { c.height = 1; c.width = n; c.row_step = n * c.point_step; c.data.resize(c.row_step); }
  size_t size() const { return c.point_step ? c.data.size() / c.point_step : 0; }
  void clear() { resize(0); }
};
template <class T, class V, class C>
struct Pc2Iter
{
  V* p = nullptr; V* e = nullptr; size_t step = 0;
  Pc2Iter() {}
  Pc2Iter(C& c, const std::string& n) { const int o = fieldOffset(c, n); step = c.point_step; p = c.data.data() + o; e = c.data.data() + c.data.size() + o; }
  T& operator*() const { return *reinterpret_cast<T*>(p); }
  T& operator[](size_t i) const { return reinterpret_cast<T*>(p)[i]; }
  Pc2Iter& operator++() { p += step; return *this; }
  Pc2Iter& operator+=(int i) { p += i * step; return *this; }
  Pc2Iter operator+(int i) const { Pc2Iter r(*this); r += i; return r; }
  Pc2Iter end() const { Pc2Iter r(*this); r.p = e; return r; }
  bool operator==(const Pc2Iter& o) const { return p == o.p; }
  bool operator!=(const Pc2Iter& o) const { return p != o.p; }
};
template <class T> struct PointCloud2Iterator : Pc2Iter<T, uint8_t, PointCloud2> { using Pc2Iter<T, uint8_t, PointCloud2>::Pc2Iter; };
template <class T> struct PointCloud2ConstIterator : Pc2Iter<const T, const uint8_t, const PointCloud2> { using Pc2Iter<const T, const uint8_t, const PointCloud2>::Pc2Iter; };
inline bool convertPointCloudToPointCloud2(const PointCloud& in, PointCloud2& out)
{
  out.header = in.header;
  PointCloud2Modifier m(out);
  m.setPointCloud2FieldsByString(1, "xyz");
  m.resize(in.points.size());
  PointCloud2Iterator<float> x(out, "x"), y(out, "y"), z(out, "z");
  for (const auto& p : in.points) { *x = p.x; *y = p.y; *z = p.z; ++x; ++y; ++z; }
  return true;
}
inline bool convertPointCloud2ToPointCloud(const PointCloud2& in, PointCloud& out)
{
  out.header = in.header; out.points.clear();
  PointCloud2ConstIterator<float> x(in, "x"), y(in, "y"), z(in, "z");
  for (; x != x.end(); ++x, ++y, ++z) { geometry_msgs::Point32 p; p.x = *x; p.y = *y; p.z = *z; out.points.push_back(p); }
  return true;
}
}  // namespace sensor_msgs
namespace pcl_conversions
{
inline void fromPCL(const uint64_t& s, ros::Time& t) { t.ns = static_cast<int64_t>(s) * 1000; }
inline ros::Time fromPCL(const uint64_t& s) { ros::Time t; fromPCL(s, t); return t; }
inline void toPCL(const ros::Time& t, uint64_t& s) { s = t.ns / 1000; }
inline uint64_t toPCL(const ros::Time& t) { return t.ns / 1000; }
inline void fromPCL(const pcl::PCLHeader& h, std_msgs::Header& o) { o.seq = h.seq; o.frame_id = h.frame_id; fromPCL(h.stamp, o.stamp); }
inline std_msgs::Header fromPCL(const pcl::PCLHeader& h) { std_msgs::Header o; fromPCL(h, o); return o; }
inline pcl::PCLHeader toPCL(const std_msgs::Header& h) { pcl::PCLHeader o; o.seq = h.seq; o.frame_id = h.frame_id; o.stamp = toPCL(h.stamp); return o; }
}
namespace pcl
{
template <class P>
inline void fromROSMsg(const sensor_msgs::PointCloud2& m, PointCloud<P>& c)
{
  c.header = pcl_conversions::toPCL(m.header);
  c.points.clear();
  sensor_msgs::PointCloud2ConstIterator<float> x(m, "x"), y(m, "y"), z(m, "z");
  for (; x != x.end(); ++x, ++y, ++z) c.push_back(P(*x, *y, *z));
  c.width = m.width; c.height = m.height;
}
template <class P>
inline void toROSMsg(const PointCloud<P>& c, sensor_msgs::PointCloud2& m)
{
  sensor_msgs::PointCloud2Modifier d(m);
  d.setPointCloud2FieldsByString(1, "xyz");
  d.resize(c.points.size());
  m.header = pcl_conversions::fromPCL(c.header);
  sensor_msgs::PointCloud2Iterator<float> x(m, "x"), y(m, "y"), z(m, "z");
  for (const auto& p : c.points) { *x = p.x; *y = p.y; *z = p.z; ++x; ++y; ++z; }
}
}
namespace tf2
{
inline void doTransform(const sensor_msgs::PointCloud2& in, sensor_msgs::PointCloud2& out, const geometry_msgs::TransformStamped& t)
{
  const sensor_msgs::PointCloud2 src = in;
  out = src; out.header = t.header;
  Eigen::Transform<float, 3, Eigen::Isometry> m = Eigen::Translation3f(t.transform.translation.x, t.transform.translation.y, t.transform.translation.z) *
      Eigen::Quaternion<float>(t.transform.rotation.w, t.transform.rotation.x, t.transform.rotation.y, t.transform.rotation.z);
  sensor_msgs::PointCloud2ConstIterator<float> xi(src, "x"), yi(src, "y"), zi(src, "z");
  sensor_msgs::PointCloud2Iterator<float> xo(out, "x"), yo(out, "y"), zo(out, "z");
  for (; xi != xi.end(); ++xi, ++yi, ++zi, ++xo, ++yo, ++zo)
  {
    const Eigen::Vector3f p = m * Eigen::Vector3f(*xi, *yi, *zi);
    *xo = p.x(); *yo = p.y(); *zo = p.z();
  }
}
}
#endif
