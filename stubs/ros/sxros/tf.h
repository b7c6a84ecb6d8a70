// Stand-in for tf2: the same linear algebra (double precision, same formulas), and a transform buffer filled by the harness.
#ifndef SXROS_TF_H
#define SXROS_TF_H
#include <sxros/msgs.h>
typedef double tf2Scalar;
namespace tf2
{
class Quaternion;
class Matrix3x3;
class Vector3
{
public:
  double m_floats[4] = {0, 0, 0, 0};
  Vector3() {}
  Vector3(const double& x, const double& y, const double& z) { m_floats[0] = x; m_floats[1] = y; m_floats[2] = z; m_floats[3] = 0; }
  const double& x() const { return m_floats[0]; }
  const double& y() const { return m_floats[1]; }
  const double& z() const { return m_floats[2]; }
  const double& getX() const { return m_floats[0]; }
  const double& getY() const { return m_floats[1]; }
  const double& getZ() const { return m_floats[2]; }
  void setX(double v) { m_floats[0] = v; }
  void setY(double v) { m_floats[1] = v; }
  void setZ(double v) { m_floats[2] = v; }
  void setValue(double x, double y, double z) { m_floats[0] = x; m_floats[1] = y; m_floats[2] = z; }
  double& operator[](int i) { return m_floats[i]; }
  const double& operator[](int i) const { return m_floats[i]; }
  Vector3& operator+=(const Vector3& v) { for (int i = 0; i < 3; ++i) m_floats[i] += v.m_floats[i]; return *this; }
  Vector3& operator-=(const Vector3& v) { for (int i = 0; i < 3; ++i) m_floats[i] -= v.m_floats[i]; return *this; }
  Vector3& operator*=(double s) { for (int i = 0; i < 3; ++i) m_floats[i] *= s; return *this; }
  Vector3& operator/=(double s) { return *this *= 1.0 / s; }
  double dot(const Vector3& v) const { return m_floats[0] * v.m_floats[0] + m_floats[1] * v.m_floats[1] + m_floats[2] * v.m_floats[2]; }
  Vector3 cross(const Vector3& v) const
  {
    return Vector3(m_floats[1] * v.m_floats[2] - m_floats[2] * v.m_floats[1], m_floats[2] * v.m_floats[0] - m_floats[0] * v.m_floats[2],
                   m_floats[0] * v.m_floats[1] - m_floats[1] * v.m_floats[0]);
  }
  double length2() const { return dot(*this); }
  double length() const { return std::sqrt(length2()); }
  Vector3& normalize() { return *this /= length(); }
  Vector3 normalized() const { Vector3 v(*this); return v.normalize(); }
  double distance(const Vector3& v) const;
  double angle(const Vector3& v) const { return std::acos(dot(v) / std::sqrt(length2() * v.length2())); }
};
inline Vector3 operator+(const Vector3& a, const Vector3& b) { return Vector3(a[0] + b[0], a[1] + b[1], a[2] + b[2]); }
inline Vector3 operator-(const Vector3& a, const Vector3& b) { return Vector3(a[0] - b[0], a[1] - b[1], a[2] - b[2]); }
inline Vector3 operator-(const Vector3& a) { return Vector3(-a[0], -a[1], -a[2]); }
inline Vector3 operator*(const Vector3& a, const double& s) { return Vector3(a[0] * s, a[1] * s, a[2] * s); }
inline Vector3 operator*(const double& s, const Vector3& a) { return a * s; }
inline Vector3 operator/(const Vector3& a, const double& s) { return a * (1.0 / s); }
inline Vector3 operator*(const Vector3& a, const Vector3& b) { return Vector3(a[0] * b[0], a[1] * b[1], a[2] * b[2]); }
inline double Vector3::distance(const Vector3& v) const { return (v - *this).length(); }
class Quaternion
{
public:
  double m_floats[4] = {0, 0, 0, 0};
  Quaternion() {}
  Quaternion(const double& x, const double& y, const double& z, const double& w) { setValue(x, y, z, w); }
  Quaternion(const Vector3& axis, const double& angle) { setRotation(axis, angle); }
  const double& x() const { return m_floats[0]; }
  const double& y() const { return m_floats[1]; }
  const double& z() const { return m_floats[2]; }
  const double& w() const { return m_floats[3]; }
  const double& getX() const { return m_floats[0]; }
  const double& getY() const { return m_floats[1]; }
  const double& getZ() const { return m_floats[2]; }
  const double& getW() const { return m_floats[3]; }
  void setValue(double x, double y, double z, double w) { m_floats[0] = x; m_floats[1] = y; m_floats[2] = z; m_floats[3] = w; }
  void setRotation(const Vector3& axis, const double& angle)
  {
    const double d = axis.length();
    const double s = std::sin(angle * 0.5) / d;
    setValue(axis.x() * s, axis.y() * s, axis.z() * s, std::cos(angle * 0.5));
  }
  void setRPY(const double& roll, const double& pitch, const double& yaw)
  {
    const double hy = yaw * 0.5, hp = pitch * 0.5, hr = roll * 0.5;
    const double cy = std::cos(hy), sy = std::sin(hy), cp = std::cos(hp), sp = std::sin(hp), cr = std::cos(hr), sr = std::sin(hr);
    setValue(sr * cp * cy - cr * sp * sy, cr * sp * cy + sr * cp * sy, cr * cp * sy - sr * sp * cy, cr * cp * cy + sr * sp * sy);
  }
  void setEuler(const double& yaw, const double& pitch, const double& roll)
  {
    const double hy = yaw * 0.5, hp = pitch * 0.5, hr = roll * 0.5;
    const double cy = std::cos(hy), sy = std::sin(hy), cp = std::cos(hp), sp = std::sin(hp), cr = std::cos(hr), sr = std::sin(hr);
    setValue(cr * sp * cy + sr * cp * sy, cr * cp * sy - sr * sp * cy, sr * cp * cy - cr * sp * sy, cr * cp * cy + sr * sp * sy);
  }
  double dot(const Quaternion& q) const { return x() * q.x() + y() * q.y() + z() * q.z() + w() * q.w(); }
  double length2() const { return dot(*this); }
  double length() const { return std::sqrt(length2()); }
  Quaternion& operator*=(double s) { for (int i = 0; i < 4; ++i) m_floats[i] *= s; return *this; }
  Quaternion& operator/=(double s) { return *this *= 1.0 / s; }
  Quaternion& operator*=(const Quaternion& q)
  {
    setValue(m_floats[3] * q.x() + m_floats[0] * q.m_floats[3] + m_floats[1] * q.z() - m_floats[2] * q.y(),
             m_floats[3] * q.y() + m_floats[1] * q.m_floats[3] + m_floats[2] * q.x() - m_floats[0] * q.z(),
             m_floats[3] * q.z() + m_floats[2] * q.m_floats[3] + m_floats[0] * q.y() - m_floats[1] * q.x(),
             m_floats[3] * q.m_floats[3] - m_floats[0] * q.x() - m_floats[1] * q.y() - m_floats[2] * q.z());
    return *this;
  }
  Quaternion& normalize() { return *this /= length(); }
  Quaternion normalized() const { Quaternion q(*this); return q.normalize(); }
  Quaternion inverse() const { return Quaternion(-m_floats[0], -m_floats[1], -m_floats[2], m_floats[3]); }
  double getAngle() const { return 2.0 * std::acos(std::min(1.0, std::max(-1.0, m_floats[3]))); }
  Vector3 getAxis() const
  {
    const double s2 = 1.0 - m_floats[3] * m_floats[3];
    if (s2 < 10.0 * 2.2204460492503131e-16) return Vector3(1, 0, 0);
    const double s = std::sqrt(s2);
    return Vector3(m_floats[0] / s, m_floats[1] / s, m_floats[2] / s);
  }
  static Quaternion getIdentity() { return Quaternion(0, 0, 0, 1); }
};
inline Quaternion operator*(const Quaternion& a, const Quaternion& b) { Quaternion r(a); r *= b; return r; }
inline Quaternion operator*(const Quaternion& q, double s) { Quaternion r(q); r *= s; return r; }
inline Quaternion operator-(const Quaternion& q) { return Quaternion(-q.x(), -q.y(), -q.z(), -q.w()); }
inline Vector3 quatRotate(const Quaternion& r, const Vector3& v)
{
  Quaternion q = r * Quaternion(v.x(), v.y(), v.z(), 0);
  q *= r.inverse();
  return Vector3(q.getX(), q.getY(), q.getZ());
}
class Matrix3x3
{
public:
  Vector3 m_el[3];
  Matrix3x3() {}
  explicit Matrix3x3(const Quaternion& q) { setRotation(q); }
  Matrix3x3(double a, double b, double c, double d, double e, double f, double g, double h, double i)
  {
    m_el[0] = Vector3(a, b, c); m_el[1] = Vector3(d, e, f); m_el[2] = Vector3(g, h, i);
  }
  Vector3& operator[](int i) { return m_el[i]; }
  const Vector3& operator[](int i) const { return m_el[i]; }
  void setIdentity() { *this = Matrix3x3(1, 0, 0, 0, 1, 0, 0, 0, 1); }
  void setRotation(const Quaternion& q)
  {
    const double d = q.length2(), s = 2.0 / d;
    const double xs = q.x() * s, ys = q.y() * s, zs = q.z() * s;
    const double wx = q.w() * xs, wy = q.w() * ys, wz = q.w() * zs;
    const double xx = q.x() * xs, xy = q.x() * ys, xz = q.x() * zs;
    const double yy = q.y() * ys, yz = q.y() * zs, zz = q.z() * zs;
    *this = Matrix3x3(1.0 - (yy + zz), xy - wz, xz + wy, xy + wz, 1.0 - (xx + zz), yz - wx, xz - wy, yz + wx, 1.0 - (xx + yy));
  }
  Matrix3x3 transpose() const
  {
    return Matrix3x3(m_el[0][0], m_el[1][0], m_el[2][0], m_el[0][1], m_el[1][1], m_el[2][1], m_el[0][2], m_el[1][2], m_el[2][2]);
  }
  double tdotx(const Vector3& v) const { return m_el[0].x() * v.x() + m_el[1].x() * v.y() + m_el[2].x() * v.z(); }
  double tdoty(const Vector3& v) const { return m_el[0].y() * v.x() + m_el[1].y() * v.y() + m_el[2].y() * v.z(); }
  double tdotz(const Vector3& v) const { return m_el[0].z() * v.x() + m_el[1].z() * v.y() + m_el[2].z() * v.z(); }
  void getRotation(Quaternion& q) const
  {
    const double trace = m_el[0].x() + m_el[1].y() + m_el[2].z();
    double t[4];
    if (trace > 0.0)
    {
      double s = std::sqrt(trace + 1.0);
      t[3] = s * 0.5;
      s = 0.5 / s;
      t[0] = (m_el[2].y() - m_el[1].z()) * s;
      t[1] = (m_el[0].z() - m_el[2].x()) * s;
      t[2] = (m_el[1].x() - m_el[0].y()) * s;
    }
    else
    {
      const int i = m_el[0].x() < m_el[1].y() ? (m_el[1].y() < m_el[2].z() ? 2 : 1) : (m_el[0].x() < m_el[2].z() ? 2 : 0);
      const int j = (i + 1) % 3, k = (i + 2) % 3;
      double s = std::sqrt(m_el[i][i] - m_el[j][j] - m_el[k][k] + 1.0);
      t[i] = s * 0.5;
      s = 0.5 / s;
      t[3] = (m_el[k][j] - m_el[j][k]) * s;
      t[j] = (m_el[j][i] + m_el[i][j]) * s;
      t[k] = (m_el[k][i] + m_el[i][k]) * s;
    }
    q.setValue(t[0], t[1], t[2], t[3]);
  }
  void getEulerYPR(double& yaw, double& pitch, double& roll) const
  {
    if (std::fabs(m_el[2].x()) >= 1)
    {
      yaw = 0;
      const double delta = std::atan2(m_el[2].y(), m_el[2].z());
      pitch = m_el[2].x() < 0 ? M_PI / 2.0 : -M_PI / 2.0;
      roll = delta;
      return;
    }
    pitch = -std::asin(m_el[2].x());
    roll = std::atan2(m_el[2].y() / std::cos(pitch), m_el[2].z() / std::cos(pitch));
    yaw = std::atan2(m_el[1].x() / std::cos(pitch), m_el[0].x() / std::cos(pitch));
  }
  void getRPY(double& roll, double& pitch, double& yaw) const { getEulerYPR(yaw, pitch, roll); }
};
inline Vector3 operator*(const Matrix3x3& m, const Vector3& v) { return Vector3(m[0].dot(v), m[1].dot(v), m[2].dot(v)); }
inline Matrix3x3 operator*(const Matrix3x3& a, const Matrix3x3& b)
{
  return Matrix3x3(b.tdotx(a[0]), b.tdoty(a[0]), b.tdotz(a[0]), b.tdotx(a[1]), b.tdoty(a[1]), b.tdotz(a[1]), b.tdotx(a[2]), b.tdoty(a[2]), b.tdotz(a[2]));
}
class Transform
{
public:
  Matrix3x3 m_basis;
  Vector3 m_origin;
  Transform() {}
  explicit Transform(const Quaternion& q, const Vector3& c = Vector3(0, 0, 0)) : m_basis(q), m_origin(c) {}
  explicit Transform(const Matrix3x3& b, const Vector3& c = Vector3(0, 0, 0)) : m_basis(b), m_origin(c) {}
  Vector3 operator()(const Vector3& v) const { return Vector3(m_basis[0].dot(v) + m_origin.x(), m_basis[1].dot(v) + m_origin.y(), m_basis[2].dot(v) + m_origin.z()); }
  Vector3 operator*(const Vector3& v) const { return (*this)(v); }
  Quaternion operator*(const Quaternion& q) const { return getRotation() * q; }
  Transform operator*(const Transform& t) const { return Transform(m_basis * t.m_basis, (*this)(t.m_origin)); }
  Transform& operator*=(const Transform& t) { m_origin += m_basis * t.m_origin; m_basis = m_basis * t.m_basis; return *this; }
  Matrix3x3& getBasis() { return m_basis; }
  const Matrix3x3& getBasis() const { return m_basis; }
  Vector3& getOrigin() { return m_origin; }
  const Vector3& getOrigin() const { return m_origin; }
  Quaternion getRotation() const { Quaternion q; m_basis.getRotation(q); return q; }
  void setOrigin(const Vector3& v) { m_origin = v; }
  void setRotation(const Quaternion& q) { m_basis.setRotation(q); }
  void setBasis(const Matrix3x3& b) { m_basis = b; }
  void setIdentity() { m_basis.setIdentity(); m_origin = Vector3(0, 0, 0); }
  static Transform getIdentity() { Transform t; t.setIdentity(); return t; }
  Transform inverse() const { const Matrix3x3 inv = m_basis.transpose(); return Transform(inv, inv * -m_origin); }
};
template <class T>
class Stamped : public T
{
public:
  ros::Time stamp_;
  std::string frame_id_;
  Stamped() {}
  Stamped(const T& t, const ros::Time& s, const std::string& f) : T(t), stamp_(s), frame_id_(f) {}
  void setData(const T& t) { *static_cast<T*>(this) = t; }
};
struct TransformException : std::exception
{
  std::string text_;
  explicit TransformException(const std::string& s) : text_(s) {}
  const char* what() const noexcept override { return text_.c_str(); }
};
typedef TransformException LookupException;
inline Vector3 operator+(const Vector3& a, const Vector3& b);
inline double getYaw(const Quaternion& q)
{
  double yaw;
  const double sqw = q.w() * q.w(), sqx = q.x() * q.x(), sqy = q.y() * q.y(), sqz = q.z() * q.z();
  const double sarg = -2 * (q.x() * q.z() - q.w() * q.y()) / (sqx + sqy + sqz + sqw);
  if (sarg <= -0.99999) yaw = -2 * std::atan2(q.y(), q.x());
  else if (sarg >= 0.99999) yaw = 2 * std::atan2(q.y(), q.x());
  else yaw = std::atan2(2 * (q.x() * q.y() + q.w() * q.z()), sqw + sqx - sqy - sqz);
  return yaw;
}
inline double getYaw(const geometry_msgs::Quaternion& q) { return getYaw(Quaternion(q.x, q.y, q.z, q.w)); }
inline geometry_msgs::Quaternion toMsg(const Quaternion& q) { geometry_msgs::Quaternion m; m.x = q.x(); m.y = q.y(); m.z = q.z(); m.w = q.w(); return m; }
inline geometry_msgs::Vector3 toMsg(const Vector3& v) { geometry_msgs::Vector3 m; m.x = v.x(); m.y = v.y(); m.z = v.z(); return m; }
inline geometry_msgs::Point& toMsg(const Vector3& v, geometry_msgs::Point& m) { m.x = v.x(); m.y = v.y(); m.z = v.z(); return m; }
inline geometry_msgs::Vector3& toMsg(const Vector3& v, geometry_msgs::Vector3& m) { m.x = v.x(); m.y = v.y(); m.z = v.z(); return m; }
inline geometry_msgs::Transform toMsg(const Transform& t) { geometry_msgs::Transform m; m.translation = toMsg(t.getOrigin()); m.rotation = toMsg(t.getRotation()); return m; }
inline geometry_msgs::TransformStamped toMsg(const Stamped<Transform>& t)
{
  geometry_msgs::TransformStamped m; m.header.stamp = t.stamp_; m.header.frame_id = t.frame_id_; m.transform = toMsg(static_cast<const Transform&>(t)); return m;
}
inline geometry_msgs::Pose& toMsg(const Transform& t, geometry_msgs::Pose& m) { toMsg(t.getOrigin(), m.position); m.orientation = toMsg(t.getRotation()); return m; }
inline geometry_msgs::PoseStamped toMsg(const Stamped<Transform>& t, geometry_msgs::PoseStamped& m)
{
  m.header.stamp = t.stamp_; m.header.frame_id = t.frame_id_; toMsg(static_cast<const Transform&>(t), m.pose); return m;
}
inline void fromMsg(const geometry_msgs::Vector3& m, Vector3& v) { v = Vector3(m.x, m.y, m.z); }
inline void fromMsg(const geometry_msgs::Point& m, Vector3& v) { v = Vector3(m.x, m.y, m.z); }
inline void fromMsg(const geometry_msgs::Quaternion& m, Quaternion& q) { q = Quaternion(m.x, m.y, m.z, m.w); }
inline void fromMsg(const geometry_msgs::Transform& m, Transform& t)
{
  t.setOrigin(Vector3(m.translation.x, m.translation.y, m.translation.z));
  t.setRotation(Quaternion(m.rotation.x, m.rotation.y, m.rotation.z, m.rotation.w));
}
inline void fromMsg(const geometry_msgs::Pose& m, Transform& t)
{
  t.setOrigin(Vector3(m.position.x, m.position.y, m.position.z));
  t.setRotation(Quaternion(m.orientation.x, m.orientation.y, m.orientation.z, m.orientation.w));
}
inline void fromMsg(const geometry_msgs::PoseStamped& m, Stamped<Transform>& t)
{
  t.stamp_ = m.header.stamp; t.frame_id_ = m.header.frame_id;
  Transform u; fromMsg(m.pose, u); t.setData(u);
}
inline void fromMsg(const geometry_msgs::TransformStamped& m, Stamped<Transform>& t)
{
  t.stamp_ = m.header.stamp; t.frame_id_ = m.header.frame_id;
  Transform u; fromMsg(m.transform, u); t.setData(u);
}
inline void fromMsg(const geometry_msgs::QuaternionStamped& m, Stamped<Quaternion>& q)
{
  q.stamp_ = m.header.stamp; q.frame_id_ = m.header.frame_id;
  Quaternion u; fromMsg(m.quaternion, u); q.setData(u);
}
inline geometry_msgs::QuaternionStamped toMsg(const Stamped<Quaternion>& q)
{
  geometry_msgs::QuaternionStamped m; m.header.stamp = q.stamp_; m.header.frame_id = q.frame_id_; m.quaternion = toMsg(static_cast<const Quaternion&>(q)); return m;
}
inline Transform asTransform(const geometry_msgs::TransformStamped& t) { Transform u; fromMsg(t.transform, u); return u; }
inline void doTransform(const geometry_msgs::Point& in, geometry_msgs::Point& out, const geometry_msgs::TransformStamped& t)
{
  toMsg(asTransform(t) * Vector3(in.x, in.y, in.z), out);
}
inline void doTransform(const geometry_msgs::Vector3& in, geometry_msgs::Vector3& out, const geometry_msgs::TransformStamped& t)
{
  out = toMsg(asTransform(t).getBasis() * Vector3(in.x, in.y, in.z));
}
inline void doTransform(const geometry_msgs::PointStamped& in, geometry_msgs::PointStamped& out, const geometry_msgs::TransformStamped& t)
{
  doTransform(in.point, out.point, t); out.header.stamp = t.header.stamp; out.header.frame_id = t.header.frame_id;
}
inline void doTransform(const geometry_msgs::Vector3Stamped& in, geometry_msgs::Vector3Stamped& out, const geometry_msgs::TransformStamped& t)
{
  doTransform(in.vector, out.vector, t); out.header.stamp = t.header.stamp; out.header.frame_id = t.header.frame_id;
}
inline void doTransform(const geometry_msgs::Quaternion& in, geometry_msgs::Quaternion& out, const geometry_msgs::TransformStamped& t)
{
  Quaternion r; fromMsg(t.transform.rotation, r);
  Quaternion q; fromMsg(in, q);
  q = r * q; q.normalize();
  out = toMsg(q);
}
inline void doTransform(const geometry_msgs::QuaternionStamped& in, geometry_msgs::QuaternionStamped& out, const geometry_msgs::TransformStamped& t)
{
  doTransform(in.quaternion, out.quaternion, t); out.header.stamp = t.header.stamp; out.header.frame_id = t.header.frame_id;
}
inline void doTransform(const geometry_msgs::Pose& in, geometry_msgs::Pose& out, const geometry_msgs::TransformStamped& t)
{
  Transform p; fromMsg(in, p);
  toMsg(asTransform(t) * p, out);
}
inline void doTransform(const geometry_msgs::PoseStamped& in, geometry_msgs::PoseStamped& out, const geometry_msgs::TransformStamped& t)
{
  doTransform(in.pose, out.pose, t); out.header.stamp = t.header.stamp; out.header.frame_id = t.header.frame_id;
}
inline void doTransform(const geometry_msgs::TransformStamped& in, geometry_msgs::TransformStamped& out, const geometry_msgs::TransformStamped& t)
{
  out.transform = toMsg(asTransform(t) * asTransform(in)); out.header.stamp = t.header.stamp; out.header.frame_id = t.header.frame_id;
}
template <class A, class B> inline void convert(const A& a, B& b) { fromMsg(a, b); }
inline void convert(const Quaternion& a, geometry_msgs::Quaternion& b) { b = toMsg(a); }
}  // namespace tf2
namespace sxros
{
// Transforms known to the buffer: target <- source. Lookups of anything else throw. A time other than the latest (0) is
// looked up the same way unless the harness sets tfAt(), which may refuse.
struct Tf
{
  std::string target, source;
  geometry_msgs::TransformStamped t;
};
inline std::vector<Tf>& tfs() { static std::vector<Tf> v; return v; }
inline std::function<bool(const std::string&, const std::string&, const ros::Time&)>& tfAt()
{
  static std::function<bool(const std::string&, const std::string&, const ros::Time&)> f;
  return f;
}
inline geometry_msgs::TransformStamped makeTf(const std::string& target, const std::string& source, double x, double y, double z, const tf2::Quaternion& q, const ros::Time& stamp = ros::Time())
{
  geometry_msgs::TransformStamped t;
  t.header.frame_id = target; t.child_frame_id = source; t.header.stamp = stamp;
  t.transform.translation.x = x; t.transform.translation.y = y; t.transform.translation.z = z;
  t.transform.rotation = tf2::toMsg(q);
  return t;
}
inline void setTf(const geometry_msgs::TransformStamped& t)
{
  for (auto& e : tfs())
    if (e.target == t.header.frame_id && e.source == t.child_frame_id) { e.t = t; return; }
  tfs().push_back(Tf{t.header.frame_id, t.child_frame_id, t});
}
inline const geometry_msgs::TransformStamped* findTf(const std::string& target, const std::string& source)
{
  for (auto& e : tfs())
    if (e.target == target && e.source == source) return &e.t;
  return nullptr;
}
inline geometry_msgs::TransformStamped lookup(const std::string& target, const std::string& source, const ros::Time& at)
{
  if (tfAt() && !tfAt()(target, source, at)) throw tf2::TransformException("not available");
  if (const auto* t = findTf(target, source)) return *t;
  if (target == source) return makeTf(target, source, 0, 0, 0, tf2::Quaternion(0, 0, 0, 1), at);
  if (const auto* t = findTf(source, target))
  {
    geometry_msgs::TransformStamped r;
    r.transform = tf2::toMsg(tf2::asTransform(*t).inverse());
    r.header.frame_id = target; r.child_frame_id = source; r.header.stamp = t->header.stamp;
    return r;
  }
  throw tf2::TransformException("no transform");
}
}
namespace tf2_ros
{
struct Buffer
{
  Buffer() {}
  explicit Buffer(const ros::Duration&) {}
  geometry_msgs::TransformStamped lookupTransform(const std::string& target, const std::string& source, const ros::Time& t, const ros::Duration& = ros::Duration()) const
  {
    return sxros::lookup(target, source, t);
  }
  geometry_msgs::TransformStamped lookupTransform(const std::string& target, const ros::Time& t, const std::string& source, const ros::Time&, const std::string&, const ros::Duration& = ros::Duration()) const
  {
    return sxros::lookup(target, source, t);
  }
  bool canTransform(const std::string& target, const std::string& source, const ros::Time& t, const ros::Duration& = ros::Duration(), std::string* = nullptr) const
  {
    try { sxros::lookup(target, source, t); return true; }
    catch (tf2::TransformException&) { return false; }
  }
  template <class M> M transform(const M& in, const std::string& target, const ros::Duration& = ros::Duration()) const
  {
    M out;
    tf2::doTransform(in, out, sxros::lookup(target, in.header.frame_id, in.header.stamp));
    return out;
  }
  template <class M> M& transform(const M& in, M& out, const std::string& target, const ros::Duration& = ros::Duration()) const
  {
    tf2::doTransform(in, out, sxros::lookup(target, in.header.frame_id, in.header.stamp));
    return out;
  }
  void clear() {}
};
struct TransformListener { template <class... A> explicit TransformListener(A&&...) {} };
struct TransformBroadcaster
{
  void sendTransform(const geometry_msgs::TransformStamped& t) { sxros::sent<geometry_msgs::TransformStamped>().push_back({"tf", t}); }
  void sendTransform(const std::vector<geometry_msgs::TransformStamped>& v) { for (auto& t : v) sendTransform(t); }
};
typedef TransformBroadcaster StaticTransformBroadcaster;
}
#endif
