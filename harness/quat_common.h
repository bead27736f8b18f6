#pragma once
#include <Eigen/Dense>
// every unit quaternion: the dominant component (index dom, sign sg) scaled to one, the others in [-1,1], then normalised
static inline Eigen::Quaterniond vp_unitq(int dom, int sg) {
  double v[4]; static const char* N[4] = {"qw", "qx", "qy", "qz"}; double n = 1;
  for (int i = 0; i < 4; i++) { if (i == dom) v[i] = sg; else { v[i] = vp_sym(N[i], -1, 1); n += v[i] * v[i]; } }
  double r = std::sqrt(n); return Eigen::Quaterniond(v[0] / r, v[1] / r, v[2] / r, v[3] / r);
}
static inline void vp_nearm(const Eigen::Matrix3d& a, const Eigen::Matrix3d& b, double tol, const char* id) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) vp_near(a(i, j), b(i, j), tol, id); }
// rotation matrix of a unit quaternion, from the definition v -> q v q*
static inline Eigen::Matrix3d vp_refR(const Eigen::Quaterniond& q) { double w = q.w(), x = q.x(), y = q.y(), z = q.z(); Eigen::Matrix3d R; R << 1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y), 2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x), 2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y); return R; }
