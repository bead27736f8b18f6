// C17: Euler ZYX, quaternion and matrix conversions describe one rotation
#include "vp.h"
#include "MathUtils/Geometry.h"
#include "quat_common.h"
using namespace mathutils;
static const double T = 1e-9;
static Eigen::Vector3d angles() { return Eigen::Vector3d(vp_sym("roll", -1000, 1000), vp_sym("pitch", -1000, 1000), vp_sym("yaw", -1000, 1000)); }
static Eigen::Matrix3d prod(const Eigen::Matrix3d& a, const Eigen::Matrix3d& b) { Eigen::Matrix3d c; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double s = 0; for (int k = 0; k < 3; k++) s += a(i, k) * b(k, j); c(i, j) = s; } return c; }
// Rz(yaw) Ry(pitch) Rx(roll)
static Eigen::Matrix3d refE(const Eigen::Vector3d& e) { double cr = std::cos(e(0)), sr = std::sin(e(0)), cp = std::cos(e(1)), sp = std::sin(e(1)), cy = std::cos(e(2)), sy = std::sin(e(2)); Eigen::Matrix3d Z, Y, X; Z << cy, -sy, 0, sy, cy, 0, 0, 0, 1; Y << cp, 0, sp, 0, 1, 0, -sp, 0, cp; X << 1, 0, 0, 0, cr, -sr, 0, sr, cr; return prod(Z, prod(Y, X)); }
VP_CASE(forward_matrix) { auto e = angles(); vp_nearm(eulerAnglesZYXToRotationMatrix(e), refE(e), T, "matrix-from-angles"); }
VP_CASE(forward_quaternion) { auto e = angles(); auto q = eulerAnglesZYXToQuaternion(e); vp_near(q.w() * q.w() + q.x() * q.x() + q.y() * q.y() + q.z() * q.z(), 1, T, "unit-from-angles"); vp_nearm(vp_refR(q), refE(e), T, "quaternion-from-angles"); vp_nearm(quaternionToRotationMatrix(q), eulerAnglesZYXToRotationMatrix(e), T, "both-from-angles"); }
// extraction, away from gimbal lock (|sin pitch| <= 0.9999): every rotation with angles roll, yaw in [-pi,pi] and pitch in ]-pi/2,pi/2[,
// given by the tangents of the quarter angles; the extracted angles must have the sines and cosines of the original ones
struct Rot { double c[3], s[3], C[3], S[3]; };
static Rot rot() { Rot r; static const char* N[3] = {"tr", "tp", "ty"}; for (int i = 0; i < 3; i++) { double b = i == 1 ? 0.41 : 1, t = vp_sym(N[i], -b, b), d = 1 + t * t; r.c[i] = (1 - t * t) / d; r.s[i] = 2 * t / d; r.C[i] = r.c[i] * r.c[i] - r.s[i] * r.s[i]; r.S[i] = 2 * r.s[i] * r.c[i]; } return r; }
static Eigen::Matrix3d mat(const Rot& r) { Eigen::Matrix3d Z, Y, X; Z << r.C[2], -r.S[2], 0, r.S[2], r.C[2], 0, 0, 0, 1; Y << r.C[1], 0, r.S[1], 0, 1, 0, -r.S[1], 0, r.C[1]; X << 1, 0, 0, 0, r.C[0], -r.S[0], 0, r.S[0], r.C[0]; return prod(Z, prod(Y, X)); }
static void check(const Eigen::Vector3d& e, const Rot& r, const char* id) { for (int i = 0; i < 3; i++) { vp_near(std::sin(e(i)), r.S[i], 1e-6, id); vp_near(std::cos(e(i)), r.C[i], 1e-6, id); } }
VP_CASES(extract_quaternion, 2) { Rot r = rot(); double g = vp_k ? -1 : 1; const double *c = r.c, *s = r.s;   // qz * qy * qx
  Eigen::Quaterniond q(g * (c[2] * c[1] * c[0] + s[2] * s[1] * s[0]), g * (c[2] * c[1] * s[0] - s[2] * s[1] * c[0]), g * (c[2] * s[1] * c[0] + s[2] * c[1] * s[0]), g * (s[2] * c[1] * c[0] - c[2] * s[1] * s[0]));
  auto e = quaternionToEulerAnglesZYX(q); check(e, r, "angles-from-quaternion"); vp_assert(e(1) <= M_PI / 2 + 1e-12, "pitch-range"); vp_assert(e(1) >= -M_PI / 2 - 1e-12, "pitch-range"); }
VP_CASE(extract_matrix) { Rot r = rot(); auto e = rotationMatrixToEulerAnglesZYX(mat(r)); check(e, r, "angles-from-matrix"); vp_assert(e(1) <= M_PI / 2 + 1e-12, "pitch-range-matrix"); vp_assert(e(1) >= -M_PI / 2 - 1e-12, "pitch-range-matrix"); }
