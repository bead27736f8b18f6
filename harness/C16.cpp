// C16: quaternion and rotation matrix conversions are consistent
#include "vp.h"
#include "MathUtils/Geometry.h"
#include "quat_common.h"
using namespace mathutils;
static const double T = 1e-9;
VP_CASES(to_matrix, 8) { auto q = vp_unitq(vp_k / 2, vp_k % 2 ? 1 : -1); Eigen::Matrix3d R = quaternionToRotationMatrix(q);
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double s = 0; for (int k = 0; k < 3; k++) s += R(k, i) * R(k, j); vp_near(s, i == j, T, "orthonormal"); }
  double det = R(0, 0) * (R(1, 1) * R(2, 2) - R(1, 2) * R(2, 1)) - R(0, 1) * (R(1, 0) * R(2, 2) - R(1, 2) * R(2, 0)) + R(0, 2) * (R(1, 0) * R(2, 1) - R(1, 1) * R(2, 0)); vp_near(det, 1, T, "determinant");
  vp_nearm(R, vp_refR(q), T, "same-rotation"); Eigen::Quaterniond m(-q.w(), -q.x(), -q.y(), -q.z()); vp_nearm(quaternionToRotationMatrix(m), R, T, "opposite-quaternion"); }
VP_CASES(rotates, 8) { auto q = vp_unitq(vp_k / 2, vp_k % 2 ? 1 : -1); Eigen::Vector3d v(vp_sym("vx", -10, 10), vp_sym("vy", -10, 10), vp_sym("vz", -10, 10)); Eigen::Matrix3d R = quaternionToRotationMatrix(q); Eigen::Vector3d a = q._transformVector(v); for (int i = 0; i < 3; i++) vp_near(R(i, 0) * v(0) + R(i, 1) * v(1) + R(i, 2) * v(2), a(i), 1e-7, "rotates-vector"); }
// every rotation matrix is the matrix of some unit quaternion
VP_CASES(from_matrix, 8) { auto q = vp_unitq(vp_k / 2, vp_k % 2 ? 1 : -1); Eigen::Matrix3d R = vp_refR(q); const Eigen::Matrix3d R0 = R; Eigen::Quaterniond p = RotationMatrixToQuaternion(R);
  vp_near(p.w() * p.w() + p.x() * p.x() + p.y() * p.y() + p.z() * p.z(), 1, T, "unit"); vp_nearm(vp_refR(p), R0, 1e-8, "represents"); vp_nearm(quaternionToRotationMatrix(p), R0, 1e-8, "round-trip"); vp_nearm(R, R0, 0, "argument"); }
