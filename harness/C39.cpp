// C39: vector operations: sort, reverse, norms, products, angles
#include "vp.h"
#include "MathUtils/MathUtils.h"
using namespace mathutils;
static const double T = 1e-7; static const int N = VP_THOROUGH ? 5 : 4;
template <class V> static void fill(V& v, const char* n, double lo = -10, double hi = 10) { for (int i = 0; i < (int)v.size(); i++) v(i) = vp_symi(n, i, lo, hi); }
static VectorN<double> vn(const char* n, int k, double lo = -10, double hi = 10) { VectorN<double> v(k); fill(v, n, lo, hi); return v; }
VP_CASES(sort, 2 * N) { int n = vp_k / 2 + 1; bool asc = vp_k % 2; auto v = vn("v", n); auto o = v; v.Sort(asc); vp_assert((int)v.size() == n, "sort-size"); for (int i = 0; i + 1 < n; i++) vp_assert(asc ? v(i) <= v(i + 1) : v(i) >= v(i + 1), "sort-order"); for (int p = 1; p <= n; p++) { double a = 0, b = 0; for (int i = 0; i < n; i++) { double x = 1, y = 1; for (int q = 0; q < p; q++) { x *= v(i); y *= o(i); } a += x; b += y; } vp_near(a, b, 1e-4, "sort-permutation"); } }
VP_CASES(sort_default, N) { auto v = vn("v", vp_k + 1); v.Sort(); for (int i = 0; i < vp_k; i++) vp_assert(v(i) <= v(i + 1), "sort-default-ascending"); }
VP_CASES(reverse, 13) { int n = vp_k < 11 ? vp_k : vp_k == 11 ? 17 : 40; auto v = vn("v", n); auto o = v; v.Reverse(); for (int i = 0; i < n; i++) vp_near(v(i), o(n - 1 - i), 0, "reverse"); }
template <class V> static void inf(V& v) { const V& c = v; double r = c.infNorm(); bool any = false; for (int i = 0; i < (int)v.size(); i++) { vp_assert(r >= std::fabs(v(i)) - 1e-9, "inf-norm-bound"); if (std::fabs(r - std::fabs(v(i))) <= 1e-9) any = true; } vp_assert(any, "inf-norm-attained"); }
VP_CASES(infnorm_n, N) { auto v = vn("v", vp_k + 1); inf(v); }
VP_CASE(infnorm_2) { Vector2d<double> v; fill(v, "v"); inf(v); }
VP_CASE(infnorm_3) { Vector3d<double> v; fill(v, "v"); inf(v); }
// two symbolic components at a time (every pair; every triple in the thorough tier), the others fixed
VP_CASES(infnorm_6, VP_THOROUGH ? 20 : 15) { Vector6d<double> v; int t = 0; for (int l = 0; l < 6; l++) v(l) = l % 2 ? -2.5 : 1.5; for (int i = 0; i < 6; i++) for (int j = i + 1; j < 6; j++) for (int k = VP_THOROUGH ? j + 1 : 5; k < 6; k++) if (t++ == vp_k) for (int l = 0; l < 6; l++) if (l == i || l == j || (VP_THOROUGH && l == k)) v(l) = vp_symi("v", l, -10, 10); inf(v); }
VP_CASE(construct) { Vector2d<double> a; Vector3d<double> b; Vector6d<double> c; for (int i = 0; i < 2; i++) vp_near(a(i), 0, 0, "default-2"); for (int i = 0; i < 3; i++) vp_near(b(i), 0, 0, "default-3"); for (int i = 0; i < 6; i++) vp_near(c(i), 0, 0, "default-6");
  double x[6]; for (int i = 0; i < 6; i++) x[i] = vp_symi("x", i, -10, 10); Vector2d<double> d(x[0], x[1]); Vector3d<double> e(x[0], x[1], x[2]); Vector6d<double> f(x[0], x[1], x[2], x[3], x[4], x[5]); const auto &dc = d; const auto &ec = e; const auto &fc = f; for (int i = 0; i < 2; i++) { vp_near(d.at(i), x[i], 0, "construct-2"); vp_near(dc.at(i), x[i], 0, "at-2"); } for (int i = 0; i < 3; i++) { vp_near(e.at(i), x[i], 0, "construct-3"); vp_near(ec.at(i), x[i], 0, "at-3"); } for (int i = 0; i < 6; i++) { vp_near(f.at(i), x[i], 0, "construct-6"); vp_near(fc.at(i), x[i], 0, "at-6"); }
  a.Set(x[3], x[4]); b.Set(x[3], x[4], x[5]); c.Set(x[5], x[4], x[3], x[2], x[1], x[0]); for (int i = 0; i < 2; i++) vp_near(a(i), x[3 + i], 0, "set-2"); for (int i = 0; i < 3; i++) vp_near(b(i), x[3 + i], 0, "set-3"); for (int i = 0; i < 6; i++) vp_near(c(i), x[5 - i], 0, "set-6");
  d.SetNull(); e.SetNull(); f.SetNull(); for (int i = 0; i < 2; i++) vp_near(d(i), 0, 0, "null-2"); for (int i = 0; i < 3; i++) vp_near(e(i), 0, 0, "null-3"); for (int i = 0; i < 6; i++) vp_near(f(i), 0, 0, "null-6");
  a.at(1) = x[0]; b.at(2) = x[0]; c.at(4) = x[5]; vp_near(a(1), x[0], 0, "write-2"); vp_near(b(2), x[0], 0, "write-3"); vp_near(c(4), x[5], 0, "write-6"); vp_near(c(5), x[0], 0, "write-6-other"); }
VP_CASES(dynamic, 7) { int n = vp_k < 5 ? vp_k : vp_k == 5 ? 9 : 33; auto v = vn("v", n); const auto& c = v; for (int i = 0; i < n; i++) { vp_near(c.at(i), v(i), 0, "at-n"); vp_near(v.at(i), vp_symi("v", i, -10, 10), 0, "at-n-value"); } if (n) { v.at(n - 1) = 3; vp_near(v(n - 1), 3, 0, "write-n"); } v.SetOnes(); for (int i = 0; i < n; i++) vp_near(v(i), 1, 0, "ones"); v.SetNull(); for (int i = 0; i < n; i++) vp_near(v(i), 0, 0, "null-n"); vp_assert((int)v.size() == n, "size-n"); }
VP_CASES(squares, 6) { int n = vp_k < 4 ? vp_k + 1 : vp_k == 4 ? 7 : 12; auto v = vn("v", n); MatrixMN<double> a = v.GetMatrixSquare(), b = GetMatrixSquare(v), c = v.GetDiagonalMatrix(), d = GetDiagonalMatrix(v), t = Transpose(v); vp_assert(a.rows() == n && a.cols() == n && b.rows() == n && b.cols() == n && c.rows() == n && c.cols() == n && d.rows() == n && d.cols() == n && t.rows() == 1 && t.cols() == n, "square-size"); for (int i = 0; i < n; i++) { vp_near(t(0, i), v(i), 0, "transposed"); for (int j = 0; j < n; j++) { vp_near(a(i, j), v(i) * v(j), T, "square"); vp_near(b(i, j), v(i) * v(j), T, "square-function"); vp_near(c(i, j), i == j ? v(i) : 0, T, "diagonal"); vp_near(d(i, j), i == j ? v(i) : 0, T, "diagonal-function"); } } }
VP_CASE(products3) { Vector3d<double> v, w; fill(v, "v"); fill(w, "w"); Matrix33<double> o = outer(v, w), q = outer(v); double s = 0; for (int i = 0; i < 3; i++) { s += v(i) * w(i); for (int j = 0; j < 3; j++) { vp_near(o(i, j), v(i) * w(j), T, "outer-3"); vp_near(q(i, j), v(i) * v(j), T, "outer-self-3"); } } vp_near(inner(v, w), s, T, "inner-3"); }
VP_CASE(products6) { Vector6d<double> v, w; fill(v, "v"); fill(w, "w"); Matrix66<double> o = outer(v, w), q = outer(v); double s = 0; for (int i = 0; i < 6; i++) { s += v(i) * w(i); for (int j = 0; j < 6; j++) { vp_near(o(i, j), v(i) * w(j), T, "outer-6"); vp_near(q(i, j), v(i) * v(j), T, "outer-self-6"); } } vp_near(inner(v, w), s, T, "inner-6"); }
VP_CASES(angles, 6) { Vector3d<double> v; fill(v, "v"); int ax = vp_k / 2; bool deg = vp_k % 2; int p = (ax + 1) % 3, q = (ax + 2) % 3; vp_assume(std::fabs(v(p)) >= 0.01 || std::fabs(v(q)) >= 0.01); ANGLE_UNIT u = deg ? DEG : RAD; double a = ax == 0 ? v.GetProjectedAngleAroundX(u) : ax == 1 ? v.GetProjectedAngleAroundY(u) : v.GetProjectedAngleAroundZ(u); vp_near(a, std::atan2(v(q), v(p)) * (deg ? 180 / 3.14159265358979323846 : 1), T, "projected-angle"); }
VP_CASE(normalise) { Vector3d<double> v; fill(v, "v"); vp_assume(std::fabs(v(0)) >= 0.01 || std::fabs(v(1)) >= 0.01 || std::fabs(v(2)) >= 0.01); auto o = v; v.Normalize(); vp_near(v(0) * v(0) + v(1) * v(1) + v(2) * v(2), 1, 1e-9, "unit-norm"); double n = std::sqrt(o(0) * o(0) + o(1) * o(1) + o(2) * o(2)); for (int i = 0; i < 3; i++) vp_near(v(i) * n, o(i), T, "same-direction"); vp_assert(v.IsUnit(), "is-unit"); }
// a vector at distance at least 0.001 from unit norm is not unit, a unit one is
VP_CASE(unit) { Vector3d<double> v; fill(v, "v"); double s = v(0) * v(0) + v(1) * v(1) + v(2) * v(2); vp_assume(s > 1.01 || s < 0.99); vp_assert(!v.IsUnit(), "not-unit"); }
template <class V> static void equal(V& a, V& b, double tol) { bool r = a.IsEqual(b, tol); double d = 0, na = 0, nb = 0; for (int i = 0; i < (int)a.size(); i++) { d += (a(i) - b(i)) * (a(i) - b(i)); na += a(i) * a(i); nb += b(i) * b(i); } double m = na < nb ? na : nb; vp_assume(std::fabs(d - tol * tol * m) > 1e-6); vp_assert(r == (d <= tol * tol * m), "equal"); }
VP_CASES(equality, 4) { double tol = 0.25; if (vp_k == 0) { Vector2d<double> a, b; fill(a, "a"); fill(b, "b"); equal(a, b, tol); } else if (vp_k == 1) { Vector3d<double> a, b; fill(a, "a"); fill(b, "b"); equal(a, b, tol); } else if (vp_k == 2) { auto a = vn("a", 2), b = vn("b", 2); equal(a, b, tol); } else { Vector6d<double> a, b; fill(a, "a"); fill(b, "b"); equal(a, b, tol); } }
// long vectors: one arbitrary element among fixed ones (with repetitions), at every position class
VP_CASES(sort_long, 10) { static const int L[] = {5, 9, 16, 17, 35}; int n = L[vp_k / 2]; bool asc = vp_k % 2; VectorN<double> v(n), o; int at = (int)vp_pick("at", 0, 2); at = at == 0 ? 0 : at == 1 ? n / 2 : n - 1; for (int i = 0; i < n; i++) v(i) = i == at ? vp_sym("x", -10, 10) : ((i * 37 + 11) % 23) * 0.75 - 8; o = v; v.Sort(asc); vp_assert((int)v.size() == n, "sort-long-size"); for (int i = 0; i + 1 < n; i++) vp_assert(asc ? v(i) <= v(i + 1) : v(i) >= v(i + 1), "sort-long-order"); double a = 0, b = 0, c = 0, d = 0; for (int i = 0; i < n; i++) { a += v(i); b += o(i); c += v(i) * v(i); d += o(i) * o(i); } vp_near(a, b, 1e-6, "sort-long-sum"); vp_near(c, d, 1e-6, "sort-long-squares"); for (int i = 0; i < n; i++) { if (i == at) continue; int p = 0, q = 0; for (int j = 0; j < n; j++) { if (j != at && o(j) == o(i)) p++; if (v(j) == o(i)) q++; } vp_assert(q >= p, "sort-long-elements"); } }
VP_CASES(infnorm_long, 3) { int n = vp_k == 0 ? 7 : vp_k == 1 ? 16 : 35; VectorN<double> v(n); int at = (int)vp_pick("at", 0, 2); at = at == 0 ? 0 : at == 1 ? n / 2 : n - 1; for (int i = 0; i < n; i++) v(i) = i == at ? vp_sym("x", -10, 10) : ((i * 37 + 11) % 23) * 0.25 - 3; inf(v); }
static const double SC[5] = {1e-150, 1e-9, 1e-4, 1e5, 1e9};
VP_CASES(normalise_scales, 5) { double s = SC[vp_k]; Vector3d<double> v, u; fill(u, "v"); vp_assume(std::fabs(u(0)) >= 0.01 || std::fabs(u(1)) >= 0.01 || std::fabs(u(2)) >= 0.01); for (int i = 0; i < 3; i++) v(i) = s * u(i); v.Normalize(); vp_near(v(0) * v(0) + v(1) * v(1) + v(2) * v(2), 1, 1e-9, "unit-norm-scaled"); double n = std::sqrt(u(0) * u(0) + u(1) * u(1) + u(2) * u(2)); for (int i = 0; i < 3; i++) vp_near(v(i) * n, u(i), T, "same-direction-scaled"); }
VP_CASES(angle_scales, 30) { double s = SC[vp_k / 6]; Vector3d<double> v, w; fill(w, "v"); for (int i = 0; i < 3; i++) v(i) = s * w(i); int ax = vp_k % 6 / 2; bool deg = vp_k % 2; int p = (ax + 1) % 3, q = (ax + 2) % 3; vp_assume(std::fabs(w(p)) >= 0.01 || std::fabs(w(q)) >= 0.01); ANGLE_UNIT u = deg ? DEG : RAD; double a = ax == 0 ? v.GetProjectedAngleAroundX(u) : ax == 1 ? v.GetProjectedAngleAroundY(u) : v.GetProjectedAngleAroundZ(u); vp_near(a, std::atan2(v(q), v(p)) * (deg ? 180 / 3.14159265358979323846 : 1), T, "projected-angle-scaled"); }
VP_CASES(inf_scales, 15) { double s = SC[vp_k / 3]; auto chkinf = [&](auto& v) { for (int i = 0; i < (int)v.size(); i++) v(i) = i < 2 ? s * vp_symi("v", i, -10, 10) : s; double r = v.infNorm() / s; bool any = false; for (int i = 0; i < (int)v.size(); i++) { double e = std::fabs(v(i)) / s; vp_assert(r >= e - 1e-9, "inf-norm-scaled"); if (std::fabs(r - e) <= 1e-9) any = true; } vp_assert(any, "inf-norm-scaled-attained"); }; if (vp_k % 3 == 0) { Vector2d<double> v; chkinf(v); } else if (vp_k % 3 == 1) { Vector3d<double> v; chkinf(v); } else { VectorN<double> v(4); chkinf(v); } }
VP_CASES(product_scales, 2) { double s = vp_k ? 1e6 : 1e-9; Vector3d<double> v, w; fill(v, "v"); fill(w, "w"); Vector3d<double> a = v, b = w; for (int i = 0; i < 3; i++) { a(i) = s * v(i); b(i) = s * w(i); } Matrix33<double> o = outer(a, b); double e = 0; for (int i = 0; i < 3; i++) { e += v(i) * w(i); for (int j = 0; j < 3; j++) vp_near(o(i, j) / (s * s), v(i) * w(j), T, "outer-scaled"); } vp_near(inner(a, b) / (s * s), e, T, "inner-scaled"); }
// very long vectors
VP_CASES(huge, 6) { static const int L[3] = {70, 130, 300}; int n = L[vp_k / 2]; bool asc = vp_k % 2; VectorN<double> v(n), o; int at = (int)vp_pick("at", 0, 3); at = at == 0 ? 0 : at == 1 ? n / 2 : at == 2 ? n - 1 : 64; for (int i = 0; i < n; i++) v(i) = i == at ? vp_sym("x", -10, 10) : ((i * 37 + 11) % 23) * 0.75 - 8; o = v; inf(v); v.Reverse(); for (int i = 0; i < n; i++) vp_near(v(i), o(n - 1 - i), 0, "huge-reverse"); v = o; v.Sort(asc); vp_assert((int)v.size() == n, "huge-sort-size"); for (int i = 0; i + 1 < n; i++) vp_assert(asc ? v(i) <= v(i + 1) : v(i) >= v(i + 1), "huge-sort-order"); double a = 0, b = 0, c = 0, d = 0; for (int i = 0; i < n; i++) { a += v(i); b += o(i); c += v(i) * v(i); d += o(i) * o(i); } vp_near(a, b, 1e-6, "huge-sort-sum"); vp_near(c, d, 1e-6, "huge-sort-squares"); v.SetNull(); for (int i = 0; i < n; i++) vp_near(v(i), 0, 0, "huge-null"); v.SetOnes(); for (int i = 0; i < n; i++) vp_near(v(i), 1, 0, "huge-ones"); }
VP_CASES(huge_squares, 2) { int n = vp_k ? 40 : 20; VectorN<double> v(n); for (int i = 0; i < n; i++) v(i) = i % 9 == 4 ? vp_symi("v", i, -10, 10) : i - 7.5; MatrixMN<double> a = v.GetMatrixSquare(), c = v.GetDiagonalMatrix(), t = Transpose(v); vp_assert(a.rows() == n && a.cols() == n && c.rows() == n && c.cols() == n && t.rows() == 1 && t.cols() == n, "huge-square-size"); for (int i = 0; i < n; i++) { vp_near(t(0, i), v(i), 0, "huge-transposed"); for (int j = 0; j < n; j++) { vp_near(a(i, j), v(i) * v(j), T, "huge-square"); vp_near(c(i, j), i == j ? v(i) : 0, T, "huge-diagonal"); } } }
