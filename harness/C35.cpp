// C35: LU, QR and Cholesky factors reproduce the matrix
#include "mat_common.h"
static const double T = 1e-7;
template <class M> static void lu(const M& a, int n) {
  M P = Mk<M>::make(n, n), L = P, U = P; a.GetLUDecomposition(P, L, U); vp_assert(P.rows() == n && P.cols() == n && L.rows() == n && L.cols() == n && U.rows() == n && U.cols() == n, "lu-size");
  for (int i = 0; i < n; i++) { int r = 0, c = 0; for (int j = 0; j < n; j++) { vp_assert(P(i, j) == 0 || P(i, j) == 1, "permutation-entries"); r += P(i, j) == 1; c += P(j, i) == 1; } vp_assert(r == 1 && c == 1, "permutation"); }
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { if (i == j) vp_near(L(i, i), 1, 0, "unit-diagonal"); if (i < j) vp_near(L(i, j), 0, 0, "lower"); if (i > j) vp_near(U(i, j), 0, 0, "upper"); double pa = 0, q = 0; for (int k = 0; k < n; k++) { pa += P(i, k) * a(k, j); q += L(i, k) * U(k, j); } vp_near(pa, q, T, "pa-is-lu"); }
}
static const int P3[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
template <class M> static M dom(int n, const int* p, bool full) { M m = Mk<M>::make(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m(i, j) = p[i] == j ? vp_symij("m", i, j, 4, 8) * ((i + j) % 2 ? -1 : 1) : full ? vp_symij("m", i, j, -1, 1) : 0.25 * ((i * 2 + j * 3) % 5 - 2); return m; }
static M6 base6(int k) { M6 m; for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) m(i, j) = 0.25 * ((i * 7 + j * 5 + i * j * (k + 1)) % 9 - 4) + ((i + k) % 6 == j ? (i % 2 ? 6 : -6) : 0); return m; }
VP_CASE(lu_1) { lu(symm<MN>("m", 1, 1), 1); }
VP_CASE(lu_2) { lu(symm<MN>("m", 2, 2), 2); }   // singular matrices included
VP_CASES(lu_n3, 6) { lu(dom<MN>(3, P3[vp_k], true), 3); }
VP_CASES(lu_3, 6) { lu(dom<M3>(3, P3[vp_k], true), 3); }
VP_CASES(lu_6, 4) { M6 m = base6(vp_k); m(vp_k, 5 - vp_k) = vp_sym("x", -2, 2); lu(m, 6); }
VP_CASES(lu_n4, 2) { MN m(4, 4); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) m(i, j) = base6(vp_k)(i, j); m(3, 1) = vp_sym("x", -9, 9); lu(m, 4); }
template <class M, class V> static void qr(const M& a, int r, int c, M& Q, M& R, int qc, V) {
  vp_assert(Q.rows() == r && Q.cols() == qc && R.rows() == c && R.cols() == c, "qr-size");
  for (int i = 0; i < qc; i++) for (int j = i; j < qc; j++) { double s = 0; for (int k = 0; k < r; k++) s += Q(k, i) * Q(k, j); vp_near(s, i == j, T, "orthonormal"); }
  for (int i = 0; i < c; i++) for (int j = 0; j < i; j++) vp_near(R(i, j), 0, 0, "r-upper");
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { double s = 0; for (int k = 0; k < c; k++) s += Q(i, k) * R(k, j); vp_near(s, a(i, j), T, "qr-product"); }
}
template <class M> static void qrf(const M& a, int n) { M Q = Mk<M>::make(n, n), R = Q; a.GetQRDecomposition(Q, R); qr(a, n, n, Q, R, n, 0); }
static void qrn(const MN& a, int r, int c, int which = 2) { MN Q, R; if (which != 1) { a.GetQRDecomposition(Q, R); qr(a, r, c, Q, R, c, 0); } if (which != 0) { a.GetFullQRDecomposition(Q, R); qr(a, r, c, Q, R, r, 0); } }
VP_CASES(qr_column, 4) { qrn(symm<MN>("m", vp_k + 1, 1), vp_k + 1, 1); }
VP_CASE(qr_2) { MN m = symm<MN>("m", 2, 2); qrn(m, 2, 2); }
// 3x2: first column fixed in several positions, second symbolic
VP_CASES(qr_32, 4) { static const double c0[4][3] = {{2, 0, 0}, {0, 3, 0}, {1, 2, -2}, {0, 0, -1}}; MN m(3, 2); for (int i = 0; i < 3; i++) { m(i, 0) = c0[vp_k][i]; m(i, 1) = vp_symi("m", i, -10, 10); } qrn(m, 3, 2); }
// a symbolic 2x2 block and a symbolic isolated entry, in every position
template <class M> static M blk(int n, int k) { int r = k / n % n, c = k % n; M m = Mk<M>::make(n, n); int ri = 0; for (int i = 0; i < n; i++) { int ci = 0; for (int j = 0; j < n; j++) { if (i == r || j == c) m(i, j) = i == r && j == c ? vp_sym("p", 1, 3) : 0; else m(i, j) = vp_symij("m", ri, ci, -5, 5); if (j != c) ci++; } if (i != r) ri++; } return m; }
VP_CASES(qr_n3, 9) { qrn(blk<MN>(3, vp_k), 3, 3); }
VP_CASES(qr_3, 9) { qrf(blk<M3>(3, vp_k), 3); }
VP_CASES(qr_6, 6) { M6 m = base6(vp_k); for (int i = 0; i < 6; i++) m(i, 5) = i == vp_k ? vp_sym("x", -10, 10) : m(i, 5); qrf(m, 6); }
template <class M> static void chol(const M& a, int n) { M L = Mk<M>::make(n, n); a.GetCholeskyDecomposition(L); vp_assert(L.rows() == n && L.cols() == n, "cholesky-size"); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { if (i == j) vp_assert(L(i, i) > 0, "cholesky-diagonal"); if (i < j) vp_near(L(i, j), 0, 0, "cholesky-lower"); double s = 0; for (int k = 0; k < n; k++) s += L(i, k) * L(j, k); vp_near(s, a(i, j), T, "cholesky-product"); } }
template <class M> static M spd(int n, const char* nm = "a") { M m = Mk<M>::make(n, n); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) m(i, j) = m(j, i) = i == j ? vp_symij(nm, i, i, 2.5, 9) : vp_symij(nm, i, j, -1, 1); return m; }
VP_CASES(cholesky_n, 2) { chol(spd<MN>(vp_k + 1), vp_k + 1); }
VP_CASE(cholesky_2) { MN m(2, 2); m(0, 0) = vp_sym("a", 0.01, 10); m(1, 0) = m(0, 1) = vp_sym("b", -10, 10); m(1, 1) = vp_sym("c", 0.01, 10); vp_assume(m(0, 0) * m(1, 1) - m(0, 1) * m(0, 1) >= 0.01); chol(m, 2); }
// 3x3: the diagonal and one off-diagonal pair symbolic
template <class M> static M spd3(int k) { M m = Mk<M>::make(3, 3); int t = 0; for (int i = 0; i < 3; i++) for (int j = 0; j <= i; j++) m(i, j) = m(j, i) = i == j ? vp_symij("a", i, i, 2.5, 9) : t++ == k ? vp_symij("a", i, j, -1, 1) : 0.5 * (i + j) - 0.75; return m; }
VP_CASES(cholesky_n3, 3) { chol(spd3<MN>(vp_k), 3); }
VP_CASES(cholesky_3, 3) { chol(spd3<M3>(vp_k), 3); }
VP_CASES(cholesky_6, 6) { M6 m; for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) m(i, j) = (i == j ? 8 : 0) + 0.25 * ((i + j) * (1 + i * j) % 5 - 2); m(vp_k, vp_k) = vp_sym("x", 5, 20); int o = (vp_k + 2) % 6; m(vp_k, o) = m(o, vp_k) = vp_sym("y", -1, 1); chol(m, 6); }
template <class M> static bool throws(const M& a) { M L = a; try { a.GetCholeskyDecomposition(L); } catch (const std::exception&) { return true; } return false; }
VP_CASES(refused_rect, 2) { vp_assert(throws(symm<MN>("m", 2 + vp_k, 3 - vp_k)), "cholesky-non-square"); }
VP_CASE(refused_asym2) { MN m = symm<MN>("m", 2, 2); double d = m(0, 1) - m(1, 0); vp_assume(d >= 0.001 || d <= -0.001); vp_assert(throws(m), "cholesky-asymmetric"); }
VP_CASES(refused_asym3, 6) { int k = vp_k / 2; M3 m = spd<M3>(3); m(k == 2, k == 0 ? 1 : 2) += (vp_k % 2 ? -1 : 1) * vp_sym("d", 0.001, 3); vp_assert(throws(m), "cholesky-asymmetric-3"); }
VP_CASES(refused_asym6, 6) { M6 m; for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) m(i, j) = (i == j ? 8 : 0) + 0.25 * ((i + j) * (1 + i * j) % 5 - 2); m(vp_k, (vp_k + 3) % 6) += vp_sym("d", 0.001, 3); vp_assert(throws(m), "cholesky-asymmetric-6"); }
VP_CASE(refused_indef1) { MN m(1, 1); m(0, 0) = vp_sym("a", -10, -0.001); vp_assert(throws(m), "cholesky-negative"); }
VP_CASE(refused_indef2) { MN m(2, 2); m(0, 0) = vp_sym("a", -10, 10); m(1, 0) = m(0, 1) = vp_sym("b", -10, 10); m(1, 1) = vp_sym("c", -10, 10); vp_assume(m(0, 0) * m(1, 1) - m(0, 1) * m(0, 1) <= -0.01); vp_assert(throws(m), "cholesky-indefinite"); }
VP_CASES(refused_indef3, 9) { M3 m = spd3<M3>(vp_k / 3); m(vp_k % 3, vp_k % 3) = vp_sym("n", -5, -0.5); vp_assert(throws(m), "cholesky-indefinite-3"); }
VP_CASES(refused_indef6, 6) { M6 m; for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) m(i, j) = (i == j ? 8 : 0) + 0.25 * ((i + j) * (1 + i * j) % 5 - 2); m(vp_k, vp_k) = vp_sym("n", -5, -0.5); vp_assert(throws(m), "cholesky-indefinite-6"); }
// rank-one update, sigma of both signs
static void upd(const MN& a, MN& v, double s, int n) { MN L, w = v; a.GetCholeskyUpdate(L, v, s); MN b = a; b.InPlaceCholeskyUpdate(w, s); vp_assert(L.rows() == n && L.cols() == n && b.rows() == n && b.cols() == n, "update-size"); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { if (i < j) { vp_near(L(i, j), 0, 0, "update-lower"); vp_near(b(i, j), 0, 0, "in-place-lower"); } double x = 0, y = 0; for (int k = 0; k < n; k++) { x += L(i, k) * L(j, k); y += b(i, k) * b(j, k); } double r = a(i, j) + s * v(i, 0) * v(j, 0); vp_near(x, r, T, "update"); vp_near(y, r, T, "update-in-place"); } }
VP_CASES(update_1, 2) { MN a = spd<MN>(1), v = symm<MN>("v", 1, 1, -1, 1); upd(a, v, vp_k ? vp_sym("s", 0.1, 3) : vp_sym("s", -2, -0.1), 1); }
VP_CASES(update_2, 4) { MN a = spd<MN>(2), v = symm<MN>("v", 2, 1, -0.5, 0.5); a(0, 1) = a(1, 0) = 0.75; v(vp_k / 2, 0) = 0.25 - vp_k % 2; upd(a, v, vp_k % 2 ? vp_sym("s", 0.1, 3) : vp_sym("s", -2, -0.1), 2); }
// other magnitudes: the factors of s*A, compared with s*A relative to s
static const double SC[6] = {1e-9, 1e-6, 1e-3, 1e3, 1e6, 1e9};
template <class M> static M times(const M& a, double s, int r, int c) { M m = a; for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = a(i, j) * s; return m; }
template <class M> static void lus(const M& u, double s, int n) { M a = times(u, s, n, n), P = Mk<M>::make(n, n), L = P, U = P; a.GetLUDecomposition(P, L, U); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { if (i == j) vp_near(L(i, i), 1, 0, "unit-diagonal-scaled"); if (i < j) vp_near(L(i, j), 0, 0, "lower-scaled"); if (i > j) vp_near(U(i, j), 0, 0, "upper-scaled"); double pa = 0, q = 0; for (int k = 0; k < n; k++) { pa += P(i, k) * u(k, j); q += L(i, k) * U(k, j); } vp_near(pa, q / s, T, "pa-is-lu-scaled"); } }
VP_CASES(lu_scaled_n, 12) { lus(dom<MN>(3, P3[vp_k % 6], vp_k < 6), SC[vp_k % 6], 3); }
VP_CASES(lu_scaled_3, 12) { lus(dom<M3>(3, P3[vp_k % 6], vp_k < 6), SC[5 - vp_k % 6], 3); }
VP_CASES(lu_scaled_6, 6) { M6 m = base6(vp_k); m(vp_k, 5 - vp_k) = vp_sym("x", -2, 2); lus(m, SC[vp_k], 6); }
static MN basen(int r, int c, int k) { MN m(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = 0.25 * ((i * 7 + j * 5 + i * j * (k + 1)) % 11 - 5) + ((i + k) % c == j ? (i % 2 ? 6 : -6) : 0); return m; }
VP_CASES(lu_large, 8) { int n = 5 + vp_k % 4; MN m = basen(n, n, vp_k); m(n - 1, vp_k % n) = vp_sym("x", -9, 9); lu(m, n); }
VP_CASES(lu_singular, 4) { int n = 3 + vp_k % 2; MN m = basen(n, n, vp_k); for (int j = 0; j < n; j++) { m(1, j) = vp_k < 2 ? 2 * m(0, j) : 0; } m(n - 1, n - 1) = vp_sym("x", -9, 9); lu(m, n); }
VP_CASES(qr_scaled_n, 12) { int r = vp_k < 6 ? 3 : 4, c = vp_k % 2 ? 3 : 2; double s = SC[vp_k % 6]; MN u = basen(r, c, vp_k); u(vp_k % r, c - 1) = vp_sym("x", -10, 10); MN a = times(u, s, r, c), Q, R; a.GetQRDecomposition(Q, R); MN S = times(R, 1 / s, c, c); qr(u, r, c, Q, S, c, 0); a.GetFullQRDecomposition(Q, R); S = times(R, 1 / s, c, c); qr(u, r, c, Q, S, r, 0); }
VP_CASES(qr_scaled_3, 6) { double s = SC[vp_k]; M3 u = blk<M3>(3, vp_k), a = times(u, s, 3, 3), Q, R; a.GetQRDecomposition(Q, R); M3 S = times(R, 1 / s, 3, 3); qr(u, 3, 3, Q, S, 3, 0); }
VP_CASES(qr_scaled_6, 4) { double s = SC[1 + vp_k]; M6 u = base6(vp_k); u(vp_k, 5) = vp_sym("x", -10, 10); M6 a = times(u, s, 6, 6), Q, R; a.GetQRDecomposition(Q, R); M6 S = times(R, 1 / s, 6, 6); qr(u, 6, 6, Q, S, 6, 0); }
VP_CASES(qr_large, 9) { static const int D[9][2] = {{4, 4}, {5, 3}, {5, 5}, {6, 2}, {6, 4}, {7, 7}, {8, 5}, {8, 8}, {9, 1}}; int r = D[vp_k][0], c = D[vp_k][1]; MN m = basen(r, c, vp_k); m(r - 1, c - 1) = vp_sym("x", -10, 10); qrn(m, r, c); }
VP_CASES(qr_deficient, 4) { MN m = basen(4, 3, vp_k); for (int i = 0; i < 4; i++) m(i, vp_k % 3) = vp_k == 3 ? 0 : 2 * m(i, (vp_k + 1) % 3); m(3, 2) = vp_k == 3 ? vp_sym("x", -10, 10) : m(3, 2); qrn(m, 4, 3); }
VP_CASES(qr_integer, 3) { MN m(3, 2); static const double A[3][6] = {{1, 0, 0, 1, 0, 0}, {0, 0, 1, 0, 0, 1}, {-1, 0, 0, -1, 0, 0}}; for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) m(i, j) = A[vp_k][i * 2 + j] * vp_sym("f", 0.5, 4); qrn(m, 3, 2); }
template <class M> static void chols(const M& u, double s, int n) { M a = times(u, s, n, n), L = Mk<M>::make(n, n); a.GetCholeskyDecomposition(L); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { if (i == j) vp_assert(L(i, i) > 0, "cholesky-diagonal-scaled"); if (i < j) vp_near(L(i, j), 0, 0, "cholesky-lower-scaled"); double p = 0; for (int k = 0; k < n; k++) p += L(i, k) * L(j, k); vp_near(p / s, u(i, j), T, "cholesky-product-scaled"); } }
VP_CASES(cholesky_scaled_n, 12) { if (vp_k < 6) chols(spd<MN>(2), SC[vp_k], 2); else chols(spd3<MN>(vp_k % 3), SC[vp_k - 6], 3); }
VP_CASES(cholesky_scaled_3, 6) { chols(spd3<M3>(vp_k % 3), SC[vp_k], 3); }
static M6 spd6(int k) { M6 m; for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) m(i, j) = (i == j ? 8 : 0) + 0.25 * ((i + j) * (1 + i * j) % 5 - 2); m(k, k) = vp_sym("x", 5, 20); return m; }
VP_CASES(cholesky_scaled_6, 6) { chols(spd6(vp_k), SC[vp_k], 6); }
VP_CASES(cholesky_large, 5) { int n = 4 + vp_k; MN m(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m(i, j) = (i == j ? 9 : 0) + 0.25 * ((i + j) * (1 + i * j) % 5 - 2); m(vp_k % n, vp_k % n) = vp_sym("x", 5, 20); chol(m, n); }
// badly scaled diagonal: still positive definite
VP_CASES(cholesky_graded, 3) { MN m(3, 3); static const double D[3][3] = {{1e-6, 1, 1e6}, {1e6, 1, 1e-6}, {1, 1e-8, 1}}; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m(i, j) = 0; for (int i = 0; i < 3; i++) m(i, i) = D[vp_k][i] * vp_symi("d", i, 1, 4); MN L; m.GetCholeskyDecomposition(L); for (int i = 0; i < 3; i++) { vp_near(L(i, i) * L(i, i) / D[vp_k][i], m(i, i) / D[vp_k][i], T, "cholesky-graded"); for (int j = 0; j < 3; j++) if (j != i) vp_near(L(i, j), 0, 1e-9, "cholesky-graded-off"); } }
VP_CASES(refused_scaled, 18) { double s = SC[vp_k % 6]; int w = vp_k / 6; M3 m = spd3<M3>(vp_k % 3); if (w == 0) m(0, 2) += vp_sym("d", 0.01, 3); else if (w == 1) m(vp_k % 3, vp_k % 3) = vp_sym("n", -5, -0.5); else { m(0, 0) = 1; m(1, 1) = 1; m(0, 1) = m(1, 0) = vp_sym("b", 1.01, 5); } M3 a = times(m, s, 3, 3); MN n(3, 3); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) n(i, j) = a(i, j); vp_assert(throws(a), "refused-scaled-3"); vp_assert(throws(n), "refused-scaled-n"); }
VP_CASES(update_scaled, 8) { double s = SC[vp_k / 2 + 1]; int n = 2; MN u = spd<MN>(2), v = symm<MN>("v", 2, 1, -0.5, 0.5); u(0, 1) = u(1, 0) = 0.75; v(0, 0) = 0.25; double g = vp_k % 2 ? vp_sym("s", 0.1, 3) : vp_sym("s", -2, -0.1); MN a = times(u, s, 2, 2), L, w = v, b = a; a.GetCholeskyUpdate(L, v, g * s); b.InPlaceCholeskyUpdate(w, g * s); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double x = 0, y = 0; for (int k = 0; k < n; k++) { x += L(i, k) * L(j, k); y += b(i, k) * b(j, k); } double e = u(i, j) + g * (i == 0 ? 0.25 : vp_symij("v", 1, 0, -0.5, 0.5)) * (j == 0 ? 0.25 : vp_symij("v", 1, 0, -0.5, 0.5)); vp_near(x / s, e, T, "update-scaled"); vp_near(y / s, e, T, "in-place-scaled"); } }
VP_CASES(update_3, 6) { MN a = basen(3, 3, 1); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) a(i, j) = (i == j ? 5 : 0) + 0.5 * ((i + j) % 3 - 1); MN v(3, 1); v(0, 0) = vp_k == 4 ? 0 : 0.5; v(1, 0) = vp_k == 5 ? 0 : -0.25; v(2, 0) = 0.75; upd(a, v, vp_k % 2 ? vp_sym("s", 0.1, 3) : vp_sym("s", -2, -0.1), 3); }
VP_CASE(update_none) { MN a = spd<MN>(2), v = symm<MN>("v", 2, 1, -0.5, 0.5), z(2, 1); z(0, 0) = z(1, 0) = 0; upd(a, z, vp_sym("s", 0.1, 3), 2); }
