// C36: inverses and linear solvers
#include "mat_common.h"
static const double T = 1e-7;
static double det2(const MN& m) { return m(0, 0) * m(1, 1) - m(0, 1) * m(1, 0); }
template <class M> static double det3(const M& m) { return m(0, 0) * (m(1, 1) * m(2, 2) - m(1, 2) * m(2, 1)) - m(0, 1) * (m(1, 0) * m(2, 2) - m(1, 2) * m(2, 0)) + m(0, 2) * (m(1, 0) * m(2, 1) - m(1, 1) * m(2, 0)); }
template <class M> static void prod1(const M& a, const M& b, int n, const char* id) { vp_assert(b.rows() == n && b.cols() == n, "inverse-size"); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double s = 0; for (int k = 0; k < n; k++) s += a(i, k) * b(k, j); vp_near(s, i == j, T, id); } }
template <class M> static void inv(const M& m0, int n) { M m = m0; const M& c = m; M g = c.GetInverse(); prod1(m0, g, n, "right-inverse"); prod1(g, m0, n, "left-inverse"); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) vp_near(m(i, j), m0(i, j), 0, "inverse-unchanged"); m.Inverse(); prod1(m0, m, n, "in-place-right"); prod1(m, m0, n, "in-place-left"); }
template <class M, class R> static void lus(const M& m, const R& b, int n, int c) { R x = m.LUSolver(b); vp_assert(x.rows() == n && x.cols() == c, "solution-size"); for (int i = 0; i < n; i++) for (int j = 0; j < c; j++) { double s = 0; for (int k = 0; k < n; k++) s += m(i, k) * x(k, j); vp_near(s, b(i, j), T, "lu-solves"); } }
template <class M, class R> static void qrs(const M& m, const R& b, int n, int c) { R x = m.QRSolver(b); vp_assert(x.rows() == n && x.cols() == c, "qr-solution-size"); for (int i = 0; i < n; i++) for (int j = 0; j < c; j++) { double s = 0; for (int k = 0; k < n; k++) s += m(i, k) * x(k, j); vp_near(s, b(i, j), T, "qr-solves"); } }
template <class M, class R> static void sol(const M& m, const R& b, int n, int c) { lus(m, b, n, c); qrs(m, b, n, c); }
VP_CASE(inverse_1) { MN m = symm<MN>("m", 1, 1); vp_assume(m(0, 0) >= 0.01 || m(0, 0) <= -0.01); inv(m, 1); }
VP_CASE(inverse_2) { MN m = symm<MN>("m", 2, 2); double d = det2(m); vp_assume(d >= 0.1 || d <= -0.1); inv(m, 2); }
// every permutation pattern: the entries of the pattern dominate, so that every pivot order occurs
static const int P3[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
template <class M> static M dom(int n, const int* p) { M m = Mk<M>::make(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m(i, j) = p[i] == j ? vp_symij("m", i, j, 4, 8) * ((i + j) % 2 ? -1 : 1) : vp_symij("m", i, j, -1, 1); return m; }
VP_CASES(inverse_n3, 6) { inv(dom<MN>(3, P3[vp_k]), 3); }
VP_CASE(inverse_3) { M3 m = symm<M3>("m", 3, 3); double d = det3(m); vp_assume(d >= 0.1 || d <= -0.1); inv(m, 3); }
VP_CASE(solve_1) { MN m = symm<MN>("m", 1, 1); vp_assume(m(0, 0) >= 0.01 || m(0, 0) <= -0.01); sol(m, symm<MN>("b", 1, 2), 1, 2); }
static const int P2[2][2] = {{0, 1}, {1, 0}};
VP_CASES(solve_2, 4) { sol(dom<MN>(2, P2[vp_k % 2]), symm<MN>("b", 2, vp_k / 2 + 1), 2, vp_k / 2 + 1); }
// dominant entries symbolic, the others fixed; right-hand side with one symbolic entry
template <class M> static M doms(int n, const int* p) { M m = Mk<M>::make(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m(i, j) = p[i] == j ? vp_symij("m", i, j, 4, 8) * ((i + j) % 2 ? -1 : 1) : 0.25 * ((i * 2 + j * 3) % 5 - 2); return m; }
template <class R> static R rhs(R r, int n, int c, int k) { for (int i = 0; i < n; i++) for (int j = 0; j < c; j++) r(i, j) = i == (k + j) % n ? vp_symij("b", i, j, -10, 10) : 1.5 - i + 2 * j; return r; }
VP_CASES(lu_n3, 6) { lus(doms<MN>(3, P3[vp_k]), rhs(MN(3, 1), 3, 1, vp_k % 3), 3, 1); }
VP_CASES(lu_3, 6) { lus(doms<M3>(3, P3[vp_k]), rhs(Vector3d<double>(), 3, 1, vp_k % 3), 3, 1); }
// a symbolic 2x2 block and a symbolic isolated entry, in every position
template <class M> static M blk(int n, int k) { int r = k / n % n, c = k % n, u = k / (n * n); M m = Mk<M>::make(n, n); int ri = 0; for (int i = 0; i < n; i++) { int ci = 0; for (int j = 0; j < n; j++) { if (i == r || j == c) m(i, j) = i == r && j == c ? vp_sym("p", 1, 3) : 0; else m(i, j) = ri < 2 && ci < 2 ? (ri == ci) == (u == 0) ? vp_symij("m", ri, ci, 4, 8) : vp_symij("m", ri, ci, -1, 1) : 0.5 * ((ri * 3 + ci * 2) % 4 - 1.5) + (ri == ci ? 3 : 0); if (j != c) ci++; } if (i != r) ri++; } return m; }
VP_CASES(blocks_n3, 18) { sol(blk<MN>(3, vp_k), rhs(MN(3, 1), 3, 1, vp_k / 3), 3, 1); }
VP_CASES(blocks_3, 18) { sol(blk<M3>(3, vp_k), rhs(M3(), 3, 3, 0), 3, 3); }
static const double A3[4][9] = {{1, 2, 3, 4, 5, 6, 7, 8, 10}, {0, 0, 2, -1, 0, 1, 3, 5, 0}, {1e-3, 2, -1, 40, 1, 1, 2, 0.5, 100}, {2, -1, 0, -1, 2, -1, 0, -1, 2}};
VP_CASES(dense_n3, 4) { sol(con<MN>(A3[vp_k], 3, 3), symm<MN>("b", 3, 2), 3, 2); }
VP_CASES(dense_3, 4) { M3 m = con<M3>(A3[vp_k], 3, 3); sol(m, symm<M3>("b", 3, 3), 3, 3); Vector3d<double> v(vp_symi("v", 0, -10, 10), vp_symi("v", 1, -10, 10), vp_symi("v", 2, -10, 10)); sol(m, v, 3, 1); }
static M6 base6(int k) { M6 m; for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) m(i, j) = 0.25 * ((i * 7 + j * 5 + i * j * (k + 1)) % 9 - 4) + ((i + k) % 6 == j ? (i % 2 ? 6 : -6) : 0); return m; }
static Vector6d<double> v6(int k) { return rhs(Vector6d<double>(), 6, 1, k); }
VP_CASES(dense_6, 18) { M6 m = base6(2 * (vp_k / 6)); sol(m, v6(vp_k % 6), 6, 1); if (vp_k % 6 == 0) inv(m, 6); }
VP_CASES(inverse_6, 3) { M6 m = base6(vp_k); m(vp_k, 5 - vp_k) = vp_sym("x", -2, 2); inv(m, 6); }
VP_CASES(lu_6, 3) { M6 m = base6(vp_k); m(vp_k, 5 - vp_k) = vp_sym("x", -2, 2); Vector6d<double> b; b.SetNull(); b(vp_k) = vp_sym("b", 0.5, 10); lus(m, b, 6, 1); }
// matrices of every scale, badly scaled rows, nearly dependent rows, larger sizes: any right-hand side
static const double SC[4] = {1e-9, 1e-4, 1e4, 1e9};
template <class M> static M scaled(M m, int n, double s) { for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m(i, j) *= s; return m; }
template <class M, class R> static void sols(const M& m, const R& b, int n, int c, double tol) { R x = m.LUSolver(b), y = m.QRSolver(b); vp_assert(x.rows() == n && x.cols() == c && y.rows() == n && y.cols() == c, "solution-size"); for (int i = 0; i < n; i++) for (int j = 0; j < c; j++) { double s = 0, q = 0; for (int k = 0; k < n; k++) { s += m(i, k) * x(k, j); q += m(i, k) * y(k, j); } vp_near(s, b(i, j), tol, "lu-solves-scaled"); vp_near(q, b(i, j), tol, "qr-solves-scaled"); } }
VP_CASES(scale_n3, 12) { MN m = scaled(con<MN>(A3[vp_k / 4 == 1 ? 1 : vp_k / 4 == 2 ? 3 : 0], 3, 3), 3, SC[vp_k % 4]); inv(m, 3); sols(m, symm<MN>("b", 3, 2), 3, 2, T); }
VP_CASES(scale_3, 8) { M3 m = scaled(con<M3>(A3[vp_k / 4], 3, 3), 3, SC[vp_k % 4]); inv(m, 3); sols(m, symm<M3>("b", 3, 3), 3, 3, T); Vector3d<double> v(vp_symi("v", 0, -10, 10), vp_symi("v", 1, -10, 10), vp_symi("v", 2, -10, 10)); sols(m, v, 3, 1, T); }
VP_CASES(scale_6, 4) { M6 m = scaled(base6(vp_k), 6, SC[vp_k]); inv(m, 6); sols(m, v6(vp_k), 6, 1, T); }
static const double ILL[8][9] = {{1, 0, 0, 0, 1e-4, 0, 0, 0, 1e-7}, {1, 1, 1, 1, 1.00001, 1, 1, 1, 1.001}, {1, 2, 3, 4, 5, 6, 7, 8, 9.0001}, {0, 0, 1e-5, 1, 0, 0, 0, 1e3, 0}, {1e5, 2, 1, 3, 1e-3, 0, 0, 2, 1}, {1, 0.5, 0.333333, 0.5, 0.333333, 0.25, 0.333333, 0.25, 0.2}, {1e-6, 1, 0, 1, 1, 0, 0, 1, 1e-5}, {-1, 2e-6, 0, 3, 0, 1e-6, 0, 5, 1}};
VP_CASES(ill_n3, 8) { sols(con<MN>(ILL[vp_k], 3, 3), symm<MN>("b", 3, 1), 3, 1, 1e-5); }
VP_CASES(ill_3, 8) { M3 m = con<M3>(ILL[vp_k], 3, 3); Vector3d<double> v(vp_symi("v", 0, -10, 10), vp_symi("v", 1, -10, 10), vp_symi("v", 2, -10, 10)); sols(m, v, 3, 1, 1e-5); }
VP_CASES(ill_6, 6) { M6 m = base6(vp_k % 3); for (int j = 0; j < 6; j++) m(vp_k, j) *= vp_k < 3 ? 1e-5 : 1e5; sols(m, v6(vp_k), 6, 1, 1e-5); }
VP_CASES(large_n, 12) { int n = 4 + vp_k % 4, v = vp_k / 4; MN m(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m(i, j) = v == 2 ? 1.0 / (1 + i + j) + (i == n - 1 - j ? 1 : 0) : 0.25 * ((i * 7 + j * 5 + i * j * (v + 1)) % 9 - 4) + ((i + v) % n == j ? (i % 2 ? 6 : -6) : 0); inv(m, n); sols(m, symm<MN>("b", n, 1 + v), n, 1 + v, T); }
// much larger systems: any right-hand side
VP_CASES(very_large_n, 6) { static const int L[6] = {9, 10, 12, 16, 17, 20}; int n = L[vp_k]; MN m(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m(i, j) = 0.25 * ((i * 7 + j * 5 + i * j * 3) % 9 - 4) + ((i + vp_k) % n == j ? (i % 2 ? 8 : -8) : 0); inv(m, n); MN b(n, 2); for (int i = 0; i < n; i++) { b(i, 0) = vp_symi("b", i, -10, 10); b(i, 1) = i == n - 1 ? vp_sym("c", -10, 10) : 0.5 * i - 2; } sols(m, b, n, 2, T); }
