// C38: matrix predicates and structural operations
#include "mat_common.h"
template <class M> static void structure(int r, int c) {
  M m = symm<M>("m", r, c); const M& k = m; auto s = [&](int i, int j) { return vp_symij("m", i, j, -10, 10); };
  vp_assert((int)m.GetNbRows() == r && (int)m.GetNbCols() == c, "sizes"); vp_assert(m.IsSquare() == (r == c), "square");
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { vp_near(k.at(i, j), s(i, j), 0, "at-const"); vp_near(m.at(i, j), s(i, j), 0, "at"); }
  for (int j = 0; j < c; j++) { auto col = k.GetColumn(j); vp_assert(col.rows() == r && col.cols() == 1, "column-size"); for (int i = 0; i < r; i++) vp_near(col(i, 0), s(i, j), 0, "column"); }
  for (int i = 0; i < r; i++) { auto row = k.GetRow(i); vp_assert(row.rows() == 1 && row.cols() == c, "row-size"); for (int j = 0; j < c; j++) vp_near(row(0, j), s(i, j), 0, "row"); }
  { auto d = k.GetDiag(); int n = r < c ? r : c; vp_assert((int)d.size() == n, "diagonal-size"); for (int i = 0; i < n; i++) vp_near(d(i), s(i, i), 0, "diagonal"); }
  { M t = Transpose(k); vp_assert(t.rows() == c && t.cols() == r, "transposed-size"); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) vp_near(t(j, i), s(i, j), 0, "transposed"); }
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) vp_near(m(i, j), s(i, j), 0, "unchanged");
  m.at(r - 1, 0) = 77; for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) vp_near(m(i, j), i == r - 1 && j == 0 ? 77 : s(i, j), 0, "write"); m.at(r - 1, 0) = s(r - 1, 0);
  m.Transpose(); vp_assert(m.rows() == c && m.cols() == r, "transpose-size"); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) vp_near(m(j, i), s(i, j), 0, "transpose-in-place");
  m.Transpose(); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) vp_near(m(i, j), s(i, j), 0, "transpose-twice");
  m.SetNull(); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) vp_near(m(i, j), 0, 0, "null"); vp_assert(m.rows() == r && m.cols() == c, "null-size");
  m.SetIdentity(); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) vp_near(m(i, j), i == j, 0, "set-identity"); vp_assert(m.rows() == r && m.cols() == c, "identity-size"); if (r == c) vp_assert(m.IsIdentity(), "identity-is-identity");
}
VP_CASES(structure_n, 49) { structure<MN>(vp_k / 7 + 1, vp_k % 7 + 1); }
VP_CASE(structure_3) { structure<M3>(3, 3); }
VP_CASE(structure_6) { structure<M6>(6, 6); }
template <class M> static void sym(int n) {
  M m = symm<M>("m", n, n); M u = MakeSymmetricFromUpper(m), l = MakeSymmetricFromLower(m); vp_assert(u.rows() == n && u.cols() == n && l.rows() == n && l.cols() == n, "symmetrised-size");
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { int a = i < j ? i : j, b = i < j ? j : i; vp_near(u(i, j), vp_symij("m", a, b, -10, 10), 0, "from-upper"); vp_near(l(i, j), vp_symij("m", b, a, -10, 10), 0, "from-lower"); vp_near(m(i, j), vp_symij("m", i, j, -10, 10), 0, "symmetrised-unchanged"); }
  vp_assert(u.IsSymmetric(), "symmetric-upper"); vp_assert(l.IsSymmetric(), "symmetric-lower");
}
VP_CASES(symmetrise_n, 9) { sym<MN>(vp_k + 1); }
VP_CASE(symmetrise_3) { sym<M3>(3); }
VP_CASE(symmetrise_6) { sym<M6>(6); }
// a matrix with one off-diagonal pair differing noticeably is not symmetric
template <class M> static void notsym(int n, int k) { int t = 0; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (t++ == k) { M m = symm<M>("m", n, n); double d = m(i, j) - m(j, i); vp_assume(d >= 0.001 || d <= -0.001); vp_assert(!m.IsSymmetric(), "not-symmetric"); } }
VP_CASE(asymmetric_2) { notsym<MN>(2, 0); }
VP_CASES(asymmetric_n3, 3) { notsym<MN>(3, vp_k); }
VP_CASES(asymmetric_3, 3) { notsym<M3>(3, vp_k); }
VP_CASES(asymmetric_6, 15) { int t = 0; for (int i = 0; i < 6; i++) for (int j = i + 1; j < 6; j++) if (t++ == vp_k) { M6 m; for (int a = 0; a < 6; a++) for (int b = a; b < 6; b++) m(a, b) = m(b, a) = a == i && b == j ? vp_sym("m", -10, 10) : a == b && a == i ? vp_sym("p", -10, 10) : 0.5 * ((a * 3 + b) % 5 - 2); double d = vp_sym("d", -5, 5); vp_assume(d >= 0.001 || d <= -0.001); m(i, j) += d; vp_assert(!m.IsSymmetric(), "not-symmetric-6"); } }
VP_CASES(asymmetric_rect, 2) { MN m = symm<MN>("m", 2 + vp_k, 3 - vp_k); vp_assert(!m.IsSymmetric(), "rectangular-not-symmetric"); vp_assert(!m.IsOrthogonal(), "rectangular-not-orthogonal"); }
// identity: one entry off by a visible amount, or every entry within a fraction of the tolerance
template <class M> static void notid(int n, int k) { M m = symm<M>("m", n, n, -3, 3); int i = k / n, j = k % n; double d = m(i, j) - (i == j); vp_assume(d >= 0.001 || d <= -0.001); vp_assert(!m.IsIdentity(), "not-identity"); }
VP_CASES(notidentity_n, 4) { notid<MN>(2, vp_k); }
VP_CASES(notidentity_3, 9) { notid<M3>(3, vp_k); }
VP_CASES(notidentity_6, 36) { M6 m; m.SetIdentity(); double d = vp_sym("d", -3, 3); vp_assume(d >= 0.001 || d <= -0.001); m(vp_k / 6, vp_k % 6) += d; vp_assert(!m.IsIdentity(), "not-identity-6"); }
VP_CASES(identity_eps, 3) { int n = vp_k + 1; MN m(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m(i, j) = (i == j) + vp_symij("d", i, j, -0.04, 0.04); vp_assert(m.IsIdentity(0.05), "identity-within"); vp_assert(n < 2 || !m.IsIdentity(1e-13) || m(0, 0) - 1 < 0.01, "identity-outside"); }
VP_CASES(notidentity_eps, 9) { MN m(3, 3); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m(i, j) = (i == j) + vp_symij("d", i, j, -0.04, 0.04); double e = vp_sym("e", 0.08, 0.5); m(vp_k / 3, vp_k % 3) = (vp_k / 3 == vp_k % 3) + (vp_int("sign", 0, 1) ? e : -e); vp_assert(!m.IsIdentity(0.05), "identity-beyond"); }
// orthogonality: rotations and reflections of any angle; columns of norm or product visibly off
template <class M> static M rot(int n, int p, int q, double a, int flip) { M m = Mk<M>::make(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m(i, j) = i == j; m(p, p) = m(q, q) = std::cos(a); m(p, q) = -std::sin(a); m(q, p) = std::sin(a); if (flip >= 0) for (int i = 0; i < n; i++) m(i, flip) = -m(i, flip); return m; }
VP_CASES(orthogonal_n, 9) { int t = vp_k % 3; MN m = rot<MN>(3, t == 2, t == 0 ? 1 : 2, vp_sym("a", -3.2, 3.2), vp_k / 3 - 1); vp_assert(m.IsOrthogonal(), "orthogonal"); }
VP_CASES(orthogonal_3, 9) { int t = vp_k % 3; M3 m = rot<M3>(3, t == 2, t == 0 ? 1 : 2, vp_sym("a", -3.2, 3.2), vp_k / 3 - 1); vp_assert(m.IsOrthogonal(), "orthogonal-3"); }
VP_CASES(orthogonal_6, 5) { M6 m = rot<M6>(6, vp_k, vp_k + 1, vp_sym("a", -3.2, 3.2), vp_k % 3 - 1); vp_assert(m.IsOrthogonal(), "orthogonal-6"); }
VP_CASE(orthogonal_product) { M3 a = rot<M3>(3, 0, 1, vp_sym("a", -3.2, 3.2), -1), b = rot<M3>(3, 1, 2, vp_sym("b", -3.2, 3.2), 0); M3 m = a * b; vp_assert(m.IsOrthogonal(), "orthogonal-product"); }
template <class M> static void notorth(int n, int k) { M m = symm<M>("m", n, n, -3, 3); int i = k / n, j = k % n; double s = 0; for (int l = 0; l < n; l++) s += m(l, i) * m(l, j); if (i == j) s -= 1; vp_assume(s >= 0.01 || s <= -0.01); vp_assert(!m.IsOrthogonal(), "not-orthogonal"); }
VP_CASES(notorthogonal_n, 4) { notorth<MN>(2, vp_k); }
VP_CASES(notorthogonal_6, 12) { M6 m; m.SetIdentity(); double d = vp_sym("d", -3, 3); if (vp_k < 6) { vp_assume((d + 1) * (d + 1) >= 1.01 || (d + 1) * (d + 1) <= 0.99); m(vp_k, vp_k) += d; } else { vp_assume(d >= 0.02 || d <= -0.02); m(vp_k - 6, (vp_k + 1) % 6) += d; } vp_assert(!m.IsOrthogonal(), "not-orthogonal-6"); }
VP_CASES(notorthogonal_3, 9) { M3 m = rot<M3>(3, 0, 1, 0.5, -1); m(vp_k / 3, vp_k % 3) += vp_sym("d", 0.05, 3); double s = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) s += m(i, j) * m(i, j); vp_assume(s >= 3.02); vp_assert(!m.IsOrthogonal(), "not-orthogonal-3"); }
// comparison against the definition, away from its boundary; default tolerance: equal matrices, visibly different ones
template <class M> static void eq(int r, int c, double tol) { M a = symm<M>("a", r, c), b = symm<M>("b", r, c); bool e = a.IsEqual(b, tol); double d = 0, x = 0, y = 0; for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { d += (a(i, j) - b(i, j)) * (a(i, j) - b(i, j)); x += a(i, j) * a(i, j); y += b(i, j) * b(i, j); } double m = x < y ? x : y, g = d - tol * tol * m; vp_assume(g > 1e-6 || g < -1e-6); vp_assert(e == (g < 0), "equal"); }
VP_CASES(equal_n, 4) { eq<MN>(vp_k / 2 + 1, vp_k % 2 + 1, 0.25); }
// fixed sizes: two entries symbolic, the others fixed
template <class M> static void eqf(int n, int k) { M a = Mk<M>::make(n, n), b = a; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { a(i, j) = 0.25 * ((i * 5 + j * 3) % 7 - 3); b(i, j) = a(i, j) + 0.125 * ((i + j) % 2); } a(k / n, k % n) = vp_sym("x", -10, 10); b(n - 1, 0) = vp_sym("y", -10, 10); double tol = 0.25; bool e = a.IsEqual(b, tol); double d = 0, x = 0, y = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { d += (a(i, j) - b(i, j)) * (a(i, j) - b(i, j)); x += a(i, j) * a(i, j); y += b(i, j) * b(i, j); } double m = x < y ? x : y, g = d - tol * tol * m; vp_assume(g > 1e-6 || g < -1e-6); vp_assert(e == (g < 0), "equal-fixed"); }
VP_CASES(equal_3, 9) { eqf<M3>(3, vp_k); }
VP_CASES(equal_6, 6) { eqf<M6>(6, 7 * vp_k); }
template <class M> static void eqd(int n, int k) { M a = symm<M>("a", n, n), b = a; vp_assert(a.IsEqual(b), "equal-same"); double d = vp_sym("d", 0.001, 5); b(k / n, k % n) += d; vp_assert(!a.IsEqual(b) && !b.IsEqual(a), "equal-different"); }
VP_CASES(equal_default_n, 4) { eqd<MN>(2, vp_k); }
VP_CASES(equal_default_3, 9) { eqd<M3>(3, vp_k); }
VP_CASES(equal_default_6, 6) { eqd<M6>(6, 5 * vp_k + 3); }
// other magnitudes (comparison and symmetry are relative), small deviations, larger matrices
static const double SC[6] = {1e-12, 1e-6, 1e-3, 1e3, 1e6, 1e12};
template <class M> static void symscale(int n, double s) { M m = Mk<M>::make(n, n); for (int i = 0; i < n; i++) for (int j = i; j < n; j++) m(i, j) = m(j, i) = s * vp_symij("m", i, j, -10, 10); vp_assert(m.IsSymmetric(), "symmetric-scaled"); M t = m; vp_assert(m.IsEqual(t), "equal-scaled"); }
VP_CASES(symmetric_scaled_n, 6) { symscale<MN>(3, SC[vp_k]); }
VP_CASES(symmetric_scaled_3, 6) { symscale<M3>(3, SC[vp_k]); }
VP_CASES(symmetric_scaled_6, 2) { symscale<M6>(6, SC[vp_k ? 0 : 5]); }
template <class M> static void asymscale(int n, double s, double rel, int k) { M m = Mk<M>::make(n, n); for (int i = 0; i < n; i++) for (int j = i; j < n; j++) m(i, j) = m(j, i) = s * 0.25 * ((i * 3 + j) % 5 - 2 + (i == j ? 4 : 0)); int t = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j && t++ == k) { M o = m; double d = vp_sym("d", 1, 1000) * rel * s; m(i, j) += d; vp_assert(!m.IsSymmetric(), "asymmetric-scaled"); vp_assert(!m.IsEqual(o) && !o.IsEqual(m), "different-scaled"); m(j, i) += d; vp_assert(m.IsSymmetric(), "symmetric-again"); } }
VP_CASES(asymmetric_scaled_n, 42) { asymscale<MN>(3, vp_k < 36 ? SC[vp_k % 6] : 1, vp_k < 36 ? 1e-3 : 1e-7, vp_k < 36 ? vp_k / 6 : vp_k - 36); }
VP_CASES(asymmetric_scaled_3, 42) { asymscale<M3>(3, vp_k < 36 ? SC[vp_k % 6] : 1, vp_k < 36 ? 1e-3 : 1e-7, vp_k < 36 ? vp_k / 6 : vp_k - 36); }
VP_CASES(asymmetric_scaled_6, 30) { asymscale<M6>(6, SC[vp_k % 6], vp_k % 2 ? 1e-3 : 1e-7, vp_k); }
template <class M> static void smalldev(int n, int k) { M m = Mk<M>::make(n, n); m.SetIdentity(); double d = vp_sym("d", 1e-7, 1e-3), g = k % 2 ? -d : d; int i = k / n, j = k % n; m(i, j) += g; vp_assert(!m.IsIdentity(), "small-not-identity"); vp_assert(!m.IsOrthogonal(), "small-not-orthogonal"); M e = Mk<M>::make(n, n); e.SetIdentity(); vp_assert(!m.IsEqual(e), "small-not-equal"); if (i != j) vp_assert(!m.IsSymmetric(), "small-not-symmetric"); }
VP_CASES(small_n, 9) { smalldev<MN>(3, vp_k); }
VP_CASES(small_3, 9) { smalldev<M3>(3, vp_k); }
VP_CASES(small_6, 36) { smalldev<M6>(6, vp_k); }
template <class M> static void eqscale(int n, double s, double tol) { M a = Mk<M>::make(n, n), b = a; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { a(i, j) = s * 0.25 * ((i * 5 + j * 3) % 7 - 3); b(i, j) = a(i, j); } double x = vp_sym("x", -10, 10), y = vp_sym("y", -10, 10); a(0, 0) = s * x; b(0, 0) = s * y; bool e = a.IsEqual(b, tol); double d = (x - y) * (x - y), p = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i || j) p += 0.0625 * ((i * 5 + j * 3) % 7 - 3) * ((i * 5 + j * 3) % 7 - 3); double q = p + (x * x < y * y ? x * x : y * y), g = d - tol * tol * q; vp_assume(g > 1e-6 || g < -1e-6); vp_assert(e == (g < 0), "equal-any-scale"); }
VP_CASES(equal_scales_n, 12) { eqscale<MN>(2 + vp_k / 6, SC[vp_k % 6], 0.25); }
VP_CASES(equal_scales_3, 6) { eqscale<M3>(3, SC[vp_k], 0.5); }
VP_CASES(equal_scales_6, 4) { eqscale<M6>(6, SC[1 + vp_k], 0.125); }
VP_CASES(large_structure, 4) { static const int D[4][2] = {{8, 12}, {12, 8}, {16, 3}, {9, 9}}; structure<MN>(D[vp_k][0], D[vp_k][1]); }
VP_CASE(scaled_not_orthogonal) { double a = vp_sym("a", -3.2, 3.2), f = vp_sym("f", 0.1, 3); vp_assume((f - 1) * (f - 1) > 1e-6); M3 m = rot<M3>(3, 0, 1, a, -1); M3 k = m; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) k(i, j) *= f; vp_assert(!k.IsOrthogonal(), "scaled-rotation"); MN n = rot<MN>(2, 0, 1, a, -1); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) n(i, j) *= f; vp_assert(!n.IsOrthogonal(), "scaled-rotation-n"); }
VP_CASES(permutations, 6) { static const int P[6][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {0, 2, 1}, {2, 1, 0}, {1, 0, 2}}; M3 m; MN n(3, 3); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m(i, j) = n(i, j) = P[vp_k][i] == j ? (i == 1 ? -1 : 1) : 0; vp_assert(m.IsOrthogonal() && n.IsOrthogonal(), "permutation-orthogonal"); vp_assert(!m.IsIdentity() && !n.IsIdentity(), "permutation-not-identity"); }
VP_CASES(very_large_structure, 3) { static const int D[3][2] = {{20, 33}, {40, 17}, {33, 33}}; structure<MN>(D[vp_k][0], D[vp_k][1]); if (D[vp_k][0] == D[vp_k][1]) sym<MN>(33); }
VP_CASES(very_large_predicates, 8) { int n = vp_k < 4 ? 10 : 20, w = vp_k % 4, i = w == 0 ? 0 : w == 1 ? n - 1 : w == 2 ? n / 2 : 8, j = w == 0 ? n - 1 : w == 1 ? n - 2 : w == 2 ? n / 2 - 1 : 9; MN m(n, n); m.SetIdentity(); vp_assert(m.IsIdentity() && m.IsSymmetric() && m.IsOrthogonal(), "large-identity"); double d = vp_sym("d", -3, 3); vp_assume(d >= 0.001 || d <= -0.001); MN e = m; e(i, j) = d; vp_assert(!e.IsIdentity(), "large-not-identity"); vp_assert(!e.IsSymmetric(), "large-not-symmetric"); vp_assert(!e.IsOrthogonal(), "large-not-orthogonal"); vp_assert(!e.IsEqual(m), "large-not-equal"); MN f = m; f(i, i) += d; vp_assert(!f.IsIdentity(), "large-diagonal"); vp_assert(f.IsSymmetric(), "large-diagonal-symmetric"); }
