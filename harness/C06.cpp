// C06: N-dimensional grid interpolation is clamped multilinear interpolation
#include "vp.h"
#include <cassert>
#include "MathUtils/RegularGridInterpolator.h"
#include "grid_common.h"
using namespace mathutils;
template <int N> static void fill(RegularGridInterpolator<double, N>& f, const SymGrid<N>& g) { for (int d = 0; d < N; d++) f.AddCoord(g.ax[d]); f.AddVar(g.data); }
// reference: clamp each coordinate, then blend the corners
template <int N> static double blend(const SymGrid<N>& g, const std::array<int, N>& cell, const std::array<double, N>& p) {
  double r = 0;
  for (int v = 0; v < (1 << N); v++) { double w = 1; std::array<int, N> ix; bool zero = false;
    for (int d = 0; d < N; d++) { int up = (v >> d) & 1, c = cell[d], n = g.s[d];
      if (c < 0) { ix[d] = 0; if (up) zero = true; } else if (c >= n - 1) { ix[d] = n - 1; if (up) zero = true; }
      else { double t = (p[d] - g.ax[d][c]) / (g.ax[d][c + 1] - g.ax[d][c]); ix[d] = c + up; w *= up ? t : 1 - t; } }
    if (!zero) r += w * g.at(ix); }
  return r;
}
template <int N> static void run(const std::array<int, N>& s) {
  SymGrid<N> g(s); RegularGridInterpolator<double, N> f; fill<N>(f, g);
  std::array<int, N> cell; std::array<double, N> p; bool out = false;
  for (int d = 0; d < N; d++) { cell[d] = (int)vp_pick(vp_cellname(d), -1, s[d] - 1); p[d] = vp_coord(d, g.ax[d], cell[d]); }
  vp_near(f.Interp(p), blend<N>(g, cell, p), 1e-5, "value");
  for (int d = 0; d < N; d++) if (p[d] < g.ax[d][0] || p[d] > g.ax[d][s[d] - 1]) out = true;
  bool thrown = false; double v = 0; try { v = f.Interp(p, true); } catch (const std::exception&) { thrown = true; }
  vp_assert(thrown == out, "bound-check"); if (!thrown) vp_near(v, blend<N>(g, cell, p), 1e-5, "value-checked");
}
VP_CASES(dim1, VP_THOROUGH ? 6 : 4) { run<1>({1 + vp_k}); }
static const int S2 = VP_THOROUGH ? 4 : 3;
VP_CASES(dim2, S2 * S2) { run<2>({1 + vp_k / S2, 1 + vp_k % S2}); }
VP_CASES(dim3, VP_THOROUGH ? 4 : 2) { static const int S[4][3] = {{2, 2, 2}, {1, 3, 2}, {3, 2, 2}, {2, 3, 3}}; run<3>({S[vp_k][0], S[vp_k][1], S[vp_k][2]}); }
#if VP_THOROUGH
VP_CASE(dim4) { run<4>({2, 2, 2, 2}); }
#endif
// node values by query and by index; reported structure
template <int N> static void nodes(const std::array<int, N>& s) {
  SymGrid<N> g(s); RegularGridInterpolator<double, N> f; vp_assert(!f.IsValid(), "valid-empty"); fill<N>(f, g); vp_assert(f.IsValid(), "valid-filled");
  vp_assert(f.GetDimension() == N, "dimension"); std::array<int, N> ix; std::array<size_t, N> ui; std::array<double, N> p;
  for (int d = 0; d < N; d++) { ix[d] = (int)vp_pick(vp_cellname(d), 0, s[d] - 1); ui[d] = ix[d]; p[d] = g.ax[d][ix[d]]; auto c = f.GetCoord(d); vp_assert((int)c.size() == s[d], "axis-size"); for (int i = 0; i < s[d]; i++) vp_near(c[i], g.ax[d][i], 0, "axis");
    vp_near(f.GetCoordMinVal(d), g.ax[d][0], 0, "axis-min"); vp_near(f.GetCoordMaxVal(d), g.ax[d][s[d] - 1], 0, "axis-max"); }
  vp_near(f.EvalAtIndice(ui), g.at(ix), 0, "node-by-index"); vp_near(f.Interp(p), g.at(ix), 1e-5, "node-by-query"); vp_near(f.Interp(p, true), g.at(ix), 1e-5, "node-by-checked-query");
}
VP_CASE(nodes1) { nodes<1>({4}); }
VP_CASES(nodes2, 2) { nodes<2>({2 + vp_k, 3}); }
VP_CASE(nodes3) { nodes<3>({2, 3, 2}); }
// rejection of axes that do not increase
VP_CASES(axis_check, 3) {
  int n = 2 + vp_k; RegularGridInterpolator<double, 2> f; auto x = vp_vec("x", n, -5, 5); bool inc = true; for (int i = 1; i < n; i++) if (!(x[i] > x[i - 1])) inc = false;
  bool thrown = false; try { f.AddCoord(x); } catch (const std::exception&) { thrown = true; } vp_assert(thrown == !inc, "axis-rejected");
}
VP_CASE(too_many_axes) { RegularGridInterpolator<double, 2> f; auto x = vp_axis("x0", "h", 2); f.AddCoord(x); f.AddCoord(x); vp_exit_begin("superfluous-axis", EXIT_FAILURE); f.AddCoord(x); vp_exit_end(); }
VP_CASES(too_few_axes, 2) { RegularGridInterpolator<double, 2> f; auto x = vp_axis("x0", "h", 2); for (int i = 0; i < vp_k; i++) f.AddCoord(x); boost::multi_array<double, 2> d(boost::extents[2][2]); vp_exit_begin("missing-axis", EXIT_FAILURE); f.AddVar(d); vp_exit_end(); }
VP_CASES(bad_index, 3) { RegularGridInterpolator<double, 2> f; SymGrid<2> g({2, 2}); fill<2>(f, g); unsigned i = (unsigned)vp_pick("index", 2, 4); vp_exit_begin("index-refused", EXIT_FAILURE); if (vp_k == 0) f.GetCoord(i); else if (vp_k == 1) f.GetCoordMinVal(i); else f.GetCoordMaxVal(i); vp_exit_end(); }
// giving new data to a filled interpolator
VP_CASE(newdata) { SymGrid<2> g({2, 2}), o({2, 2}, "o"); RegularGridInterpolator<double, 2> f; for (int d = 0; d < 2; d++) f.AddCoord(g.ax[d]); f.AddVar(o.data); f.AddVar(g.data);
  std::array<int, 2> cell; std::array<double, 2> p; for (int d = 0; d < 2; d++) { cell[d] = (int)vp_pick(vp_cellname(d), -1, 1); p[d] = vp_coord(d, g.ax[d], cell[d]); } vp_near(f.Interp(p), blend<2>(g, cell, p), 1e-5, "newdata-value"); }
VP_CASE(dim4q) { std::array<int, 4> s = {2, 1, 2, 2}; SymGrid<4> g(s); RegularGridInterpolator<double, 4> f; fill<4>(f, g); std::array<int, 4> cell; std::array<double, 4> p; for (int d = 0; d < 4; d++) { cell[d] = d == 1 ? 0 : 0; p[d] = d == 1 ? vp_sym("p1", -50, 50) : g.ax[d][0] + vp_symi("s", d, 0, 1) * (g.ax[d][1] - g.ax[d][0]); } 
  double r = 0; for (int v = 0; v < 8; v++) { int b[3] = {v & 1, (v >> 1) & 1, (v >> 2) & 1}; double w = 1; int dd[3] = {0, 2, 3}; for (int k = 0; k < 3; k++) { double t = vp_symi("s", dd[k], 0, 1); w *= b[k] ? t : 1 - t; } r += w * g.at({b[0], 0, b[1], b[2]}); } vp_near(f.Interp(p), r, 1e-4, "dim4-value"); }
// long axes: every cell
VP_CASES(long_axis, 2) { int n = vp_k ? 17 : 9; std::array<int, 1> s = {n}; SymGrid<1> g(s); RegularGridInterpolator<double, 1> f; fill<1>(f, g); std::array<int, 1> cell; std::array<double, 1> p; cell[0] = (int)vp_pick("cell0", -1, n - 1); p[0] = vp_coord(0, g.ax[0], cell[0]); vp_near(f.Interp(p), blend<1>(g, cell, p), 1e-5, "long-value"); bool out = p[0] < g.ax[0][0] || p[0] > g.ax[0][n - 1], thrown = false; try { f.Interp(p, true); } catch (const std::exception&) { thrown = true; } vp_assert(thrown == out, "long-bound-check"); }
VP_CASES(wide, 2) { std::array<int, 2> s = {vp_k ? 2 : 8, vp_k ? 9 : 3}; SymGrid<2> g(s); RegularGridInterpolator<double, 2> f; fill<2>(f, g); std::array<int, 2> cell; std::array<double, 2> p; for (int d = 0; d < 2; d++) { int w = (int)vp_pick(vp_cellname(d), 0, 3); cell[d] = w == 0 ? -1 : w == 1 ? s[d] / 2 - 1 : w == 2 ? s[d] - 2 : s[d] - 1; p[d] = vp_coord(d, g.ax[d], cell[d]); } vp_near(f.Interp(p), blend<2>(g, cell, p), 1e-5, "wide-value"); }
// histories of queries: anywhere first, checked or not, then the one that counts
VP_CASES(sequence, 2) { std::array<int, 2> s = {3, 2}; SymGrid<2> g(s); RegularGridInterpolator<double, 2> f; fill<2>(f, g); std::array<double, 2> q, p; q[0] = vp_sym("q0", -60, 60); q[1] = vp_sym("q1", -60, 60); if (vp_k) { try { f.Interp(q, true); } catch (const std::exception&) {} } else f.Interp(q);
  std::array<int, 2> cell; for (int d = 0; d < 2; d++) { cell[d] = (int)vp_pick(vp_cellname(d), -1, s[d] - 1); p[d] = vp_coord(d, g.ax[d], cell[d]); } vp_near(f.Interp(p), blend<2>(g, cell, p), 1e-5, "sequence-value"); }
static const double SC[4] = {1e-8, 1e-3, 1e4, 1e9};
VP_CASES(scales, 16) { double sx = SC[vp_k % 4], sy = SC[(vp_k / 4 + vp_k) % 4], sd = vp_k / 8 ? 1e10 : 1e-10; if (vp_k / 4 == 1) sy = 1; if (vp_k / 4 == 2) sx = 1; std::array<int, 2> s = {2, 3}; SymGrid<2> g(s); RegularGridInterpolator<double, 2> f; auto a = g.ax[0], b = g.ax[1]; for (auto& e : a) e *= sx; for (auto& e : b) e *= sy; f.AddCoord(a); f.AddCoord(b); auto D = g.data; for (int i = 0; i < 6; i++) D.data()[i] *= sd; f.AddVar(D);
  std::array<int, 2> cell; std::array<double, 2> p, q; for (int d = 0; d < 2; d++) { cell[d] = (int)vp_pick(vp_cellname(d), -1, s[d] - 1); p[d] = vp_coord(d, g.ax[d], cell[d]); q[d] = p[d] * (d ? sy : sx); } vp_near(f.Interp(q) / sd, blend<2>(g, cell, p), 1e-5, "scaled-value");
  bool out = false, thrown = false; for (int d = 0; d < 2; d++) if (p[d] < g.ax[d][0] || p[d] > g.ax[d][s[d] - 1]) out = true; try { f.Interp(q, true); } catch (const std::exception&) { thrown = true; } vp_assert(thrown == out, "scaled-bound-check"); }
// what the caller does with its vectors and arrays afterwards does not matter; two interpolators share nothing
VP_CASE(independent) { std::array<int, 2> s = {2, 2}; SymGrid<2> g(s); RegularGridInterpolator<double, 2> f, h; std::vector<double> a = g.ax[0], b = g.ax[1]; boost::multi_array<double, 2> D = g.data; f.AddCoord(a); f.AddCoord(b); f.AddVar(D); SymGrid<2> o(s, "o"); fill<2>(h, o); for (auto& e : a) e = 0; for (auto& e : b) e = 1; for (int i = 0; i < 4; i++) D.data()[i] = 5;
  std::array<int, 2> cell; std::array<double, 2> p; for (int d = 0; d < 2; d++) { cell[d] = (int)vp_pick(vp_cellname(d), -1, 1); p[d] = vp_coord(d, g.ax[d], cell[d]); } vp_near(f.Interp(p), blend<2>(g, cell, p), 1e-5, "independent-value"); std::array<size_t, 2> ix = {1, 0}; vp_near(h.EvalAtIndice(ix), o.at({1, 0}), 0, "independent-other"); }
VP_CASE(extra_axis_after_data) { RegularGridInterpolator<double, 2> f; SymGrid<2> g({2, 2}); fill<2>(f, g); vp_exit_begin("superfluous-axis-later", EXIT_FAILURE); f.AddCoord(g.ax[0]); vp_exit_end(); }
// a rejected axis is not kept
VP_CASE(rejected_not_kept) { RegularGridInterpolator<double, 2> f; SymGrid<2> g({2, 2}); f.AddCoord(g.ax[0]); std::vector<double> bad = {vp_sym("u", 0, 1), vp_sym("v", -1, 0)}; bool thrown = false; try { f.AddCoord(bad); } catch (const std::exception&) { thrown = true; } vp_assert(thrown, "rejected"); f.AddCoord(g.ax[1]); f.AddVar(g.data); std::array<int, 2> cell; std::array<double, 2> p; for (int d = 0; d < 2; d++) { cell[d] = (int)vp_pick(vp_cellname(d), -1, 1); p[d] = vp_coord(d, g.ax[d], cell[d]); } vp_near(f.Interp(p), blend<2>(g, cell, p), 1e-5, "rejected-then-value"); }
// data whose shape does not match the axes
VP_CASES(shape_mismatch, 3) { RegularGridInterpolator<double, 2> f; SymGrid<2> g({2, 3}); for (int d = 0; d < 2; d++) f.AddCoord(g.ax[d]); boost::multi_array<double, 2> D(boost::extents[vp_k == 0 ? 3 : 2][vp_k == 1 ? 2 : vp_k == 2 ? 4 : 3]); for (size_t i = 0; i < D.num_elements(); i++) D.data()[i] = 1; bool thrown = false; try { f.AddVar(D); } catch (const std::exception&) { thrown = true; } vp_assert(thrown, "shape-refused"); }
VP_CASE(float_grid) { RegularGridInterpolator<float, 2> f; f.AddCoord({-1.f, 0.5f, 2.f}); f.AddCoord({1.f, 4.f}); boost::multi_array<float, 2> D(boost::extents[3][2]); for (int i = 0; i < 6; i++) D.data()[i] = (float)vp_symi("f", i, -100, 100); f.AddVar(D); int k = (int)vp_pick("k", 0, 1); double s = vp_sym("s", 0, 1), t = vp_sym("t", 0, 1); std::array<float, 2> p = {(float)(-1 + 1.5 * k + 1.5 * s), (float)(1 + 3 * t)}; auto E = [&](int a, int b) { return (double)D.data()[a * 2 + b]; }; vp_near(f.Interp(p), E(k, 0) * (1 - s) * (1 - t) + E(k + 1, 0) * s * (1 - t) + E(k, 1) * (1 - s) * t + E(k + 1, 1) * s * t, 1e-2, "float-value"); }
// very large grids: concrete axes and data, the corners of the looked-at cell symbolic
VP_CASES(very_large, 6) { LongGrid g(VP_LONG2[vp_k][0], VP_LONG2[vp_k][1]); RegularGridInterpolator<double, 2> f; f.AddCoord(g.x); f.AddCoord(g.y); boost::multi_array<double, 2> D(boost::extents[g.nx][g.ny]); for (size_t k = 0; k < g.d.size(); k++) D.data()[k] = g.d[k]; f.AddVar(D); double s = vp_sym("s", 0, 1), t = vp_sym("t", 0, 1); std::array<double, 2> p = {g.X(s), g.Y(t)}; vp_near(f.Interp(p), g.blend(s, t), 1e-5, "very-large-value"); vp_near(f.Interp(p, true), g.blend(s, t), 1e-5, "very-large-checked"); std::array<size_t, 2> ix = {(size_t)g.i + 1, (size_t)g.j}; vp_near(f.EvalAtIndice(ix), g.at(g.i + 1, g.j), 0, "very-large-index");
  double o = vp_sym("outside_by", 1e-6, 1000); std::array<double, 2> q = {g.x.back() + o, g.Y(t)}; vp_near(f.Interp(q), g.at(g.nx - 1, g.j) * (1 - t) + g.at(g.nx - 1, g.j + 1) * t, 1e-5, "very-large-clamped"); q = {g.X(s), g.y[0] - o}; vp_near(f.Interp(q), g.at(g.i, 0) * (1 - s) + g.at(g.i + 1, 0) * s, 1e-5, "very-large-clamped"); bool thrown = false; try { f.Interp(q, true); } catch (const std::exception&) { thrown = true; } vp_assert(thrown, "very-large-refused"); }
VP_CASE(very_long) { int n = 1100; auto x = vp_long_axis(n); auto segs = vp_long_segments(n); int k = segs[vp_pick("segment", 0, (long)segs.size() - 1)]; auto y = vp_long_values(n, k); RegularGridInterpolator<double, 1> f; f.AddCoord(x); boost::multi_array<double, 1> D(boost::extents[n]); for (int i = 0; i < n; i++) D[i] = y[i]; f.AddVar(D); double s = vp_sym("s", 0, 1); std::array<double, 1> p = {x[k] + s * (x[k + 1] - x[k])}; vp_near(f.Interp(p), y[k] + s * (y[k + 1] - y[k]), 1e-5, "very-long-value"); }
// a flaw anywhere in a long axis is seen
VP_CASES(long_axis_check, 2) { int n = vp_k ? 300 : 40; auto x = vp_long_axis(n); auto segs = vp_long_segments(n); int k = segs[vp_pick("segment", 0, (long)segs.size() - 1)]; double v = vp_sym("v", -1000, 2000); x[k + 1] = v; bool ok = v > x[k] && (k + 2 >= n || v < x[k + 2]), thrown = false; RegularGridInterpolator<double, 1> f; try { f.AddCoord(x); } catch (const std::exception&) { thrown = true; } vp_assert(thrown == !ok, "long-axis-rejected"); }
VP_CASE(dim5) { RegularGridInterpolator<double, 5> f; std::array<double, 5> p; double s[5]; for (int d = 0; d < 5; d++) { f.AddCoord({1.0 * d, d + 2.0}); s[d] = vp_symi("s", d, 0, 1); p[d] = d + 2 * s[d]; } std::array<size_t, 5> sh = {2, 2, 2, 2, 2}; boost::multi_array<double, 5> D(sh); for (int i = 0; i < 32; i++) D.data()[i] = vp_symi("f", i, -100, 100); f.AddVar(D); double r = 0; for (int v = 0; v < 32; v++) { double w = 1; for (int d = 0; d < 5; d++) w *= (v >> (4 - d)) & 1 ? s[d] : 1 - s[d]; r += w * D.data()[v]; } vp_near(f.Interp(p), r, 1e-4, "dim5-value"); }
