// C08: nearest-node lookup returns a closest grid node and its datum
#include "vp.h"
#include <cassert>
#include "MathUtils/RegularGridNearest.h"
#include "grid_common.h"
using namespace mathutils;
template <int N> static void run(const std::array<int, N>& s) {
  SymGrid<N> g(s); RegularGridNearest<double, N> f; for (int d = 0; d < N; d++) f.AddCoord(g.ax[d]); f.AddVar(g.data);
  std::array<double, N> p; for (int d = 0; d < N; d++) p[d] = vp_symi("p", d, -2000, 2000);
  auto n = f.Nearest(p); auto ix = n.indices(); auto c = n.coords(); std::array<int, N> ii;
  for (int d = 0; d < N; d++) {
    vp_assert(ix[d] < (size_t)s[d], "index-range"); ii[d] = (int)ix[d];
    vp_near(c[d], g.ax[d][ii[d]], 0, "coordinate");
    for (int k = 0; k < s[d]; k++) { double a = p[d] - c[d], b = p[d] - g.ax[d][k]; if (a < 0) a = -a; if (b < 0) b = -b; vp_assert(a <= b + 1e-9, "closest"); }
  }
  vp_near(n.val(), g.at(ii), 0, "datum");
  vp_near(f.GetData(p), g.at(ii), 0, "data-query");
}
VP_CASES(dim1, VP_THOROUGH ? 6 : 4) { run<1>({1 + vp_k}); }
static const int S2 = VP_THOROUGH ? 4 : 3;
VP_CASES(dim2, S2 * S2) { run<2>({1 + vp_k / S2, 1 + vp_k % S2}); }
VP_CASES(dim3, VP_THOROUGH ? 4 : 2) { static const int S[4][3] = {{2, 2, 2}, {1, 3, 2}, {3, 2, 2}, {2, 3, 3}}; run<3>({S[vp_k][0], S[vp_k][1], S[vp_k][2]}); }
// integer data and float coordinates of the generic class: the datum type is preserved
VP_CASE(int_data) { auto x = vp_axis("x0", "h", 3); RegularGridNearest<int, 1> f; f.AddCoord(x); boost::multi_array<int, 1> d(boost::extents[3]); for (int i = 0; i < 3; i++) d[i] = 7 * i - 3; f.AddVar(d); std::array<double, 1> p; p[0] = vp_sym("p", -50, 50); auto n = f.Nearest(p); vp_assert(n.val() == 7 * (int)n.indices()[0] - 3, "int-datum"); vp_assert(f.GetData(p) == n.val(), "int-data-query"); }
// integer coordinates: any query; any position and distance of two nodes, small distances of more
VP_IEEE_CASES(int_coord, 4) { int n = vp_k + 1; std::vector<int> ax; int x = n > 2 ? (int)vp_pick("i0", -3, -2) : (int)vp_int("i0", -100, 100); static const char* H[] = {"", "i1", "i2", "i3"}; for (int i = 0; i < n; i++) { if (i) x += n > 2 ? (n > 3 ? 1 + 2 * (int)vp_pick(H[i], 0, 1) : (int)vp_pick(H[i], 1, 4)) : (int)vp_int(H[i], 1, 99); ax.push_back(x); }
  RegularGridNearest<double, 1, int> f; f.AddCoord(ax); boost::multi_array<double, 1> d(boost::extents[n]); for (int i = 0; i < n; i++) d[i] = vp_symi("f", i, -10, 10); f.AddVar(d);
  std::array<int, 1> p; p[0] = (int)vp_int("q", -1000, 1000); auto r = f.Nearest(p); size_t ix = r.indices()[0]; vp_assert(ix < (size_t)n, "int-index"); int c = r.coords()[0], a = p[0] - c; if (a < 0) a = -a; vp_assert(c == ax[ix], "int-coordinate"); for (int k = 0; k < n; k++) { int b = p[0] - ax[k]; if (b < 0) b = -b; vp_assert(a <= b, "int-closest"); } vp_near(r.val(), d[ix], 0, "int-coord-datum"); vp_near(f.GetData(p), d[ix], 0, "int-coord-query"); }
VP_IEEE_CASES(int_coord_2, 2) { std::vector<int> ax[2]; static const char* S[2] = {"i0", "j0"}; static const char* H[2][3] = {{"", "i1", "i2"}, {"", "j1", "j2"}}; int n[2] = {vp_k ? 2 : 3, vp_k ? 3 : 2}; RegularGridNearest<int, 2, int> f; for (int d = 0; d < 2; d++) { int x = 5 * d - 3; for (int i = 0; i < n[d]; i++) { if (i) x += 1 + 2 * (int)vp_pick(H[d][i], 0, 1); ax[d].push_back(x); } f.AddCoord(ax[d]); }
  boost::multi_array<int, 2> d(boost::extents[n[0]][n[1]]); for (int i = 0; i < n[0]; i++) for (int j = 0; j < n[1]; j++) d[i][j] = 11 * i - 5 * j; f.AddVar(d); std::array<int, 2> p = {(int)vp_int("q", -500, 500), (int)vp_int("r", -500, 500)}; auto r = f.Nearest(p); auto ix = r.indices(); auto c = r.coords();
  for (int e = 0; e < 2; e++) { vp_assert(ix[e] < (size_t)n[e], "int-index-2"); int a = p[e] - c[e]; if (a < 0) a = -a; vp_assert(c[e] == ax[e][ix[e]], "int-coordinate-2"); for (int k = 0; k < n[e]; k++) { int b = p[e] - ax[e][k]; if (b < 0) b = -b; vp_assert(a <= b, "int-closest-2"); } } vp_assert(r.val() == 11 * (int)ix[0] - 5 * (int)ix[1], "int-datum-2"); vp_assert(f.GetData(p) == r.val(), "int-query-2"); }
VP_CASES(float_coord, 3) { int n = vp_k + 1; std::vector<float> ax; float x = (float)vp_sym("x0", -10, 10); for (int i = 0; i < n; i++) { if (i) x += (float)vp_symi("h", i, 0.125, 8); ax.push_back(x); } RegularGridNearest<double, 1, float> f; f.AddCoord(ax); boost::multi_array<double, 1> d(boost::extents[n]); for (int i = 0; i < n; i++) d[i] = vp_symi("f", i, -10, 10); f.AddVar(d);
  std::array<float, 1> p; p[0] = (float)vp_sym("p", -100, 100); auto r = f.Nearest(p); size_t ix = r.indices()[0]; vp_assert(ix < (size_t)n, "float-index"); double a = (double)p[0] - ax[ix]; if (a < 0) a = -a; for (int k = 0; k < n; k++) { double b = (double)p[0] - ax[k]; if (b < 0) b = -b; vp_assert(a <= b + 1e-4, "float-closest"); } vp_near(r.val(), d[ix], 0, "float-datum"); }
VP_CASE(structure) { SymGrid<2> g({2, 3}); RegularGridNearest<double, 2> f; for (int d = 0; d < 2; d++) f.AddCoord(g.ax[d]); f.AddVar(g.data); vp_assert(f.GetDimension() == 2, "dimension");
  for (int d = 0; d < 2; d++) { auto c = f.GetCoord(d); vp_assert((int)c.size() == g.s[d], "axis-size"); for (int i = 0; i < g.s[d]; i++) vp_near(c[i], g.ax[d][i], 0, "axis"); vp_near(f.GetCoordMinVal(d), g.ax[d][0], 0, "axis-min"); vp_near(f.GetCoordMaxVal(d), g.ax[d][g.s[d] - 1], 0, "axis-max"); } }
VP_CASE(dim4) { SymGrid<4> g({2, 1, 2, 2}); RegularGridNearest<double, 4> f; for (int d = 0; d < 4; d++) f.AddCoord(g.ax[d]); f.AddVar(g.data); std::array<double, 4> p; std::array<int, 4> w; for (int d = 0; d < 4; d++) { w[d] = d == 1 ? 0 : (int)vp_pick(vp_cellname(d), 0, 1); p[d] = vp_symi("p", d, -50, 50); if (d != 1) { double m = g.ax[d][0] + g.ax[d][1]; if (w[d]) vp_assume(2 * p[d] > m + 1e-6); else vp_assume(2 * p[d] < m - 1e-6); } } auto n = f.Nearest(p); for (int d = 0; d < 4; d++) vp_assert(n.indices()[d] == (size_t)w[d], "dim4-index"); vp_near(n.val(), g.at(w), 0, "dim4-datum"); vp_near(f.GetData(p), g.at(w), 0, "dim4-data"); }
VP_CASES(long_axis, 2) { run<1>({vp_k ? 17 : 9}); }
// sequences of queries: an earlier one does not change the next
VP_CASES(sequence, 2) { SymGrid<2> g({3, 2}); RegularGridNearest<double, 2> f; for (int d = 0; d < 2; d++) f.AddCoord(g.ax[d]); f.AddVar(g.data); std::array<double, 2> q = {vp_sym("q0", -60, 60), vp_sym("q1", -60, 60)}, p = {vp_sym("p0", -60, 60), vp_sym("p1", -60, 60)}; if (vp_k) f.GetData(q); else f.Nearest(q); auto n = f.Nearest(p); std::array<int, 2> ii; for (int d = 0; d < 2; d++) { ii[d] = (int)n.indices()[d]; for (int k = 0; k < g.s[d]; k++) { double a = p[d] - n.coords()[d], b = p[d] - g.ax[d][k]; if (a < 0) a = -a; if (b < 0) b = -b; vp_assert(a <= b + 1e-9, "sequence-closest"); } } vp_near(n.val(), g.at(ii), 0, "sequence-datum"); }
static const double SC[5] = {1e-9, 1e-4, 1e3, 1e6, 1e9};
VP_CASES(scales, 10) { double s = SC[vp_k % 5]; int n = 2 + vp_k / 5; auto u = vp_axis("x0", "h", n), ax = u; for (auto& e : ax) e *= s; RegularGridNearest<double, 1> f; f.AddCoord(ax); boost::multi_array<double, 1> D(boost::extents[n]); for (int i = 0; i < n; i++) D[i] = vp_symi("f", i, -10, 10); f.AddVar(D); std::array<double, 1> p; double q = vp_sym("p", -100, 100); p[0] = s * q; auto r = f.Nearest(p); size_t ix = r.indices()[0]; vp_assert(ix < (size_t)n, "scaled-index"); double a = q - u[ix]; if (a < 0) a = -a; for (int k = 0; k < n; k++) { double b = q - u[k]; if (b < 0) b = -b; vp_assert(a <= b + 1e-9, "scaled-closest"); } vp_near(r.coords()[0], s * u[ix], 0, "scaled-coordinate"); vp_near(r.val(), D[ix], 0, "scaled-datum"); }
// far from the origin, tight axes; new data; structured data types
VP_CASES(offset, 4) { static const double O[4] = {1e6, -1e6, 1e9, -12345.678}; double o = O[vp_k], h = vp_k == 2 ? 1 : 0.01; RegularGridNearest<double, 1> f; std::vector<double> ax; for (int i = 0; i < 5; i++) ax.push_back(o + h * i); f.AddCoord(ax); boost::multi_array<double, 1> D(boost::extents[5]); for (int i = 0; i < 5; i++) D[i] = vp_symi("f", i, -10, 10); f.AddVar(D); int w = (int)vp_pick("w", 0, 4); double t = vp_sym("t", -0.45, 0.45); std::array<double, 1> p = {o + h * (w + t)}; vp_assert(f.Nearest(p).indices()[0] == (size_t)w, "offset-index"); vp_near(f.GetData(p), D[w], 0, "offset-datum"); }
VP_CASE(newdata) { SymGrid<2> g({2, 2}), o({2, 2}, "o"); RegularGridNearest<double, 2> f; for (int d = 0; d < 2; d++) f.AddCoord(g.ax[d]); f.AddVar(o.data); std::array<double, 2> p = {vp_sym("p0", -60, 60), vp_sym("p1", -60, 60)}; f.Nearest(p); f.AddVar(g.data); auto n = f.Nearest(p); std::array<int, 2> ii = {(int)n.indices()[0], (int)n.indices()[1]}; vp_near(n.val(), g.at(ii), 0, "newdata-datum"); vp_near(f.GetData(p), g.at(ii), 0, "newdata-query"); }
struct Item { double a; int b; };
VP_CASE(struct_data) { auto x = vp_axis("x0", "h", 3); RegularGridNearest<Item, 1> f; f.AddCoord(x); boost::multi_array<Item, 1> d(boost::extents[3]); for (int i = 0; i < 3; i++) { d[i].a = vp_symi("a", i, -10, 10); d[i].b = 5 * i + 1; } f.AddVar(d); std::array<double, 1> p = {vp_sym("p", -50, 50)}; auto n = f.Nearest(p); Item r = n.val(); vp_assert(r.b == 5 * (int)n.indices()[0] + 1, "struct-datum"); vp_near(r.a, d[n.indices()[0]].a, 0, "struct-datum"); }
VP_CASE(too_many_axes) { RegularGridNearest<double, 2> f; auto x = vp_axis("x0", "h", 2); f.AddCoord(x); f.AddCoord(x); vp_exit_begin("superfluous-axis", EXIT_FAILURE); f.AddCoord(x); vp_exit_end(); }
VP_CASES(too_few_axes, 2) { RegularGridNearest<double, 2> f; auto x = vp_axis("x0", "h", 2); for (int i = 0; i < vp_k; i++) f.AddCoord(x); boost::multi_array<double, 2> d(boost::extents[2][2]); vp_exit_begin("missing-axis", EXIT_FAILURE); f.AddVar(d); vp_exit_end(); }
VP_CASES(bad_index, 3) { RegularGridNearest<double, 2> f; SymGrid<2> g({2, 2}); for (int d = 0; d < 2; d++) f.AddCoord(g.ax[d]); f.AddVar(g.data); unsigned i = (unsigned)vp_pick("index", 2, 4); vp_exit_begin("index-refused", EXIT_FAILURE); if (vp_k == 0) f.GetCoord(i); else if (vp_k == 1) f.GetCoordMinVal(i); else f.GetCoordMaxVal(i); vp_exit_end(); }
// very large grids: concrete axes and data, the corners of the looked-at cell symbolic, every query of that cell
VP_CASES(very_large, 6) { LongGrid g(VP_LONG2[vp_k][0], VP_LONG2[vp_k][1]); RegularGridNearest<double, 2> f; f.AddCoord(g.x); f.AddCoord(g.y); boost::multi_array<double, 2> D(boost::extents[g.nx][g.ny]); for (size_t k = 0; k < g.d.size(); k++) D.data()[k] = g.d[k]; f.AddVar(D); double s = vp_sym("s", 0, 1), t = vp_sym("t", 0, 1); std::array<double, 2> p = {g.X(s), g.Y(t)}; auto n = f.Nearest(p); size_t a = n.indices()[0], b = n.indices()[1];
  if (s < 0.499999) vp_assert(a == (size_t)g.i, "very-large-index"); else if (s > 0.500001) vp_assert(a == (size_t)g.i + 1, "very-large-index"); else vp_assert(a == (size_t)g.i || a == (size_t)g.i + 1, "very-large-index"); if (t < 0.499999) vp_assert(b == (size_t)g.j, "very-large-index"); else if (t > 0.500001) vp_assert(b == (size_t)g.j + 1, "very-large-index"); else vp_assert(b == (size_t)g.j || b == (size_t)g.j + 1, "very-large-index");
  vp_near(n.val(), g.at((int)a, (int)b), 0, "very-large-datum"); vp_near(f.GetData(p), g.at((int)a, (int)b), 0, "very-large-query"); vp_near(n.coords()[0], g.x[a], 0, "very-large-coordinate"); vp_near(n.coords()[1], g.y[b], 0, "very-large-coordinate"); }
VP_CASE(very_long) { int n = 1100; auto x = vp_long_axis(n); auto segs = vp_long_segments(n); int k = segs[vp_pick("segment", 0, (long)segs.size() - 1)]; auto y = vp_long_values(n, k); RegularGridNearest<double, 1> f; f.AddCoord(x); boost::multi_array<double, 1> D(boost::extents[n]); for (int i = 0; i < n; i++) D[i] = y[i]; f.AddVar(D); int up = (int)vp_pick("up", 0, 1); double s = up ? vp_sym("s1", 0.500001, 1) : vp_sym("s0", 0, 0.499999); std::array<double, 1> p = {x[k] + s * (x[k + 1] - x[k])}; vp_assert(f.Nearest(p).indices()[0] == (size_t)(k + up), "very-long-index"); vp_near(f.GetData(p), y[k + up], 0, "very-long-datum"); }
