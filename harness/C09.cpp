// C09: surrounding-node query returns the corners of the containing cell
#include "vp.h"
#include <cassert>
#include "MathUtils/RegularGridNearest.h"
#include "grid_common.h"
using namespace mathutils;
template <int N> static void run(const std::array<int, N>& s) {
  SymGrid<N> g(s); RegularGridNearest<double, N> f; for (int d = 0; d < N; d++) f.AddCoord(g.ax[d]); f.AddVar(g.data);
  std::array<double, N> p; std::array<int, N> cell; for (int d = 0; d < N; d++) { cell[d] = (int)vp_pick(vp_cellname(d), -1, s[d] - 1); p[d] = vp_coord(d, g.ax[d], cell[d]); }
  auto v = f.GetSurroundingGridNodes(p); vp_assert(v.size() == (size_t)(1 << N), "corner-count");
  for (int k = 0; k < (1 << N); k++) { auto ix = v[k].indices(); auto c = v[k].coords(); std::array<int, N> w;
    for (int d = 0; d < N; d++) { int up = (k >> (N - 1 - d)) & 1; w[d] = cell[d] < 0 ? 0 : cell[d] >= s[d] - 1 ? s[d] - 1 : cell[d] + up; vp_assert(ix[d] == (size_t)w[d], "corner-index"); vp_near(c[d], g.ax[d][w[d]], 0, "corner-coordinate"); }
    vp_near(v[k].val(), g.at(w), 0, "corner-datum"); }
}
VP_CASES(dim1, VP_THOROUGH ? 6 : 4) { run<1>({1 + vp_k}); }
static const int S2 = VP_THOROUGH ? 4 : 3;
VP_CASES(dim2, S2 * S2) { run<2>({1 + vp_k / S2, 1 + vp_k % S2}); }
VP_CASES(dim3, VP_THOROUGH ? 4 : 2) { static const int S[4][3] = {{2, 2, 2}, {1, 3, 2}, {3, 2, 2}, {2, 3, 3}}; run<3>({S[vp_k][0], S[vp_k][1], S[vp_k][2]}); }
VP_CASES(long_axis, 2) { run<1>({vp_k ? 17 : 9}); }
VP_CASE(wide) { std::array<int, 2> s = {6, 5}; SymGrid<2> g(s); RegularGridNearest<double, 2> f; for (int d = 0; d < 2; d++) f.AddCoord(g.ax[d]); f.AddVar(g.data); std::array<double, 2> p; std::array<int, 2> cell; for (int d = 0; d < 2; d++) { cell[d] = (int)vp_pick(vp_cellname(d), -1, s[d] - 1); p[d] = vp_coord(d, g.ax[d], cell[d]); } auto v = f.GetSurroundingGridNodes(p); vp_assert(v.size() == 4, "wide-count"); for (int k = 0; k < 4; k++) { std::array<int, 2> w; for (int d = 0; d < 2; d++) { int up = (k >> (1 - d)) & 1; w[d] = cell[d] < 0 ? 0 : cell[d] >= s[d] - 1 ? s[d] - 1 : cell[d] + up; vp_assert(v[k].indices()[d] == (size_t)w[d], "wide-index"); vp_near(v[k].coords()[d], g.ax[d][w[d]], 0, "wide-coordinate"); } vp_near(v[k].val(), g.at(w), 0, "wide-datum"); } }
VP_CASE(dim4) { std::array<int, 4> s = {2, 1, 2, 2}; SymGrid<4> g(s); RegularGridNearest<double, 4> f; for (int d = 0; d < 4; d++) f.AddCoord(g.ax[d]); f.AddVar(g.data); std::array<double, 4> p; std::array<int, 4> cell; for (int d = 0; d < 4; d++) { cell[d] = d == 1 ? 0 : (int)vp_pick(vp_cellname(d), -1, 1); p[d] = vp_coord(d, g.ax[d], cell[d]); } auto v = f.GetSurroundingGridNodes(p); vp_assert(v.size() == 16, "dim4-count"); for (int k = 0; k < 16; k++) { std::array<int, 4> w; for (int d = 0; d < 4; d++) { int up = (k >> (3 - d)) & 1; w[d] = cell[d] < 0 ? 0 : cell[d] >= s[d] - 1 ? s[d] - 1 : cell[d] + up; vp_assert(v[k].indices()[d] == (size_t)w[d], "dim4-index"); vp_near(v[k].coords()[d], g.ax[d][w[d]], 0, "dim4-coordinate"); } vp_near(v[k].val(), g.at(w), 0, "dim4-datum"); } }
// on a node exactly: the corner of the node comes first
VP_CASE(on_node) { std::array<int, 2> s = {4, 3}; SymGrid<2> g(s); RegularGridNearest<double, 2> f; for (int d = 0; d < 2; d++) f.AddCoord(g.ax[d]); f.AddVar(g.data); std::array<int, 2> w; std::array<double, 2> p; for (int d = 0; d < 2; d++) { w[d] = (int)vp_pick(vp_cellname(d), 0, s[d] - 1); p[d] = g.ax[d][w[d]]; } auto v = f.GetSurroundingGridNodes(p); for (int d = 0; d < 2; d++) { vp_assert(v[0].indices()[d] == (size_t)w[d], "node-first"); vp_near(v[0].coords()[d], p[d], 0, "node-first"); } vp_near(v[0].val(), g.at(w), 0, "node-datum"); }
VP_CASE(sequence) { SymGrid<2> g({2, 3}); RegularGridNearest<double, 2> f; for (int d = 0; d < 2; d++) f.AddCoord(g.ax[d]); f.AddVar(g.data); std::array<double, 2> q = {vp_sym("q0", -60, 60), vp_sym("q1", -60, 60)}; f.GetSurroundingGridNodes(q); f.Nearest(q); std::array<double, 2> p; std::array<int, 2> cell; for (int d = 0; d < 2; d++) { cell[d] = (int)vp_pick(vp_cellname(d), -1, g.s[d] - 1); p[d] = vp_coord(d, g.ax[d], cell[d]); } auto v = f.GetSurroundingGridNodes(p); for (int k = 0; k < 4; k++) { std::array<int, 2> w; for (int d = 0; d < 2; d++) { int up = (k >> (1 - d)) & 1; w[d] = cell[d] < 0 ? 0 : cell[d] >= g.s[d] - 1 ? g.s[d] - 1 : cell[d] + up; vp_assert(v[k].indices()[d] == (size_t)w[d], "sequence-index"); } vp_near(v[k].val(), g.at(w), 0, "sequence-datum"); } }
static const double SC[5] = {1e-9, 1e-4, 1e3, 1e6, 1e9};
VP_CASES(scales, 5) { double s = SC[vp_k]; int n = 3; auto u = vp_axis("x0", "h", n), ax = u; for (auto& e : ax) e *= s; RegularGridNearest<double, 1> f; f.AddCoord(ax); boost::multi_array<double, 1> D(boost::extents[n]); for (int i = 0; i < n; i++) D[i] = vp_symi("f", i, -10, 10); f.AddVar(D); int cell = (int)vp_pick("cell0", -1, n - 1); double q = vp_coord(0, u, cell); std::array<double, 1> p = {s * q}; auto v = f.GetSurroundingGridNodes(p); for (int k = 0; k < 2; k++) { int w = cell < 0 ? 0 : cell >= n - 1 ? n - 1 : cell + k; vp_assert(v[k].indices()[0] == (size_t)w, "scaled-index"); vp_near(v[k].coords()[0], s * u[w], 0, "scaled-coordinate"); vp_near(v[k].val(), D[w], 0, "scaled-datum"); } }
VP_IEEE_CASES(int_coord, 3) { int n = vp_k + 1; std::vector<int> ax; int x = (int)vp_int("i0", -100, 100); static const char* H[] = {"", "i1", "i2"}; for (int i = 0; i < n; i++) { if (i) x += (int)vp_int(H[i], 1, 99); ax.push_back(x); } RegularGridNearest<int, 1, int> f; f.AddCoord(ax); boost::multi_array<int, 1> d(boost::extents[n]); for (int i = 0; i < n; i++) d[i] = 7 * i - 3; f.AddVar(d); std::array<int, 1> p = {(int)vp_int("q", -1000, 1000)}; auto v = f.GetSurroundingGridNodes(p); vp_assert(v.size() == 2, "int-count"); int lo = (int)v[0].indices()[0], hi = (int)v[1].indices()[0]; vp_assert(lo >= 0 && hi < n && lo <= hi && hi - lo <= 1, "int-cell");
  for (int k = 0; k < n; k++) { if (ax[k] <= p[0]) vp_assert(lo >= k, "int-lower"); if (ax[k] > p[0]) vp_assert(hi <= k, "int-upper"); } if (p[0] >= ax[0] && p[0] < ax[n - 1]) vp_assert(hi == lo + 1, "int-distinct"); else vp_assert(hi == lo, "int-clamped"); for (int k = 0; k < 2; k++) { vp_assert(v[k].coords()[0] == ax[v[k].indices()[0]], "int-coordinate"); vp_assert(v[k].val() == 7 * (int)v[k].indices()[0] - 3, "int-datum"); } }
VP_CASE(struct_data) { SymGrid<1> g({3}); RegularGridNearest<int, 1> f; f.AddCoord(g.ax[0]); boost::multi_array<int, 1> d(boost::extents[3]); for (int i = 0; i < 3; i++) d[i] = 9 * i + 2; f.AddVar(d); std::array<double, 1> p = {vp_sym("p", -50, 50)}; auto v = f.GetSurroundingGridNodes(p); for (int k = 0; k < 2; k++) vp_assert(v[k].val() == 9 * (int)v[k].indices()[0] + 2, "int-datum"); }
// very large grids: concrete axes and data, the corners of the looked-at cell symbolic
VP_CASES(very_large, 6) { LongGrid g(VP_LONG2[vp_k][0], VP_LONG2[vp_k][1]); RegularGridNearest<double, 2> f; f.AddCoord(g.x); f.AddCoord(g.y); boost::multi_array<double, 2> D(boost::extents[g.nx][g.ny]); for (size_t k = 0; k < g.d.size(); k++) D.data()[k] = g.d[k]; f.AddVar(D); double s = vp_sym("s", 0, 0.999999), t = vp_sym("t", 0, 0.999999); std::array<double, 2> p = {g.X(s), g.Y(t)}; auto v = f.GetSurroundingGridNodes(p); vp_assert(v.size() == 4, "very-large-count"); for (int k = 0; k < 4; k++) { int a = g.i + (k >> 1), b = g.j + (k & 1); vp_assert(v[k].indices()[0] == (size_t)a && v[k].indices()[1] == (size_t)b, "very-large-index"); vp_near(v[k].coords()[0], g.x[a], 0, "very-large-coordinate"); vp_near(v[k].coords()[1], g.y[b], 0, "very-large-coordinate"); vp_near(v[k].val(), g.at(a, b), 0, "very-large-datum"); } }
