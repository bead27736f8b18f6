// C04: 2D interpolation is the bilinear interpolant
#include "vp.h"
#include "MathUtils/Interp2d.h"
#include "interp_common.h"
using namespace mathutils;
static const int NM = VP_THOROUGH ? 6 : 5;
struct Grid { int nx, ny; std::vector<double> x, y, d; };
static Grid grid(int nx, int ny, const char* p = "d", const char* x0 = "x0", const char* hx = "hx", const char* y0 = "y0", const char* hy = "hy") {
  Grid g; g.nx = nx; g.ny = ny; g.x = vp_axis(x0, hx, nx); g.y = vp_axis(y0, hy, ny);
  for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) g.d.push_back(vp_symij(p, i, j, -100, 100));
  return g;
}
static double blend(const Grid& g, int i, int j, double x, double y) {
  double u = x - g.x[i], v = y - g.y[j], hx = g.x[i + 1] - g.x[i], hy = g.y[j + 1] - g.y[j];
  auto D = [&](int a, int b) { return g.d[(i + a) * g.ny + j + b]; };
  return (D(0, 0) * (hx - u) * (hy - v) + D(1, 0) * u * (hy - v) + D(0, 1) * (hx - u) * v + D(1, 1) * u * v) / (hx * hy);
}
static std::unique_ptr<Interp2d<double>> make(const Grid& g) { std::unique_ptr<Interp2d<double>> f(Interp2d<double>::MakeInterp2d(LINEAR)); f->Initialize(vp_sh(g.x), vp_sh(g.y), vp_sh(g.d)); return f; }
static void point(const Grid& g, int& i, int& j, double& x, double& y) {
  i = (int)vp_pick("ix", 0, g.nx - 2); j = (int)vp_pick("iy", 0, g.ny - 2); x = vp_sym("x", -10, 40); y = vp_sym("y", -10, 40);
  vp_assume(g.x[i] <= x); vp_assume(x <= g.x[i + 1]); vp_assume(g.y[j] <= y); vp_assume(y <= g.y[j + 1]);
}
// every grid of nx by ny nodes, every point of every closed cell
VP_CASES(cell, (NM - 1) * (NM - 1)) {
  Grid g = grid(2 + vp_k / (NM - 1), 2 + vp_k % (NM - 1)); auto f = make(g);
  int i, j; double x, y; point(g, i, j, x, y);
  double v = f->Eval(x, y); vp_near(v, blend(g, i, j, x, y), 1e-5, "cell-value"); vp_near((*f)(x, y), v, 0, "call-operator");
}
VP_CASES(nodes, (NM - 1) * (NM - 1)) {
  Grid g = grid(2 + vp_k / (NM - 1), 2 + vp_k % (NM - 1)); auto f = make(g); std::vector<std::vector<double>> pts;
  for (int j = g.ny - 1; j >= 0; j--) for (int i = 0; i < g.nx; i++) { vp_near(f->Eval(g.x[i], g.y[j]), g.d[i * g.ny + j], 1e-5, "node-value"); pts.push_back({g.x[i], g.y[j]}); }
  auto v = f->Eval(pts), w = (*f)(pts); vp_assert(v.size() == pts.size(), "list-size"); vp_assert(w.size() == pts.size(), "list-size"); size_t k = 0;
  for (int j = g.ny - 1; j >= 0; j--) for (int i = 0; i < g.nx; i++, k++) { vp_near(v[k], g.d[i * g.ny + j], 1e-5, "list-value"); vp_near(w[k], g.d[i * g.ny + j], 1e-5, "list-value"); }
  vp_near(f->GetXmin(), g.x[0], 0, "limits"); vp_near(f->GetXmax(), g.x[g.nx - 1], 0, "limits"); vp_near(f->GetYmin(), g.y[0], 0, "limits"); vp_near(f->GetYmax(), g.y[g.ny - 1], 0, "limits");
}
// initialising again: only the new grid counts
VP_CASES(reinit, 4) {
  Grid o = grid(vp_k % 2 ? 3 : 2, vp_k / 2 ? 3 : 2, "od", "ox0", "ohx", "oy0", "ohy"), g = grid(2, 3); auto f = make(o); f->Initialize(vp_sh(g.x), vp_sh(g.y), vp_sh(g.d));
  int i, j; double x, y; point(g, i, j, x, y); vp_near(f->Eval(x, y), blend(g, i, j, x, y), 1e-5, "reinit-value"); vp_near(f->GetXmax(), g.x[g.nx - 1], 0, "reinit-limits"); vp_near(f->GetYmax(), g.y[g.ny - 1], 0, "reinit-limits");
}
// larger grids: the cells of the whole grid, queries in one cell after queries elsewhere
VP_CASES(large, 3) {
  static const int S[3][2] = {{9, 4}, {3, 10}, {8, 8}}; Grid g = grid(S[vp_k][0], S[vp_k][1]); auto f = make(g); int q = vp_pick("where", 0, 5), i = (int)vp_pick("ix", 0, 2), j = (int)vp_pick("iy", 0, 2);
  i = i == 0 ? 0 : i == 1 ? g.nx / 2 - 1 : g.nx - 2; j = j == 0 ? 0 : j == 1 ? g.ny / 2 - 1 : g.ny - 2; double s = vp_sym("s", 0, 1), t = vp_sym("t", 0, 1), x = g.x[i] + s * (g.x[i + 1] - g.x[i]), y = g.y[j] + t * (g.y[j + 1] - g.y[j]);
  f->Eval(g.x[(q * 3) % g.nx], g.y[(q * 2) % g.ny]); vp_near(f->Eval(x, y), blend(g, i, j, x, y), 1e-5, "large-value");
}
// histories: a first query in any cell does not influence the next one
VP_CASES(sequence, 2) {
  Grid g = grid(3, 3); auto f = make(g); int i, j; double x, y; point(g, i, j, x, y); int a = (int)vp_pick("jx", 0, 1), b = (int)vp_pick("jy", 0, 1); double s = vp_sym("s", 0, 1), t = vp_sym("t", 0, 1), u = g.x[a] + s * (g.x[a + 1] - g.x[a]), v = g.y[b] + t * (g.y[b + 1] - g.y[b]);
  if (vp_k == 0) { f->Eval(u, v); vp_near(f->Eval(x, y), blend(g, i, j, x, y), 1e-5, "sequence-value"); vp_near((*f)(u, v), blend(g, a, b, u, v), 1e-5, "sequence-again"); }
  else { std::vector<std::vector<double>> p; p.push_back({u, v}); p.push_back({x, y}); p.push_back({u, v}); auto r = f->Eval(p); vp_assert(r.size() == 3, "sequence-size"); vp_near(r[0], blend(g, a, b, u, v), 1e-5, "sequence-list"); vp_near(r[1], blend(g, i, j, x, y), 1e-5, "sequence-list"); vp_near(r[2], blend(g, a, b, u, v), 1e-5, "sequence-list"); }
}
// axes and data of any scale
static const double SC[4] = {1e-8, 1e-3, 1e4, 1e9};
VP_CASES(scales, 24) {
  double sx = SC[vp_k % 4], sy = SC[(vp_k / 4 + vp_k) % 4], sd = vp_k / 12 ? 1e10 : 1e-10; int kind = vp_k / 4 % 3; if (kind == 1) sy = 1; if (kind == 2) sx = 1; Grid u = grid(3, 2); Grid g = u; for (auto& e : g.x) e *= sx; for (auto& e : g.y) e *= sy; for (auto& e : g.d) e *= sd; auto f = make(g);
  int i, j; double x, y; point(u, i, j, x, y); vp_near(f->Eval(sx * x, sy * y) / sd, blend(u, i, j, x, y), 1e-5, "scaled-value"); vp_near(f->GetXmax(), sx * u.x[2], 0, "scaled-limits"); vp_near(f->GetYmin(), sy * u.y[0], 0, "scaled-limits");
}
// the corners of the range, closed on every side, and an empty list
VP_CASE(edges) { Grid g = grid(3, 3); auto f = make(g); double s = vp_sym("s", 0, 1); int k = (int)vp_pick("k", 0, 1); for (int e = 0; e < 2; e++) { double y = e ? g.y[2] : g.y[0], x = g.x[k] + s * (g.x[k + 1] - g.x[k]); vp_near(f->Eval(x, y), g.d[k * 3 + (e ? 2 : 0)] * (1 - s) + g.d[(k + 1) * 3 + (e ? 2 : 0)] * s, 1e-5, "edge-value"); double w = e ? g.x[2] : g.x[0], z = g.y[k] + s * (g.y[k + 1] - g.y[k]); vp_near(f->Eval(w, z), g.d[(e ? 6 : 0) + k] * (1 - s) + g.d[(e ? 6 : 0) + k + 1] * s, 1e-5, "edge-value"); }
  std::vector<std::vector<double>> none; vp_assert(f->Eval(none).empty(), "empty-list"); }
// constant data gives the constant, data of one axis depends on that axis only
VP_CASES(special, 3) { Grid g = grid(4, 3); double c = vp_sym("c", -100, 100); for (int i = 0; i < 4; i++) for (int j = 0; j < 3; j++) g.d[i * 3 + j] = vp_k == 0 ? c : vp_k == 1 ? 2 * g.x[i] + c : c - 3 * g.y[j]; auto f = make(g); int i, j; double x, y; point(g, i, j, x, y); vp_near(f->Eval(x, y), vp_k == 0 ? c : vp_k == 1 ? 2 * x + c : c - 3 * y, 1e-4, "special-value"); }
// two interpolators sharing their vectors; the data vector may be longer-lived or dropped by the caller
VP_CASE(shared) { Grid g = grid(2, 3), h = g; for (int i = 0; i < 6; i++) h.d[i] = vp_symi("e", i, -100, 100); auto x = vp_sh(g.x), y = vp_sh(g.y), d = vp_sh(g.d), e = vp_sh(h.d); std::unique_ptr<Interp2d<double>> a(Interp2d<double>::MakeInterp2d(LINEAR)), b(Interp2d<double>::MakeInterp2d(LINEAR)); a->Initialize(x, y, d); b->Initialize(x, y, e); x.reset(); y.reset(); d.reset(); e.reset(); int i, j; double p, q; point(g, i, j, p, q); vp_near(a->Eval(p, q), blend(g, i, j, p, q), 1e-5, "shared-first"); vp_near(b->Eval(p, q), blend(h, i, j, p, q), 1e-5, "shared-second"); a.reset(); vp_near(b->Eval(p, q), blend(h, i, j, p, q), 1e-5, "shared-survivor"); }
VP_CASES(unknown_method, 4) { bool thrown = false; try { Interp2d<double>::MakeInterp2d((INTERP_METHOD)(vp_k + 1)); } catch (...) { thrown = true; } vp_assert(thrown, "unknown-method"); }
VP_CASE(float_grid) { std::shared_ptr<std::vector<float>> x(new std::vector<float>{-1.f, 0.5f, 2.f}), y(new std::vector<float>{1.f, 4.f}), d(new std::vector<float>()); for (int i = 0; i < 6; i++) d->push_back((float)vp_symi("d", i, -100, 100)); std::unique_ptr<Interp2d<float>> f(Interp2d<float>::MakeInterp2d(LINEAR)); f->Initialize(x, y, d); int k = (int)vp_pick("k", 0, 1); double s = vp_sym("s", 0, 1), t = vp_sym("t", 0, 1); auto D = [&](int a, int b) { return (double)(*d)[a * 2 + b]; }; vp_near(f->Eval((float)(-1 + 1.5 * k + 1.5 * s), (float)(1 + 3 * t)), D(k, 0) * (1 - s) * (1 - t) + D(k + 1, 0) * s * (1 - t) + D(k, 1) * (1 - s) * t + D(k + 1, 1) * s * t, 1e-2, "float-value"); }
// very large grids: concrete axes and data, the corners of the looked-at cell symbolic
VP_CASES(very_large, 6) {
  LongGrid g(VP_LONG2[vp_k][0], VP_LONG2[vp_k][1]); std::unique_ptr<Interp2d<double>> f(Interp2d<double>::MakeInterp2d(LINEAR)); f->Initialize(vp_sh(g.x), vp_sh(g.y), vp_sh(g.d)); double s = vp_sym("s", 0, 1), t = vp_sym("t", 0, 1);
  vp_near(f->Eval(g.X(s), g.Y(t)), g.blend(s, t), 1e-5, "very-large-value"); vp_near(f->GetXmax(), g.x.back(), 0, "very-large-limits"); vp_near(f->GetYmax(), g.y.back(), 0, "very-large-limits"); vp_near(f->Eval(g.x.back(), g.y.back()), g.d.back(), 1e-5, "very-large-corner"); vp_near(f->Eval(g.x[g.nx / 2], g.y[g.ny / 2]), g.at(g.nx / 2, g.ny / 2), 1e-5, "very-large-node");
}
// long lists of points
VP_CASES(long_list, 2) { Grid g = grid(3, 3); auto f = make(g); int m = vp_k ? 1030 : 70, at = vp_k ? 1024 : 64, i = (int)vp_pick("ix", 0, 1), j = (int)vp_pick("iy", 0, 1); double s = vp_sym("s", 0, 1), t = vp_sym("t", 0, 1), x = g.x[i] + s * (g.x[i + 1] - g.x[i]), y = g.y[j] + t * (g.y[j + 1] - g.y[j]); std::vector<std::vector<double>> p; for (int k = 0; k < m; k++) p.push_back(k == at ? std::vector<double>{x, y} : std::vector<double>{g.x[k % 3], g.y[k / 3 % 3]});
  auto v = f->Eval(p), w = (*f)(p); vp_assert((int)v.size() == m && (int)w.size() == m, "long-list-size"); vp_near(v[at], blend(g, i, j, x, y), 1e-5, "long-list-value"); vp_near(w[at], blend(g, i, j, x, y), 1e-5, "long-list-value"); static const int L[8] = {0, 1, 15, 16, 31, 32, 63, 66}; for (int k : L) vp_near(v[k], g.d[k % 3 * 3 + k / 3 % 3], 1e-5, "long-list-node"); vp_near(v[m - 1], g.d[(m - 1) % 3 * 3 + (m - 1) / 3 % 3], 1e-5, "long-list-node"); }
