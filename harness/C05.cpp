// C05: 2D lookup tables keep independent named series
#include "vp.h"
#include "MathUtils/LookupTable2D.h"
#include "interp_common.h"
#include <string>
using namespace mathutils;
typedef LookupTable2d<double> T2;
static const char* NAMES[4] = {"fx", "fy", "fz", "f"};
struct Model { int nx, ny, count = 0; std::vector<double> x, y; bool has[4] = {}; std::vector<double> d[4]; };
static double blend(const Model& m, const std::vector<double>& d, int i, int j, double x, double y) {
  double u = x - m.x[i], v = y - m.y[j], hx = m.x[i + 1] - m.x[i], hy = m.y[j + 1] - m.y[j];
  auto D = [&](int a, int b) { return d[(i + a) * m.ny + j + b]; };
  return (D(0, 0) * (hx - u) * (hy - v) + D(1, 0) * u * (hy - v) + D(0, 1) * (hx - u) * v + D(1, 1) * u * v) / (hx * hy);
}
static Model fresh(T2& t, int nx, int ny) { Model m; m.nx = nx; m.ny = ny; m.x = vp_axis("x0", "hx", nx); m.y = vp_axis("y0", "hy", ny); t.SetX(m.x); t.SetY(m.y); return m; }
static void history(T2& t, Model& m, int steps) {
  for (int s = 0; s < steps; s++) {
    int who = (int)vp_pick(s == 0 ? "name0" : s == 1 ? "name1" : s == 2 ? "name2" : "name3", 0, 2);
    std::vector<double> d; for (int i = 0; i < m.nx * m.ny; i++) d.push_back(vp_symij("d", s, i, -100, 100));
    bool ok = t.AddData(NAMES[who], d); vp_assert(ok == !m.has[who], "add-result");
    if (!m.has[who]) { m.has[who] = true; m.d[who] = d; m.count++; }
  }
}
static void check(const T2& t, const Model& m) {
  vp_assert(t.GetNbSeries() == (unsigned long)m.count, "series-count"); vp_assert(t.GetNbSample() == (unsigned long)(m.nx * m.ny), "sample-count");
  auto X = t.GetX(), Y = t.GetY(); vp_assert((int)X.size() == m.nx, "axes-size"); vp_assert((int)Y.size() == m.ny, "axes-size");
  for (int i = 0; i < m.nx; i++) vp_near(X[i], m.x[i], 0, "axes"); for (int i = 0; i < m.ny; i++) vp_near(Y[i], m.y[i], 0, "axes");
  int i = (int)vp_pick("ix", 0, m.nx - 2), j = (int)vp_pick("iy", 0, m.ny - 2); double x = vp_sym("x", -10, 40), y = vp_sym("y", -10, 40);
  vp_assume(m.x[i] <= x); vp_assume(x <= m.x[i + 1]); vp_assume(m.y[j] <= y); vp_assume(y <= m.y[j + 1]);
  for (int w = 0; w < 4; w++) {
    vp_assert(t.HasSerie(NAMES[w]) == m.has[w], "presence");
    if (!m.has[w]) { bool thrown = false; try { t.Eval(NAMES[w], x, y); } catch (const std::exception&) { thrown = true; } vp_assert(thrown, "unknown-name"); continue; }
    double want = blend(m, m.d[w], i, j, x, y);
    vp_near(t.Eval(NAMES[w], x, y), want, 1e-5, "value");
    std::vector<double> c; c.push_back(x); c.push_back(y); vp_near(t.Eval(NAMES[w], c), want, 1e-5, "value-pair");
    std::vector<std::vector<double>> l; l.push_back({m.x[m.nx - 1], m.y[0]}); l.push_back(c); auto v = t.Eval(NAMES[w], l);
    vp_assert(v.size() == 2, "list-size"); vp_near(v[0], m.d[w][(m.nx - 1) * m.ny], 1e-5, "list-value"); vp_near(v[1], want, 1e-5, "list-value");
  }
}
VP_CASES(additions, 3) { T2 t; Model m = fresh(t, vp_k == 1 ? 3 : 2, vp_k == 2 ? 3 : 2); if (vp_k == 0) t.SetInterpolationMethod(LINEAR); history(t, m, VP_THOROUGH ? 4 : (vp_k == 0 ? 3 : 2)); check(t, m); }
VP_CASE(empty) { T2 t; Model m = fresh(t, 2, 2); check(t, m); }
// the caller's vectors are copied
VP_CASE(copied) { T2 t; Model m = fresh(t, 2, 2); std::vector<double> d = vp_vec("e", 4), c = d; t.AddData("fx", c); for (auto& e : c) e = 0; m.has[0] = true; m.d[0] = d; m.count = 1; check(t, m); }
static const char* MANY[14] = {"cx", "cX", "cx ", "c", "", "a series with a rather long name, number 1", "a series with a rather long name, number 2", "cx0", "cx1", "xc", "0", "00", "cm", "Fx"};
static double bl(const std::vector<double>& d, int ny, int i, int j, double u, double v) { return d[i * ny + j] * (1 - u) * (1 - v) + d[(i + 1) * ny + j] * u * (1 - v) + d[i * ny + j + 1] * (1 - u) * v + d[(i + 1) * ny + j + 1] * u * v; }
// many series under close names, one of them offered again at any moment
VP_CASE(many) {
  T2 t; auto x = vp_axis("x0", "hx", 2), y = vp_axis("y0", "hy", 2); t.SetX(x); t.SetY(y); int again = (int)vp_pick("again", 0, 13); std::vector<double> d[14];
  for (int i = 0; i < 14; i++) { for (int k = 0; k < 4; k++) d[i].push_back(vp_symij("d", i, k, -100, 100)); vp_assert(t.AddData(MANY[i], d[i]), "many-added"); vp_assert(t.GetNbSeries() == (unsigned long)i + 1, "many-count"); if (i >= again && i % 4 == again % 4) { std::vector<double> z = vp_vec("z", 4); vp_assert(!t.AddData(MANY[again], z), "many-refused"); vp_assert(t.GetNbSeries() == (unsigned long)i + 1, "many-count"); } }
  double u = vp_sym("u", 0, 1), v = vp_sym("v", 0, 1), px = x[0] + u * (x[1] - x[0]), py = y[0] + v * (y[1] - y[0]); std::vector<double> c; c.push_back(px); c.push_back(py); std::vector<std::vector<double>> l(3, c);
  for (int i = 0; i < 14; i++) { double w = bl(d[i], 2, 0, 0, u, v); vp_near(t.Eval(MANY[i], px, py), w, 1e-5, "many-value"); vp_near(t.Eval(MANY[i], c), w, 1e-5, "many-pair"); vp_assert(t.HasSerie(MANY[i]), "many-present"); if (i % 5 == 0) { auto r = t.Eval(MANY[i], l); vp_assert(r.size() == 3, "many-list"); for (auto e : r) vp_near(e, w, 1e-5, "many-list-value"); } }
  static const char* NO[4] = {"CX", "cx2", " cx", "a series with a rather long name, number 3"}; for (auto n : NO) { vp_assert(!t.HasSerie(n), "many-absent"); for (int f = 0; f < 3; f++) { bool thrown = false; try { if (f == 0) t.Eval(n, px, py); else if (f == 1) t.Eval(n, c); else t.Eval(n, l); } catch (const std::exception&) { thrown = true; } vp_assert(thrown, "many-unknown"); } vp_assert(!t.HasSerie(n), "many-absent-after"); } vp_assert(t.GetNbSeries() == 14, "many-count-after");
}
// new axes serve the later additions only
VP_CASE(new_axes) {
  T2 t; auto xa = vp_axis("x0", "hx", 2), ya = vp_axis("y0", "hy", 3), xb = vp_axis("u0", "gx", 3), yb = vp_axis("v0", "gy", 2); auto da = vp_vec("da", 6), db = vp_vec("db", 6); t.SetX(xa); t.SetY(ya); t.AddData("fx", da); t.SetX(xb); t.SetY(yb); vp_assert(!t.AddData("fx", db), "new-axes-refused"); vp_assert(t.AddData("fy", db), "new-axes-added");
  double u = vp_sym("u", 0, 1), v = vp_sym("v", 0, 1); int k = (int)vp_pick("cell", 0, 1); vp_near(t.Eval("fx", xa[0] + u * (xa[1] - xa[0]), ya[k] + v * (ya[k + 1] - ya[k])), bl(da, 3, 0, k, u, v), 1e-5, "new-axes-old-series"); vp_near(t.Eval("fy", xb[k] + u * (xb[k + 1] - xb[k]), yb[0] + v * (yb[1] - yb[0])), bl(db, 2, k, 0, u, v), 1e-5, "new-axes-new-series");
}
// larger grids, and evaluations in sequence
VP_CASES(larger, 4) {
  static const int S[4][2] = {{4, 3}, {3, 4}, {6, 2}, {2, 7}}; T2 t; Model m = fresh(t, S[vp_k][0], S[vp_k][1]); std::vector<double> d[2]; for (int q = 0; q < 2; q++) { for (int i = 0; i < m.nx * m.ny; i++) d[q].push_back(vp_symij("d", q, i, -100, 100)); vp_assert(t.AddData(NAMES[q], d[q]), "larger-added"); } vp_assert(t.GetNbSample() == (unsigned long)(m.nx * m.ny), "larger-samples");
  int i0 = (int)vp_pick("i0", 0, m.nx - 2), j0 = (int)vp_pick("j0", 0, m.ny - 2), i1 = (int)vp_pick("i1", 0, m.nx - 2), j1 = m.ny - 2 - j0; double u = vp_sym("u", 0, 1), v = vp_sym("v", 0, 1); auto X = [&](int i) { return m.x[i] + u * (m.x[i + 1] - m.x[i]); }; auto Y = [&](int j) { return m.y[j] + v * (m.y[j + 1] - m.y[j]); };
  vp_near(t.Eval("fx", X(i0), Y(j0)), bl(d[0], m.ny, i0, j0, u, v), 1e-5, "larger-first"); vp_near(t.Eval("fy", X(i1), Y(j1)), bl(d[1], m.ny, i1, j1, u, v), 1e-5, "larger-second"); vp_near(t.Eval("fx", X(i1), Y(j1)), bl(d[0], m.ny, i1, j1, u, v), 1e-5, "larger-third"); vp_near(t.Eval("fx", X(i0), Y(j0)), bl(d[0], m.ny, i0, j0, u, v), 1e-5, "larger-again");
  std::vector<std::vector<double>> l; l.push_back({X(i1), Y(j1)}); l.push_back({X(i0), Y(j0)}); auto r = t.Eval("fy", l); vp_assert(r.size() == 2, "larger-list"); vp_near(r[0], bl(d[1], m.ny, i1, j1, u, v), 1e-5, "larger-list-value"); vp_near(r[1], bl(d[1], m.ny, i0, j0, u, v), 1e-5, "larger-list-value");
}
// very large grids, very many series
VP_CASES(very_large, 6) {
  LongGrid g(VP_LONG2[vp_k][0], VP_LONG2[vp_k][1]); T2 t; t.SetX(g.x); t.SetY(g.y); std::vector<double> o; for (size_t k = 0; k < g.d.size(); k++) o.push_back(k * 7 % 31); vp_assert(t.AddData("fx", g.d), "very-large-added"); vp_assert(t.AddData("fy", o), "very-large-added"); vp_assert(!t.AddData("fx", o), "very-large-refused"); vp_assert(t.GetNbSeries() == 2 && t.GetNbSample() == g.d.size(), "very-large-count"); vp_assert(t.GetX().size() == g.x.size() && t.GetY().size() == g.y.size(), "very-large-axes");
  double s = vp_sym("s", 0, 1), u = vp_sym("t", 0, 1), x = g.X(s), y = g.Y(u); vp_near(t.Eval("fx", x, y), g.blend(s, u), 1e-5, "very-large-value"); vp_near(t.Eval("fy", x, y), bl(o, g.ny, g.i, g.j, s, u), 1e-5, "very-large-value"); std::vector<double> c; c.push_back(x); c.push_back(y); vp_near(t.Eval("fx", c), g.blend(s, u), 1e-5, "very-large-pair"); std::vector<std::vector<double>> l(70, std::vector<double>{g.x.back(), g.y[0]}); l[65] = c; auto r = t.Eval("fx", l); vp_assert(r.size() == 70, "very-large-list"); vp_near(r[65], g.blend(s, u), 1e-5, "very-large-list-value"); vp_near(r[69], g.at(g.nx - 1, 0), 1e-5, "very-large-list-value");
}
VP_CASES(very_many, 2) { int ns = vp_k ? 200 : 40; T2 t; auto x = vp_axis("x0", "hx", 2), y = vp_axis("y0", "hy", 2); t.SetX(x); t.SetY(y); std::vector<std::string> nm; std::vector<std::vector<double>> ds; for (int i = 0; i < ns; i++) { nm.push_back("f" + std::to_string(i * 7919 % 1009)); std::vector<double> d; for (int k = 0; k < 4; k++) d.push_back(i % 8 == 3 ? vp_symij("d", i, k, -100, 100) : i - k); ds.push_back(d); vp_assert(!t.HasSerie(nm[i]), "very-many-absent"); vp_assert(t.AddData(nm[i], d), "very-many-added"); vp_assert(!t.AddData(nm[i / 2], x), "very-many-refused"); vp_assert(t.GetNbSeries() == (unsigned long)i + 1, "very-many-count"); }
  double u = vp_sym("u", 0, 1), v = vp_sym("v", 0, 1), px = x[0] + u * (x[1] - x[0]), py = y[0] + v * (y[1] - y[0]); for (int i = 0; i < ns; i++) if (i % 8 == 3 || i > ns - 3 || i < 2) { vp_near(t.Eval(nm[i], px, py), bl(ds[i], 2, 0, 0, u, v), 1e-5, "very-many-value"); vp_assert(t.HasSerie(nm[i]), "very-many-present"); } }
