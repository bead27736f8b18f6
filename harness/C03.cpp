// C03: 1D lookup tables keep independent named series
#include "vp.h"
#include "MathUtils/LookupTable1D.h"
#include "interp_common.h"
#include <string>
using namespace mathutils;
typedef LookupTable1D<double,double> T1;
static const INTERP_METHOD METHODS[3] = {LINEAR, LINEAR_EXTRAPOLATE, LINEAR_SATURATE};
static const char* NAMES[4] = {"cx", "cy", "cz", "c"};
static const int NS = VP_THOROUGH ? 5 : 3;          // length of the history of additions
static double seg(const std::vector<double>& x, const std::vector<double>& y, int k, double q) { return (y[k] * (x[k + 1] - q) + y[k + 1] * (q - x[k])) / (x[k + 1] - x[k]); }
struct Model { std::vector<double> x; int n; int count = 0; bool has[4] = {}; std::vector<double> y[4]; };
static std::vector<double> series(int step, int n) { std::vector<double> v; for (int i = 0; i < n; i++) v.push_back(vp_symij("y", step, i, -100, 100)); return v; }
// any history of additions over a small set of names
static void history(T1& t, Model& m, int steps, int base = 0) {
  for (int s = 0; s < steps; s++) {
    int who = (int)vp_pick(s + base == 0 ? "name0" : s + base == 1 ? "name1" : s + base == 2 ? "name2" : s + base == 3 ? "name3" : "name4", 0, VP_THOROUGH ? 2 : 2);
    auto y = series(base + s, m.n);
    bool ok = t.AddY(NAMES[who], y);
    vp_assert(ok == !m.has[who], "add-result");
    if (!m.has[who]) { m.has[who] = true; m.y[who] = y; m.count++; }
  }
}
static void check(const T1& t, const Model& m, int method) {
  vp_assert(t.GetNbSeries() == (unsigned long)m.count, "series-count");
  vp_assert(t.GetNbSample() == (unsigned long)m.n, "sample-count");
  auto X = t.GetX(); vp_assert(X.size() == m.x.size(), "x-size"); for (int i = 0; i < m.n; i++) vp_near(X[i], m.x[i], 0, "x-values");
  int k = (int)vp_pick("segment", 0, m.n - 2); double q = vp_sym("q", -10, 60);
  vp_assume(m.x[k] <= q); vp_assume(q <= m.x[k + 1]);
  for (int w = 0; w < 4; w++) {
    if (m.has[w]) {
      vp_near(t.Eval(NAMES[w], q), seg(m.x, m.y[w], k, q), 1e-6, "series-value");
      std::vector<double> qs; qs.push_back(m.x[m.n - 1]); qs.push_back(q); auto v = t.Eval(NAMES[w], qs);
      vp_assert(v.size() == 2, "series-vector-size"); vp_near(v[0], m.y[w][m.n - 1], 1e-6, "series-vector"); vp_near(v[1], seg(m.x, m.y[w], k, q), 1e-6, "series-vector");
      vp_near(t.GetXmin(NAMES[w]), m.x[0], 0, "series-xmin"); vp_near(t.GetXmax(NAMES[w]), m.x[m.n - 1], 0, "series-xmax");
    } else {
      bool thrown = false; try { t.Eval(NAMES[w], q); } catch (const std::exception&) { thrown = true; }
      vp_assert(thrown, "unknown-name");
    }
  }
}
// the policy outside the range shows which method the table uses
static void policy(const T1& t, const Model& m, int w, int method) {
  double d = vp_sym("outside_by", 1e-3, 100); bool up = vp_pick("side", 0, 1);
  double q = up ? m.x[m.n - 1] + d : m.x[0] - d;
  if (method == 0) { vp_exit_begin("method-strict", 1); t.Eval(NAMES[w], q); vp_exit_end(); }
  else if (method == 1) { double v = 0; bool thrown = false; try { v = t.Eval(NAMES[w], q); } catch (...) { thrown = true; } vp_assert(!thrown, "method-extrapolate"); vp_near(v, seg(m.x, m.y[w], up ? m.n - 2 : 0, q), 1e-4, "method-extrapolate"); }
  else vp_near(t.Eval(NAMES[w], q), up ? m.y[w][m.n - 1] : m.y[w][0], 1e-6, "method-saturate");
}
static Model fresh(T1& t, int n) { Model m; m.n = n; m.x = vp_axis("x0", "h", n); t.SetX(m.x); return m; }
VP_CASES(additions, 3) { T1 t(METHODS[vp_k]); Model m = fresh(t, 3); history(t, m, NS); check(t, m, vp_k); }
VP_CASES(method, 3) { T1 t(METHODS[vp_k]); Model m = fresh(t, 2); history(t, m, 2); int w = (int)vp_pick("who", 0, 2); vp_assume(m.has[w]); policy(t, m, w, vp_k); }
// evaluation of all series at once
VP_CASE(eval_all) {
  T1 t(LINEAR); Model m = fresh(t, 3); history(t, m, 2); int k = (int)vp_pick("segment", 0, 1); double q = vp_sym("q", -10, 60); vp_assume(m.x[k] <= q); vp_assume(q <= m.x[k + 1]);
  auto all = t.Eval<double,double>(q); vp_assert(all.size() == (size_t)m.count, "all-size");
  for (int w = 0; w < 3; w++) { vp_assert((all.count(NAMES[w]) == 1) == m.has[w], "all-names"); if (m.has[w]) vp_near(all[NAMES[w]], seg(m.x, m.y[w], k, q), 1e-6, "all-values"); }
}
// moves keep everything, including the method of later additions
VP_CASES(move_construct, 3) { T1 s(METHODS[vp_k]); Model m = fresh(s, 2); history(s, m, 1); T1 t(std::move(s)); history(t, m, 1, 1); check(t, m, vp_k); }
VP_CASES(move_construct_method, 3) { T1 s(METHODS[vp_k]); Model m = fresh(s, 2); T1 t(std::move(s)); history(t, m, 1, 1); int w = (int)vp_pick("who", 0, 2); vp_assume(m.has[w]); policy(t, m, w, vp_k); }
VP_CASES(move_assign, 9) { T1 t(METHODS[vp_k / 3]); { std::vector<double> ox = vp_axis("ox0", "oh", 2); t.SetX(ox); t.AddY("cx", vp_vec("oy", 2)); }
  T1 s(METHODS[vp_k % 3]); Model m = fresh(s, 2); history(s, m, 1); t = std::move(s); history(t, m, 1, 1); check(t, m, vp_k % 3); }
VP_CASES(move_assign_method, 9) { T1 t(METHODS[vp_k / 3]); T1 s(METHODS[vp_k % 3]); Model m = fresh(s, 2); t = std::move(s); history(t, m, 1, 1); int w = (int)vp_pick("who", 0, 2); vp_assume(m.has[w]); policy(t, m, w, vp_k % 3); }
// the caller's vectors are copied: changing them later changes nothing
VP_CASE(copied) { T1 t(LINEAR); auto x = vp_axis("x0", "h", 2), y = vp_vec("y", 2); auto x2 = x, y2 = y; t.SetX(x2); t.AddY("cx", y2); for (auto& e : x2) e = 0; for (auto& e : y2) e = 0; vp_near(t.Eval("cx", x[0]), y[0], 1e-6, "copied-values"); vp_near(t.Eval("cx", x[1]), y[1], 1e-6, "copied-values"); }
// an interpolator that is initialised again describes the new table only
VP_CASES(reinit, 3) { std::unique_ptr<Interp1d<double,double>> f(Interp1d<double,double>::MakeInterp1d(METHODS[vp_k])); f->Initialize(vp_sh(vp_axis("ox0", "oh", 2)), vp_sh(vp_vec("oy", 2)));
  auto x = vp_axis("x0", "h", 3), y = vp_vec("y", 3); f->Initialize(vp_sh(x), vp_sh(y)); int k = (int)vp_pick("segment", 0, 1); double q = vp_sym("q", -10, 60); vp_assume(x[k] <= q); vp_assume(q <= x[k + 1]); vp_near(f->Eval(q), seg(x, y, k, q), 1e-6, "reinit-value"); }
// many series under close names (prefixes, case, long, empty), one of them offered again at any moment
static const char* MANY[14] = {"cx", "cX", "cx ", "c", "", "a series with a rather long name, number 1", "a series with a rather long name, number 2", "cx0", "cx1", "xc", "0", "00", "cm", "Fx"};
VP_CASES(many, 3) {
  T1 t(METHODS[vp_k]); auto x = vp_axis("x0", "h", 2); t.SetX(x); int again = (int)vp_pick("again", 0, 13); std::vector<double> y[14];
  for (int i = 0; i < 14; i++) { y[i].push_back(vp_symij("y", i, 0, -100, 100)); y[i].push_back(vp_symij("y", i, 1, -100, 100)); vp_assert(t.AddY(MANY[i], y[i]), "many-added"); vp_assert(t.GetNbSeries() == (unsigned long)i + 1, "many-count");
    if (i >= again && i % 4 == again % 4) { std::vector<double> z; z.push_back(vp_symi("z", 0, -100, 100)); z.push_back(vp_symi("z", 1, -100, 100)); vp_assert(!t.AddY(MANY[again], z), "many-refused"); vp_assert(t.GetNbSeries() == (unsigned long)i + 1, "many-count"); } }
  double s = vp_sym("s", 0, 1), q = x[0] + s * (x[1] - x[0]); for (int i = 0; i < 14; i++) vp_near(t.Eval(MANY[i], q), y[i][0] + s * (y[i][1] - y[i][0]), 1e-6, "many-value");
  auto all = t.Eval<double, double>(q); vp_assert(all.size() == 14, "many-all"); for (int i = 0; i < 14; i++) vp_near(all[MANY[i]], y[i][0] + s * (y[i][1] - y[i][0]), 1e-6, "many-all-value");
  static const char* NO[4] = {"CX", "cx2", " cx", "a series with a rather long name, number 3"}; for (auto n : NO) { bool thrown = false; try { t.Eval(n, q); } catch (const std::exception&) { thrown = true; } vp_assert(thrown, "many-unknown"); thrown = false; try { t.GetXmin(n); } catch (const std::exception&) { thrown = true; } vp_assert(thrown, "many-unknown-range"); std::vector<double> qs(1, q); thrown = false; try { t.Eval(n, qs); } catch (const std::exception&) { thrown = true; } vp_assert(thrown, "many-unknown-vector"); } vp_assert(t.GetNbSeries() == 14, "many-count-after");
}
// a new X vector serves the later additions only
VP_CASES(new_x, 3) {
  T1 t(METHODS[vp_k]); auto xa = vp_axis("x0", "h", 2), xb = vp_axis("u0", "g", 3), ya = vp_vec("ya", 2), yb = vp_vec("yb", 3); t.SetX(xa); t.AddY("cx", ya); t.SetX(xb); vp_assert(!t.AddY("cx", yb), "new-x-refused"); vp_assert(t.AddY("cy", yb), "new-x-added");
  double s = vp_sym("s", 0, 1); vp_near(t.Eval("cx", xa[0] + s * (xa[1] - xa[0])), ya[0] + s * (ya[1] - ya[0]), 1e-6, "new-x-old-series"); int k = (int)vp_pick("segment", 0, 1); vp_near(t.Eval("cy", xb[k] + s * (xb[k + 1] - xb[k])), yb[k] + s * (yb[k + 1] - yb[k]), 1e-6, "new-x-new-series");
  vp_near(t.GetXmin("cx"), xa[0], 0, "new-x-range"); vp_near(t.GetXmax("cx"), xa[1], 0, "new-x-range"); vp_near(t.GetXmin("cy"), xb[0], 0, "new-x-range"); vp_near(t.GetXmax("cy"), xb[2], 0, "new-x-range");
}
// tables do not share anything, before and after moves; a moved-to table survives its source
VP_CASES(two_tables, 3) {
  T1 a(METHODS[vp_k]); auto xa = vp_axis("x0", "h", 2), xb = vp_axis("u0", "g", 2), ya = vp_vec("ya", 2), yb = vp_vec("yb", 2), yc = vp_vec("yc", 2); a.SetX(xa); a.AddY("cx", ya);
  { T1 b(METHODS[(vp_k + 1) % 3]); b.SetX(xb); b.AddY("cx", yb); b.AddY("cy", yc); double s = vp_sym("s", 0, 1); vp_near(a.Eval("cx", xa[0] + s * (xa[1] - xa[0])), ya[0] + s * (ya[1] - ya[0]), 1e-6, "two-first"); vp_near(b.Eval("cx", xb[0] + s * (xb[1] - xb[0])), yb[0] + s * (yb[1] - yb[0]), 1e-6, "two-second"); T1 c(std::move(b)); a = std::move(c); vp_near(a.Eval("cx", xb[0] + s * (xb[1] - xb[0])), yb[0] + s * (yb[1] - yb[0]), 1e-6, "two-moved"); }
  double s = vp_sym("s2", 0, 1); vp_near(a.Eval("cy", xb[0] + s * (xb[1] - xb[0])), yc[0] + s * (yc[1] - yc[0]), 1e-6, "two-outlives"); vp_assert(a.GetNbSeries() == 2, "two-count"); T1& self = a; a = std::move(self); vp_near(a.Eval("cx", xb[0] + s * (xb[1] - xb[0])), yb[0] + s * (yb[1] - yb[0]), 1e-6, "two-self-move"); vp_assert(a.GetNbSeries() == 2, "two-self-count");
}
// complex series
VP_CASE(complex_series) { typedef std::complex<double> C; LookupTable1D<double, C> t(LINEAR); auto x = vp_axis("x0", "h", 3); t.SetX(x); std::vector<C> y[2]; for (int i = 0; i < 2; i++) for (int k = 0; k < 3; k++) y[i].push_back(C(vp_symij("re", i, k, -100, 100), vp_symij("im", i, k, -100, 100))); vp_assert(t.AddY("cx", y[0]), "complex-added"); vp_assert(t.AddY("cy", y[1]), "complex-added"); vp_assert(!t.AddY("cx", y[1]), "complex-refused"); int k = (int)vp_pick("segment", 0, 1); double s = vp_sym("s", 0, 1), q = x[k] + s * (x[k + 1] - x[k]); const char* nm[2] = {"cx", "cy"}; for (int i = 0; i < 2; i++) { C v = t.Eval(nm[i], q); vp_near(v.real(), y[i][k].real() + s * (y[i][k + 1].real() - y[i][k].real()), 1e-6, "complex-series"); vp_near(v.imag(), y[i][k].imag() + s * (y[i][k + 1].imag() - y[i][k].imag()), 1e-6, "complex-series"); } }
// very long series, and very many series
VP_CASES(very_long, 9) {
  static const int L[3] = {40, 300, 1100}; int n = L[vp_k / 3]; auto segs = vp_long_segments(n); int k = segs[vp_pick("segment", 0, (long)segs.size() - 1)]; T1 t(METHODS[vp_k % 3]); auto x = vp_long_axis(n), y = vp_long_values(n, k); std::vector<double> o; for (int i = 0; i < n; i++) o.push_back(i * 11 % 17); t.SetX(x); vp_assert(t.AddY("cx", y), "long-added"); vp_assert(t.AddY("cy", o), "long-added"); vp_assert(!t.AddY("cx", o), "long-refused");
  vp_assert(t.GetNbSeries() == 2 && t.GetNbSample() == (unsigned long)n, "long-count"); double s = vp_sym("s", 0, 1), q = x[k] + s * (x[k + 1] - x[k]); vp_near(t.Eval("cx", q), y[k] + s * (y[k + 1] - y[k]), 1e-6, "long-value"); vp_near(t.Eval("cy", q), o[k] + s * (o[k + 1] - o[k]), 1e-6, "long-value"); std::vector<double> qs(1, q); vp_near(t.Eval("cx", qs)[0], y[k] + s * (y[k + 1] - y[k]), 1e-6, "long-vector"); vp_near(t.GetXmin("cx"), x[0], 0, "long-range"); vp_near(t.GetXmax("cy"), x[n - 1], 0, "long-range");
}
VP_CASES(very_many, 2) {
  int ns = vp_k ? 300 : 40; T1 t(LINEAR); auto x = vp_axis("x0", "h", 2); t.SetX(x); std::vector<std::string> nm; std::vector<std::vector<double>> ys; for (int i = 0; i < ns; i++) { nm.push_back("series" + std::to_string(i * 7919 % 1009)); std::vector<double> y; y.push_back(i % 8 == 3 ? vp_symi("ya", i, -100, 100) : i); y.push_back(i % 8 == 3 ? vp_symi("yb", i, -100, 100) : -i); ys.push_back(y); vp_assert(t.AddY(nm[i], y), "very-many-added"); vp_assert(!t.AddY(nm[i / 2], x), "very-many-refused"); vp_assert(t.GetNbSeries() == (unsigned long)i + 1, "very-many-count"); }
  double s = vp_sym("s", 0, 1), q = x[0] + s * (x[1] - x[0]); for (int i = 0; i < ns; i++) if (i % 8 == 3 || i > ns - 3 || i < 2) vp_near(t.Eval(nm[i], q), ys[i][0] + s * (ys[i][1] - ys[i][0]), 1e-6, "very-many-value"); auto all = t.Eval<double, double>(q); vp_assert(all.size() == (size_t)ns, "very-many-all"); for (int i = 0; i < ns; i++) if (i % 8 == 3) vp_near(all[nm[i]], ys[i][0] + s * (ys[i][1] - ys[i][0]), 1e-6, "very-many-all-value");
}
