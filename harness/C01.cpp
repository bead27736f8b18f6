// C01: 1D linear interpolation is the piecewise-linear interpolant
#include "vp.h"
#include "MathUtils/Interp1d.h"
#include "interp_common.h"
#include <complex>
using namespace mathutils;
static const int NMAX = VP_THOROUGH ? 6 : 4;
struct Table { int n; std::shared_ptr<std::vector<double>> x, y; };
static Table table(int n) {
  Table t; t.n = n; t.x = std::make_shared<std::vector<double>>(); t.y = std::make_shared<std::vector<double>>();
  double x = vp_sym("x0", -10, 10);
  for (int i = 0; i < n; i++) { if (i) x += vp_symi("h", i, 0.125, 8); t.x->push_back(x); t.y->push_back(vp_symi("y", i, -100, 100)); }
  return t;
}
static std::unique_ptr<Interp1d<double,double>> make(int kind, const Table& t) {
  std::unique_ptr<Interp1d<double,double>> f(Interp1d<double,double>::MakeInterp1d(kind == 0 ? LINEAR : kind == 1 ? LINEAR_EXTRAPOLATE : LINEAR_SATURATE));
  f->Initialize(t.x, t.y); return f;
}
// every table of n points, every query in the closed segment k
VP_CASES(segment, 3 * (NMAX - 1)) {
  int n = 2 + vp_k % (NMAX - 1), kind = vp_k / (NMAX - 1);
  Table t = table(n); auto f = make(kind, t);
  int k = (int)vp_pick("segment", 0, n - 2);
  double q = vp_sym("q", -10, 10 + 8 * n);
  double a = (*t.x)[k], b = (*t.x)[k + 1], ya = (*t.y)[k], yb = (*t.y)[k + 1];
  vp_assume(a <= q); vp_assume(q <= b);
  double v = f->Eval(q);
  vp_near(v * (b - a), ya * (b - q) + yb * (q - a), 1e-6, "segment-value");
  vp_near((*f)(q), v, 0, "call-operator");
}
// nodes give the tabulated value; vector evaluation keeps order
VP_CASES(nodes, 3 * (NMAX - 1)) {
  int n = 2 + vp_k % (NMAX - 1), kind = vp_k / (NMAX - 1);
  Table t = table(n); auto f = make(kind, t);
  std::vector<double> q; for (int i = n - 1; i >= 0; i--) q.push_back((*t.x)[i]);
  std::vector<double> v = f->Eval(q), w = (*f)(q);
  vp_assert((int)v.size() == n, "vector-size"); vp_assert((int)w.size() == n, "vector-size");
  for (int i = 0; i < n; i++) { vp_near(v[i], (*t.y)[n - 1 - i], 1e-6, "node-value"); vp_near(w[i], v[i], 0, "vector-call"); vp_near(f->Eval((*t.x)[i]), (*t.y)[i], 1e-6, "node-scalar"); }
}
// longer tables (index search), every segment
VP_CASES(long_table, 6) {
  int n = vp_k / 3 ? (VP_THOROUGH ? 33 : 17) : 9; Table t = table(n); auto f = make(vp_k % 3, t);
  int k = (int)vp_pick("segment", 0, n - 2); double a = (*t.x)[k], b = (*t.x)[k + 1], s = vp_sym("s", 0, 1), q = a + s * (b - a);
  vp_near(f->Eval(q), (*t.y)[k] + s * ((*t.y)[k + 1] - (*t.y)[k]), 1e-6, "long-value");
}
// the answers do not depend on the queries made before: three queries in any segments, in any order, alone and in one vector
VP_CASES(history, 3) {
  int n = VP_THOROUGH ? 5 : 4; Table t = table(n); auto f = make(vp_k, t); std::vector<double> q, want; int k[3]; const char* nm[3] = {"seg0", "seg1", "seg2"};
  for (int i = 0; i < 3; i++) { k[i] = (int)vp_pick(nm[i], 0, n - 2); double s = vp_symi("s", i, 0, 1), a = (*t.x)[k[i]], b = (*t.x)[k[i] + 1]; q.push_back(a + s * (b - a)); want.push_back((*t.y)[k[i]] + s * ((*t.y)[k[i] + 1] - (*t.y)[k[i]])); }
  for (int i = 0; i < 3; i++) vp_near(f->Eval(q[i]), want[i], 1e-6, "history-value");
  vp_near(f->Eval(q[0]), want[0], 1e-6, "history-again");
  auto v = (*f)(q); vp_assert(v.size() == 3, "history-size"); for (int i = 0; i < 3; i++) vp_near(v[i], want[i], 1e-6, "history-vector");
}
// tables of very small and very large abscissae and ordinates
static const double XS[5] = {1e-9, 1e-4, 1, 1e5, 1e12}, YS[5] = {1e-12, 1e-5, 1, 1e6, 1e12};
VP_CASES(scales, 25) {
  double xs = XS[vp_k / 5], ys = YS[vp_k % 5]; int n = 3; Table t; t.n = n; t.x = std::make_shared<std::vector<double>>(); t.y = std::make_shared<std::vector<double>>();
  double x = xs * vp_sym("x0", -10, 10); for (int i = 0; i < n; i++) { if (i) x += xs * vp_symi("h", i, 0.125, 8); t.x->push_back(x); t.y->push_back(ys * vp_symi("y", i, -100, 100)); }
  auto f = make(vp_k % 3, t); int k = (int)vp_pick("segment", 0, n - 2); double s = vp_sym("s", 0, 1), a = (*t.x)[k], b = (*t.x)[k + 1];
  vp_near(f->Eval(a + s * (b - a)) / ys, ((*t.y)[k] + s * ((*t.y)[k + 1] - (*t.y)[k])) / ys, 1e-6, "scaled-value");
}
// complex ordinates
VP_CASES(complex_values, 3 * (NMAX - 1)) {
  int n = 2 + vp_k % (NMAX - 1), kind = vp_k / (NMAX - 1); Table t = table(n); auto y = std::make_shared<std::vector<std::complex<double>>>(); for (int i = 0; i < n; i++) y->push_back({(*t.y)[i], vp_symi("im", i, -100, 100)});
  typedef Interp1d<double, std::complex<double>> IC; std::unique_ptr<IC> f(IC::MakeInterp1d(kind == 0 ? LINEAR : kind == 1 ? LINEAR_EXTRAPOLATE : LINEAR_SATURATE)); f->Initialize(t.x, y);
  int k = (int)vp_pick("segment", 0, n - 2); double s = vp_sym("s", 0, 1), a = (*t.x)[k], b = (*t.x)[k + 1], q = a + s * (b - a);
  std::complex<double> want((*y)[k].real() + s * ((*y)[k + 1].real() - (*y)[k].real()), (*y)[k].imag() + s * ((*y)[k + 1].imag() - (*y)[k].imag()));
  vp_nearc(f->Eval(q), want, 1e-6, "complex-value"); vp_nearc((*f)(q), want, 1e-6, "complex-call");
  std::vector<double> qs; qs.push_back((*t.x)[n - 1]); qs.push_back(q); qs.push_back((*t.x)[0]); auto v = f->Eval(qs); vp_assert(v.size() == 3, "complex-size"); vp_nearc(v[0], (*y)[n - 1], 1e-6, "complex-vector"); vp_nearc(v[1], want, 1e-6, "complex-vector"); vp_nearc(v[2], (*y)[0], 1e-6, "complex-vector");
}
// single precision tables
VP_CASES(single_precision, 3) {
  typedef Interp1d<float, float> IF; int n = 3; auto x = std::make_shared<std::vector<float>>(), y = std::make_shared<std::vector<float>>();
  double c = vp_sym("x0", -10, 10); for (int i = 0; i < n; i++) { if (i) c += vp_symi("h", i, 0.125, 8); x->push_back((float)c); y->push_back((float)vp_symi("y", i, -100, 100)); }
  std::unique_ptr<IF> f(IF::MakeInterp1d(vp_k == 0 ? LINEAR : vp_k == 1 ? LINEAR_EXTRAPOLATE : LINEAR_SATURATE)); f->Initialize(x, y);
  int k = (int)vp_pick("segment", 0, n - 2); float q = (float)vp_sym("q", -10, 30); vp_assume((*x)[k] <= q); vp_assume(q <= (*x)[k + 1]);
  double a = (*x)[k], b = (*x)[k + 1]; vp_near((double)f->Eval(q) * (b - a), (double)(*y)[k] * (b - q) + (double)(*y)[k + 1] * (q - a), 0.5, "float-value");
}
// very long tables: concrete uneven abscissae, the ends of the looked-at segment symbolic, every query of that closed segment
static const int LONGN[4] = {40, 130, 300, 1100};
VP_CASES(very_long, 12) {
  int n = LONGN[vp_k / 3]; auto segs = vp_long_segments(n); int k = segs[vp_pick("segment", 0, (long)segs.size() - 1)]; Table t; t.n = n; t.x = vp_sh(vp_long_axis(n)); t.y = vp_sh(vp_long_values(n, k)); auto f = make(vp_k % 3, t);
  double a = (*t.x)[k], b = (*t.x)[k + 1], s = vp_sym("s", 0, 1), q = a + s * (b - a); vp_near(f->Eval(q), (*t.y)[k] + s * ((*t.y)[k + 1] - (*t.y)[k]), 1e-6, "very-long-value");
  std::vector<double> qs; qs.push_back((*t.x)[n - 1]); qs.push_back(q); qs.push_back((*t.x)[0]); qs.push_back(a); auto v = f->Eval(qs); vp_assert(v.size() == 4, "very-long-size"); vp_near(v[0], (*t.y)[n - 1], 1e-6, "very-long-vector"); vp_near(v[1], (*t.y)[k] + s * ((*t.y)[k + 1] - (*t.y)[k]), 1e-6, "very-long-vector"); vp_near(v[2], (*t.y)[0], 1e-6, "very-long-vector"); vp_near(v[3], (*t.y)[k], 1e-6, "very-long-vector");
}
// many queries in one call: the answer i belongs to the query i
VP_CASES(many_queries, 6) {
  int n = 5, m = vp_k / 3 ? 1025 : 70; Table t = table(n); auto f = make(vp_k % 3, t); int k = (int)vp_pick("segment", 0, n - 2), at = vp_k / 3 ? 1000 : 65; double s = vp_sym("s", 0, 1), a = (*t.x)[k], b = (*t.x)[k + 1], q = a + s * (b - a);
  std::vector<double> qs; for (int i = 0; i < m; i++) qs.push_back(i == at ? q : (*t.x)[i * 3 % n]); auto v = f->Eval(qs), w = (*f)(qs); vp_assert((int)v.size() == m && (int)w.size() == m, "many-size");
  vp_near(v[at], (*t.y)[k] + s * ((*t.y)[k + 1] - (*t.y)[k]), 1e-6, "many-value"); vp_near(w[at], v[at], 0, "many-call"); static const int L[8] = {0, 1, 15, 16, 31, 32, 63, 64}; for (int i : L) vp_near(v[i], (*t.y)[i * 3 % n], 1e-6, "many-node"); vp_near(v[m - 1], (*t.y)[(m - 1) * 3 % n], 1e-6, "many-node"); vp_near(w[m - 1], (*t.y)[(m - 1) * 3 % n], 1e-6, "many-node");
}
