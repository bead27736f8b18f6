// C02: 1D interpolation out-of-range policies and factory
#include "vp.h"
#include "MathUtils/Interp1d.h"
#include "interp_common.h"
using namespace mathutils;
typedef Interp1d<double,double> I1;
typedef Interp1d<double,std::complex<double>> IC;
static const int NMAX = VP_THOROUGH ? 7 : 4;
static const int K = NMAX - 1;
static std::unique_ptr<I1> make(INTERP_METHOD m, const std::vector<double>& x, const std::vector<double>& y) {
  std::unique_ptr<I1> f(I1::MakeInterp1d(m)); f->Initialize(vp_sh(x), vp_sh(y)); return f;
}
// side 0: below the table, side 1: above; returns a query strictly outside
static double outside(const std::vector<double>& x, int side) {
  double d = vp_sym("outside_by", 1e-9, 1000);
  return side ? x.back() + d : x.front() - d;
}
VP_CASES(strict, 2 * K) {
  int n = 2 + vp_k / 2; auto x = vp_axis("x0", "h", n), y = vp_vec("y", n); auto f = make(LINEAR, x, y);
  double q = outside(x, vp_k % 2);
  vp_exit_begin("strict-exit", 1); f->Eval(q); vp_exit_end();
}
VP_CASES(strict_vector, 2 * K) {
  int n = 2 + vp_k / 2; auto x = vp_axis("x0", "h", n), y = vp_vec("y", n); auto f = make(LINEAR, x, y);
  std::vector<double> q; q.push_back(x[0]); q.push_back(outside(x, vp_k % 2));
  vp_exit_begin("strict-vector-exit", 1); (*f)(q); vp_exit_end();
}
VP_CASES(saturate, 2 * K) {
  int n = 2 + vp_k / 2; auto x = vp_axis("x0", "h", n), y = vp_vec("y", n); auto f = make(LINEAR_SATURATE, x, y);
  double q = outside(x, vp_k % 2), want = vp_k % 2 ? y[n - 1] : y[0];
  vp_near(f->Eval(q), want, 1e-6, "saturate-value");
  std::vector<double> qs(2, q); auto v = f->Eval(qs);
  vp_assert(v.size() == 2, "saturate-vector-size"); vp_near(v[1], want, 1e-6, "saturate-vector");
}
VP_CASES(extrapolate, 2 * K) {
  int n = 2 + vp_k / 2; auto x = vp_axis("x0", "h", n), y = vp_vec("y", n); auto f = make(LINEAR_EXTRAPOLATE, x, y);
  double q = outside(x, vp_k % 2);
  int k = vp_k % 2 ? n - 2 : 0;
  double v = 0; bool thrown = false;
  try { v = f->Eval(q); } catch (...) { thrown = true; }
  vp_assert(!thrown, "extrapolate-returns");
  vp_near(v * (x[k + 1] - x[k]), y[k] * (x[k + 1] - q) + y[k + 1] * (q - x[k]), 1e-4, "extrapolate-value");
  std::vector<double> qs(1, q); auto w = (*f)(qs);
  vp_assert(w.size() == 1, "extrapolate-vector-size"); vp_near(w[0], v, 1e-9, "extrapolate-vector");
}
// complex ordinates follow the same policies
VP_CASES(complex_policy, 4) {
  int n = 3; auto x = vp_axis("x0", "h", n), re = vp_vec("re", n), im = vp_vec("im", n);
  auto y = std::make_shared<std::vector<std::complex<double>>>(); for (int i = 0; i < n; i++) y->push_back({re[i], im[i]});
  bool sat = vp_k / 2; std::unique_ptr<IC> f(IC::MakeInterp1d(sat ? LINEAR_SATURATE : LINEAR_EXTRAPOLATE)); f->Initialize(vp_sh(x), y);
  double q = outside(x, vp_k % 2); int k = vp_k % 2 ? n - 2 : 0, e = vp_k % 2 ? n - 1 : 0;
  std::complex<double> v; bool thrown = false; try { v = f->Eval(q); } catch (...) { thrown = true; }
  vp_assert(!thrown, "complex-returns");
  if (sat) vp_nearc(v, (*y)[e], 1e-6, "complex-saturate");
  else { double h = x[k + 1] - x[k];
    vp_near(v.real() * h, re[k] * (x[k + 1] - q) + re[k + 1] * (q - x[k]), 1e-4, "complex-extrapolate");
    vp_near(v.imag() * h, im[k] * (x[k + 1] - q) + im[k + 1] * (q - x[k]), 1e-4, "complex-extrapolate"); }
}
// a table end is inside the range for the strict method
VP_CASE(ends_inside) {
  int n = 3; auto x = vp_axis("x0", "h", n), y = vp_vec("y", n); auto f = make(LINEAR, x, y);
  vp_near(f->Eval(x[0]), y[0], 1e-6, "end-value"); vp_near(f->Eval(x[n - 1]), y[n - 1], 1e-6, "end-value");
  vp_near(f->GetXmin(), x[0], 0, "xmin"); vp_near(f->GetXmax(), x[n - 1], 0, "xmax");
}
VP_CASE(factory_bspline) { vp_exit_begin("factory-exit", 1); I1::MakeInterp1d(BSPLINE); vp_exit_end(); }
VP_CASE(factory_unknown) { int m = (int)vp_pick("method", 4, 9); vp_exit_begin("factory-unknown-exit", 1); I1::MakeInterp1d((INTERP_METHOD)m); vp_exit_end(); }
// longer tables, any distance, any scale; queries before on the other side and inside change nothing
VP_CASES(long_table, 6) {
  int n = 9; auto x = vp_axis("x0", "h", n), y = vp_vec("y", n); int up = vp_k % 2, kind = vp_k / 2; auto f = make(kind == 0 ? LINEAR : kind == 1 ? LINEAR_SATURATE : LINEAR_EXTRAPOLATE, x, y);
  double q = outside(x, up);
  if (kind == 0) { vp_near(f->Eval(x[4]), y[4], 1e-6, "long-inside"); vp_exit_begin("long-exit", 1); f->Eval(q); vp_exit_end(); }
  else if (kind == 1) vp_near(f->Eval(q), up ? y[n - 1] : y[0], 1e-6, "long-saturate");
  else { int k = up ? n - 2 : 0; vp_near(f->Eval(q) * (x[k + 1] - x[k]), y[k] * (x[k + 1] - q) + y[k + 1] * (q - x[k]), 1e-4, "long-extrapolate"); }
}
VP_CASES(sequence, 4) {
  int n = 3; auto x = vp_axis("x0", "h", n), y = vp_vec("y", n); bool sat = vp_k / 2; int up = vp_k % 2; auto f = make(sat ? LINEAR_SATURATE : LINEAR_EXTRAPOLATE, x, y);
  double d = vp_sym("d0", 1e-6, 1000), e = vp_sym("d1", 1e-6, 1000); int i = (int)vp_pick("node", 0, n - 1);
  double q0 = up ? x[n - 1] + d : x[0] - d, q1 = up ? x[0] - e : x[n - 1] + e; auto want = [&](double q, bool hi) { int k = hi ? n - 2 : 0; return sat ? (hi ? y[n - 1] : y[0]) : y[k] + (y[k + 1] - y[k]) / (x[k + 1] - x[k]) * (q - x[k]); };
  vp_near(f->Eval(q0), want(q0, up), 1e-4, "sequence-first"); vp_near(f->Eval(x[i]), y[i], 1e-6, "sequence-inside"); vp_near(f->Eval(q1), want(q1, !up), 1e-4, "sequence-other-side"); vp_near(f->Eval(q0), want(q0, up), 1e-4, "sequence-again");
  std::vector<double> qs; qs.push_back(q1); qs.push_back(x[i]); qs.push_back(q0); auto v = f->Eval(qs); vp_assert(v.size() == 3, "sequence-size"); vp_near(v[0], want(q1, !up), 1e-4, "sequence-vector"); vp_near(v[1], y[i], 1e-6, "sequence-vector"); vp_near(v[2], want(q0, up), 1e-4, "sequence-vector");
}
static const double SC[4] = {1e-9, 1e-4, 1e5, 1e12};
VP_CASES(scales, 24) {
  double s = SC[vp_k % 4]; int up = vp_k / 4 % 2, kind = vp_k / 8, n = 3; auto xu = vp_axis("x0", "h", n), y = vp_vec("y", n), x = xu; for (auto& e : x) e *= s;
  auto f = make(kind == 0 ? LINEAR : kind == 1 ? LINEAR_SATURATE : LINEAR_EXTRAPOLATE, x, y); double d = vp_sym("outside_by", 1e-6, 1000), qu = up ? xu[n - 1] + d : xu[0] - d, q = s * qu;
  if (kind == 0) { vp_exit_begin("scaled-exit", 1); f->Eval(q); vp_exit_end(); }
  else if (kind == 1) vp_near(f->Eval(q), up ? y[n - 1] : y[0], 1e-6, "scaled-saturate");
  else { int k = up ? n - 2 : 0; vp_near(f->Eval(q) * (xu[k + 1] - xu[k]), y[k] * (xu[k + 1] - qu) + y[k + 1] * (qu - xu[k]), 1e-4, "scaled-extrapolate"); }
}
VP_CASES(complex_strict, 2) {
  int n = 3; auto x = vp_axis("x0", "h", n), re = vp_vec("re", n), im = vp_vec("im", n); auto y = std::make_shared<std::vector<std::complex<double>>>(); for (int i = 0; i < n; i++) y->push_back({re[i], im[i]});
  std::unique_ptr<IC> f(IC::MakeInterp1d(LINEAR)); f->Initialize(vp_sh(x), y); double q = outside(x, vp_k); vp_exit_begin("complex-strict-exit", 1); f->Eval(q); vp_exit_end();
}
VP_CASES(complex_factory, 3) { vp_exit_begin("complex-factory-exit", 1); IC::MakeInterp1d((INTERP_METHOD)(3 + vp_k)); vp_exit_end(); }
// the very next double outside of a table, and infinity
VP_CASES(just_outside, 6) {
  static const double B[3] = {1, -3, 1e6}; double b = B[vp_k % 3]; std::vector<double> x, y = vp_vec("y", 3); x.push_back(b); x.push_back(b + 1); x.push_back(b + 2); int up = vp_k / 3; double q = up ? std::nextafter(x[2], 1e300) : std::nextafter(x[0], -1e300);
  auto s = make(LINEAR_SATURATE, x, y); vp_near(s->Eval(q), up ? y[2] : y[0], 1e-6, "just-outside-saturate"); vp_near(s->Eval(up ? INFINITY : -INFINITY), up ? y[2] : y[0], 1e-6, "infinite-saturate"); vp_near(s->Eval(up ? 1e300 : -1e300), up ? y[2] : y[0], 1e-6, "huge-saturate");
  auto f = make(LINEAR, x, y); vp_exit_begin("just-outside-exit", 1); f->Eval(q); vp_exit_end();
}
// very long tables
static const int LONGN[4] = {40, 130, 300, 1100};
VP_CASES(very_long, 24) {
  int n = LONGN[vp_k / 6], up = vp_k % 2, kind = vp_k / 2 % 3, k = up ? n - 2 : 0; auto x = vp_long_axis(n), y = vp_long_values(n, k); auto f = make(kind == 0 ? LINEAR : kind == 1 ? LINEAR_SATURATE : LINEAR_EXTRAPOLATE, x, y); double q = outside(x, up);
  vp_near(f->Eval(x[n / 2]), y[n / 2], 1e-6, "very-long-inside"); vp_near(f->GetXmin(), x[0], 0, "very-long-xmin"); vp_near(f->GetXmax(), x[n - 1], 0, "very-long-xmax");
  if (kind == 0) { vp_exit_begin("very-long-exit", 1); f->Eval(q); vp_exit_end(); }
  else if (kind == 1) vp_near(f->Eval(q), up ? y[n - 1] : y[0], 1e-6, "very-long-saturate");
  else vp_near(f->Eval(q) * (x[k + 1] - x[k]), y[k] * (x[k + 1] - q) + y[k + 1] * (q - x[k]), 1e-4, "very-long-extrapolate");
}
