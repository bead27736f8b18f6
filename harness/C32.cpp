// C32: triangle quadrature of order n is exact for polynomials of degree n
#include "vp.h"
#include "MathUtils/MathUtils.h"
#include <vector>
#include <complex>
using namespace mathutils; typedef Vector3d<double> V3; typedef std::complex<double> C;
static const double T = 1e-9;
struct Tri { V3 v[3]; };
static Tri tri() { Tri t; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) t.v[i](j) = vp_symij("v", i, j, -1, 1); return t; }
static double dbl_area(const Tri& t) { double a[3], b[3]; for (int j = 0; j < 3; j++) { a[j] = t.v[1](j) - t.v[0](j); b[j] = t.v[2](j) - t.v[0](j); } double x = a[1] * b[2] - a[2] * b[1], y = a[2] * b[0] - a[0] * b[2], z = a[0] * b[1] - a[1] * b[0]; return std::sqrt(x * x + y * y + z * z); }
// homogeneous polynomial in the three barycentric coordinates; c[p][q] is the coefficient of l0^p l1^q l2^(deg-p-q)
struct Bary { int deg; double c[9][9];
  Bary() : deg(0) { for (auto& r : c) for (double& v : r) v = 0; c[0][0] = 1; }
  void times(double a, double b, double d) { double n[9][9]; for (auto& r : n) for (double& v : r) v = 0; for (int p = 0; p <= deg; p++) for (int q = 0; p + q <= deg; q++) { n[p + 1][q] += c[p][q] * a; n[p][q + 1] += c[p][q] * b; n[p][q] += c[p][q] * d; } deg++; for (int p = 0; p <= deg; p++) for (int q = 0; p + q <= deg; q++) c[p][q] = n[p][q]; }
  double mean2() const { double f[12] = {1}; for (int i = 1; i < 12; i++) f[i] = f[i - 1] * i; double s = 0; for (int p = 0; p <= deg; p++) for (int q = 0; p + q <= deg; q++) s += c[p][q] * (f[p] * f[q] * f[deg - p - q] / f[deg + 2]); return s; } };   // integral over the triangle divided by twice its area
static double exact(const Tri& t, int i, int j, int k) { Bary b; const int e[3] = {i, j, k}; for (int a = 0; a < 3; a++) for (int m = 0; m < e[a]; m++) b.times(t.v[0](a), t.v[1](a), t.v[2](a)); return b.mean2(); }
static double pw(double x, int k) { double r = 1; while (k-- > 0) r *= x; return r; }
struct Mono : Integrand<double> { int i, j, k; double Evaluate(const V3& x) const override { return pw(x(0), i) * pw(x(1), j) * pw(x(2), k); } };
// every monomial of degree at most the order, any triangle (also degenerate ones and both orientations)
struct Case { int o, i, j, k; };
static Case nth(int m) { for (int o = 1; o <= 8; o++) for (int i = 0; i <= o; i++) for (int j = 0; i + j <= o; j++) for (int k = 0; i + j + k <= o; k++) if (m-- == 0) return {o, i, j, k}; return {1, 0, 0, 0}; }
VP_CASES(monomials, 494) { Case c = nth(vp_k); Tri t = tri(); Mono f; f.i = c.i; f.j = c.j; f.k = c.k; Integration2dTriangle<double> I(&f, c.o); vp_near(I.Compute(t.v[0], t.v[1], t.v[2]), exact(t, c.i, c.j, c.k) * dbl_area(t), T, "monomial"); }
// vector and complex integrands: componentwise, on a general polynomial of degree min(order, 2)
struct Poly { double c[4], q; double at(const V3& x) const { return c[0] + c[1] * x(0) + c[2] * x(1) + c[3] * x(2) + q * x(0) * x(1); } void sym(const char* n, bool quad) { for (int i = 0; i < 4; i++) c[i] = vp_symi(n, i, -1, 1); q = quad ? vp_symi(n, 4, -1, 1) : 0; } double exact(const Tri& t) const { return (c[0] * ::exact(t, 0, 0, 0) + c[1] * ::exact(t, 1, 0, 0) + c[2] * ::exact(t, 0, 1, 0) + c[3] * ::exact(t, 0, 0, 1) + q * ::exact(t, 1, 1, 0)) * dbl_area(t); } };
struct Sc : Integrand<double> { Poly p; double Evaluate(const V3& x) const override { return p.at(x); } };
struct Cx : Integrand<C> { Poly p, q; C Evaluate(const V3& x) const override { return C(p.at(x), q.at(x)); } };
struct Ve : Integrand<VectorN<double>> { Poly p[2]; VectorN<double> Evaluate(const V3& x) const override { VectorN<double> r(2); r(0) = p[0].at(x); r(1) = p[1].at(x); return r; } };
struct V3i : Integrand<V3> { Poly p[3]; V3 Evaluate(const V3& x) const override { return V3(p[0].at(x), p[1].at(x), p[2].at(x)); } };
VP_CASES(scalar, 8) { int o = vp_k + 1; Tri t = tri(); Sc f; f.p.sym("p", o > 1); Integration2dTriangle<double> I(&f, o); double e = f.p.exact(t); vp_near(I.Compute(t.v[0], t.v[1], t.v[2]), e, T, "scalar"); vp_near(I.Compute(t.v[1], t.v[0], t.v[2]), e, T, "reversed"); vp_near(I.Compute(t.v[1], t.v[2], t.v[0]), e, T, "rotated"); }
VP_CASES(complex, 8) { int o = vp_k + 1; Tri t = tri(); Cx f; f.p.sym("p", o > 1); f.q.sym("q", o > 1); Integration2dTriangle<C> I(&f, o); C r = I.Compute(t.v[0], t.v[1], t.v[2]); vp_near(r.real(), f.p.exact(t), T, "complex-real"); vp_near(r.imag(), f.q.exact(t), T, "complex-imag"); }
VP_CASES(vector, 8) { int o = vp_k + 1; Tri t = tri(); Ve f; f.p[0].sym("p", o > 1); f.p[1].sym("q", o > 1); Integration2dTriangle<VectorN<double>> I(&f, o); VectorN<double> r = I.Compute(t.v[0], t.v[1], t.v[2]); vp_assert(r.size() == 2, "vector-size"); vp_near(r(0), f.p[0].exact(t), T, "vector-0"); vp_near(r(1), f.p[1].exact(t), T, "vector-1"); }
VP_CASES(vector3, 3) { int o = vp_k + 1; Tri t = tri(); V3i f; f.p[0].sym("p", o > 1); f.p[1].sym("q", o > 1); f.p[2].sym("r", o > 1); Integration2dTriangle<V3> I(&f, o); V3 r = I.Compute(t.v[0], t.v[1], t.v[2]); for (int i = 0; i < 3; i++) vp_near(r(i), f.p[i].exact(t), T, "vector3"); }
VP_CASE(refused) { int o = vp_pick("order", -1, 10); vp_assume(o < 1 || o > 8); Sc f; vp_exit_begin("order-refused", VP_ANYEXIT); try { Integration2dTriangle<double> I(&f, o); } catch (...) { std::exit(3); } vp_exit_end(); }
// triangles of any size: small and large ones, tall and flat ones, in every coordinate plane
static const double SC[6] = {1e-9, 1e-6, 1e-3, 1e3, 1e6, 1e9};
VP_CASES(sizes, 48) { int o = vp_k / 6 + 1; double s = SC[vp_k % 6]; Tri t = tri(); V3 w[3]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) w[i](j) = t.v[i](j) * s; Sc f; f.p.sym("p", false); Poly p = f.p; for (int i = 1; i < 4; i++) f.p.c[i] = p.c[i] / s; Integration2dTriangle<double> I(&f, o); double e = p.exact(t); vp_near(I.Compute(w[0], w[1], w[2]) / s / s, e, T, "sized"); vp_near(I.Compute(w[2], w[1], w[0]) / s / s, e, T, "sized-reversed"); }
VP_CASES(sized_monomials, 48) { int o = vp_k / 6 + 1; double s = vp_k % 2 ? 1e-3 : 1e3; int d = vp_k % 6 / 2; Tri t = tri(); V3 w[3]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) w[i](j) = t.v[i](j) * s; Mono f; f.i = d == 0 ? o : o / 2; f.j = d == 1 ? o - o / 2 : 0; f.k = d == 2 ? o - o / 2 : 0; Integration2dTriangle<double> I(&f, o); double r = I.Compute(w[0], w[1], w[2]) / s / s; for (int i = 0; i < f.i + f.j + f.k; i++) r /= s; vp_near(r, exact(t, f.i, f.j, f.k) * dbl_area(t), T, "sized-monomial"); }
VP_CASES(planes, 24) { int o = vp_k / 3 + 1, ax = vp_k % 3; Tri t; double h = vp_sym("h", -1, 1); for (int i = 0; i < 3; i++) { t.v[i](ax) = h; t.v[i]((ax + 1) % 3) = vp_symi("a", i, -1, 1); t.v[i]((ax + 2) % 3) = vp_symi("b", i, -1, 1); } Sc f; f.p.sym("p", o > 1); Integration2dTriangle<double> I(&f, o); double e = f.p.exact(t); vp_near(I.Compute(t.v[0], t.v[1], t.v[2]), e, T, "plane"); vp_near(I.Compute(t.v[2], t.v[1], t.v[0]), e, T, "plane-reversed"); }
VP_CASES(aspect, 16) { int o = vp_k / 2 + 1; double s = 1e-4; Tri t = tri(); for (int i = 0; i < 3; i++) t.v[i](vp_k % 2 ? 1 : 2) *= s; Sc f; f.p.sym("p", false); Integration2dTriangle<double> I(&f, o); vp_near(I.Compute(t.v[0], t.v[1], t.v[2]), f.p.exact(t), T, "aspect"); }
// the same integrator and integrand object used again: other triangle, changed integrand, a second integrator
VP_CASES(again, 8) { int o = vp_k + 1; Tri t = tri(), u; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) u.v[i](j) = vp_symij("u", i, j, -1, 1); Sc f; f.p.sym("p", o > 1); Integration2dTriangle<double> I(&f, o); I.Compute(u.v[0], u.v[1], u.v[2]); vp_near(I.Compute(t.v[0], t.v[1], t.v[2]), f.p.exact(t), T, "other-triangle"); Integration2dTriangle<double> J(&f, o); f.p.sym("q", o > 1); vp_near(I.Compute(t.v[0], t.v[1], t.v[2]), f.p.exact(t), T, "changed-integrand"); vp_near(J.Compute(u.v[0], u.v[1], u.v[2]), f.p.exact(u), T, "second-integrator"); Tri k = t; (void)k; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) vp_near(t.v[i](j), vp_symij("v", i, j, -1, 1), 0, "vertices-untouched"); }
VP_CASES(degenerate, 8) { int o = vp_k + 1; Tri t = tri(); Sc f; f.p.sym("p", o > 1); Integration2dTriangle<double> I(&f, o); vp_near(I.Compute(t.v[0], t.v[0], t.v[2]), 0, T, "two-equal-vertices"); vp_near(I.Compute(t.v[0], t.v[0], t.v[0]), 0, T, "three-equal-vertices"); V3 m = t.v[0]; for (int j = 0; j < 3; j++) m(j) = (t.v[0](j) + t.v[2](j)) / 2; vp_near(I.Compute(t.v[0], m, t.v[2]), 0, T, "aligned-vertices"); }
