// C40: accuracy of the Struve and exponential integral approximations, against reference polynomials (c40_tables.h)
#include "vp.h"
#include "MathUtils/MathUtilsBoost.h"
#include "c40_tables.h"
using namespace mathutils;
#define NP(t) ((int)(sizeof(t) / sizeof(t[0])))
static double pol(const Piece& p, double s) { double r = 0; for (int i = p.n - 1; i >= 0; i--) r = r * s + p.a[i]; return r; }
// facts on the real functions, known to the engine only (its exp, log and Y are otherwise uninterpreted)
static void fact(double v, double ref, double tol) { if (vp_is_engine()) { vp_assume(v - ref <= tol); vp_assume(ref - v <= tol); } }
static const double TS = 1e-7, IN = 1 - 1e-9;
template <int O> static double struve(double x) { return O ? Struve_first_order<double>(x) : Struve_zero_order<double>(x); }
// [0, 16]: against the entire function; the Bessel function Y is enclosed by its own reference polynomial
template <int O> static void bounded(int k) { const Piece& p = (O ? P_H1 : P_H0)[k]; double s = vp_sym("s", -1, 1), x = k == 0 ? p.h * (s + 1) : p.c + p.h * s; double v = struve<O>(x);
  if (k >= 1) { const Piece& q = (O ? P_Y1 : P_Y0)[k - 1]; fact(Cyl_Bessel_second_kind<int, double, double>(O, x), pol(q, s), 1e-10); }
  vp_near(v, pol(p, s), TS, O ? "struve-1" : "struve-0"); }
VP_CASES(struve0, NP(P_H0)) { bounded<0>(vp_k); }
VP_CASES(struve1, NP(P_H1)) { bounded<1>(vp_k); }
// x > 16 (u = 1/x): the part added to Y
VP_CASES(struve0_far, NP(P_K0)) { const Piece& p = P_K0[vp_k]; double s = vp_sym("s", -IN, IN), u = p.c + p.h * s, x = 1 / u; vp_near(struve<0>(x) - Cyl_Bessel_second_kind<int, double, double>(0, x), pol(p, s) * u, TS, "struve-0-far"); }
VP_CASES(struve1_far, NP(P_K1)) { const Piece& p = P_K1[vp_k]; double s = vp_sym("s", -IN, IN), u = p.c + p.h * s, x = 1 / u; vp_near(struve<1>(x) - Cyl_Bessel_second_kind<int, double, double>(1, x), pol(p, s), TS, "struve-1-far"); }
// exponential integrals; the engine knows exp and log on each piece through Taylor polynomials around its middle
static const double TE = 1e-8;
// x in (0, 6): Ei(x) - log(x), x in (0, 1): E1(x) + log(x)
VP_CASES(ei_small, NP(P_EIS)) { const Piece& p = P_EIS[vp_k]; double s = vp_sym("s", vp_k ? -1 : -0.998, vp_k == NP(P_EIS) - 1 ? IN : 1), x = p.c + p.h * s; vp_near(Ei_approximation<double>(x) - std::log(x), pol(p, s), TE, "ei"); }
VP_CASES(e1_small, NP(P_E1S)) { const Piece& p = P_E1S[vp_k]; double s = vp_sym("s", vp_k ? -1 : -0.998, vp_k == NP(P_E1S) - 1 ? IN : 1), x = p.c + p.h * s; vp_near(E1_approximation<double>(x) + std::log(x), pol(p, s), TE, "e1"); }
VP_CASES(exp_ei_small, NP(P_EIS)) { const Piece& p = P_EIS[vp_k]; double s = vp_sym("s", vp_k ? -1 : -0.998, vp_k == NP(P_EIS) - 1 ? IN : 1), x = p.c + p.h * s; fact(Ei<double>(x) - std::log(x), pol(p, s), 1e-10); vp_near(expEi<double>(x) * std::exp(x) - std::log(x), pol(p, s), TE, "exp-ei"); }
// x = 1/u: x exp(-x) Ei(x) for x >= 6, x exp(x) E1(x) for x >= 1
VP_CASES(ei_far, NP(P_EIU)) { const Piece& p = P_EIU[vp_k]; double s = vp_sym("s", -IN, IN), u = p.c + p.h * s, x = 1 / u; vp_near(Ei_approximation<double>(x) * x * std::exp(-x), pol(p, s), TE, "ei-far"); }
VP_CASES(e1_far, NP(P_E1U)) { const Piece& p = P_E1U[vp_k]; double s = vp_sym("s", -IN, IN), u = p.c + p.h * s, x = 1 / u; vp_near(E1_approximation<double>(x) * x * std::exp(x), pol(p, s), TE, "e1-far"); }
VP_CASES(exp_ei_far, NP(P_EIU)) { const Piece& p = P_EIU[vp_k]; double s = vp_sym("s", -IN, IN), u = p.c + p.h * s, x = 1 / u; if (vp_k >= 2) fact(Ei<double>(x) * x * std::exp(-x), pol(p, s), 1e-10); vp_near(expEi<double>(x) * x, pol(p, s), TE, "exp-ei-far"); }
// exactly at the boundaries between the ranges
static const Piece& at(const Piece* t, int n, double u) { for (int i = 0; i < n; i++) if (u <= t[i].hi + 1e-12) return t[i]; return t[n - 1]; }
VP_CASES(bound_ei, 5) { const double B[5] = {6, 12, 24, 48, 8}; double x = B[vp_k], u = 1 / x; const Piece& p = at(P_EIU, NP(P_EIU), u); double r = pol(p, (u - p.c) / p.h); vp_near(Ei_approximation<double>(x) * x * std::exp(-x), r, TE, "ei-bound"); if (x < 24) fact(Ei<double>(x) * x * std::exp(-x), r, 1e-10); vp_near(expEi<double>(x) * x, r, TE, "exp-ei-bound"); }
VP_CASES(bound_e1, 4) { const double B[4] = {1, 4, 8, 2}; double x = B[vp_k], u = 1 / x; const Piece& p = at(P_E1U, NP(P_E1U), u); vp_near(E1_approximation<double>(x) * x * std::exp(x), pol(p, (u - p.c) / p.h), TE, "e1-bound"); }
// refusals
VP_CASES(refused, 4) { double x = vp_k < 2 ? vp_sym("x", -10, -1e-6) : vp_sym("x", -10, 0); vp_exit_begin("domain", 0); if (vp_k == 0) Struve_zero_order<double>(x); else if (vp_k == 1) Struve_first_order<double>(x); else if (vp_k == 2) Ei_approximation<double>(x); else E1_approximation<double>(x); vp_exit_end(); }
// beyond the tables: the first terms of the series at 0 and of the asymptotic series at infinity (the rest is below 1e-11)
static const double GAM = 0.57721566490153286;
VP_CASES(tiny, 3) { double x = vp_sym("x", 1e-7, 1e-3), q = x * x / 4, c = x * x * x / 18; if (vp_k == 0) vp_near(Ei_approximation<double>(x) - std::log(x), GAM + x + q + c, TE, "ei-tiny"); else if (vp_k == 1) vp_near(E1_approximation<double>(x) + std::log(x), -GAM + x - q + c, TE, "e1-tiny"); else { fact(Ei<double>(x) - std::log(x), GAM + x + q + c, 1e-10); vp_near(expEi<double>(x) * std::exp(x) - std::log(x), GAM + x + q + c, TE, "exp-ei-tiny"); } }
VP_CASES(very_far, 3) { double u = vp_sym("u", 1e-7, 1. / 1024), x = 1 / u; if (vp_k == 0) vp_near(expEi<double>(x) * x, 1 + u + 2 * u * u + 6 * u * u * u, TE, "exp-ei-very-far"); else if (vp_k == 1) vp_near(struve<0>(x) - Cyl_Bessel_second_kind<int, double, double>(0, x), 2 / M_PI * (u - u * u * u), TS, "struve-0-very-far"); else vp_near(struve<1>(x) - Cyl_Bessel_second_kind<int, double, double>(1, x), 2 / M_PI * (1 + u * u), TS, "struve-1-very-far"); }
VP_CASES(zero, 2) { vp_near(vp_k ? Struve_first_order<double>(0.) : Struve_zero_order<double>(0.), 0, TS, "struve-zero"); }
