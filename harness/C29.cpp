// C29: Chebyshev derivatives are the partial derivatives of the approximation
#include "vp.h"
#include "cheb_common.h"
static void one_(int kind, int o) { Q1 r; cheb1(r, kind, o, 0); const Dom& d = r.f.x; vp_near(r.s->Evaluate_derivative_x(d.x), r.f.dat(d.u) * d.du, TD, "derivative-1d"); }
VP_CASES(one, 2 * N1) { one_(vp_k % 2, vp_k / 2); }
VP_CASES(one_big, 2 * B1) { vp_fixdom = true; one_(vp_k % 2, 6 + vp_k / 2); }
static void two_(int kind, int ox, int oy) {  Q2 r; cheb2(r, kind, ox, oy, 0); const F2& f = r.f; vp_near(r.s->Evaluate_derivative_x(f.x.x, f.y.x), f.at(f.x.u, f.y.u, 1, 0) * f.x.du, TD, "dx-2d"); vp_near(r.s->Evaluate_derivative_y(f.x.x, f.y.x), f.at(f.x.u, f.y.u, 0, 1) * f.y.du, TD, "dy-2d"); }
VP_CASES(two, 3 * N2) { two_(vp_k % 3, O2[vp_k / 3][0], O2[vp_k / 3][1]); }
VP_CASES(two_big, 3 * NB2) { const int* o = BO2[vp_k / 3]; if (!VP_THOROUGH && (o[0] > 13 || o[1] > 13)) return; vp_fixdom = true; vp_fixpt[o[0] < o[1] ? 0 : 1] = true; two_(vp_k % 3, BO2[vp_k / 3][0], BO2[vp_k / 3][1]); }
static void three_(int kind, int ox, int oy, int oz) {  Q3 r; cheb3(r, kind, ox, oy, oz, 0); const F3& f = r.f; vp_near(r.s->Evaluate_derivative_x(f.x.x, f.y.x, f.z.x), f.at(f.x.u, f.y.u, f.z.u, 1, 0, 0) * f.x.du, TD, "dx-3d"); vp_near(r.s->Evaluate_derivative_y(f.x.x, f.y.x, f.z.x), f.at(f.x.u, f.y.u, f.z.u, 0, 1, 0) * f.y.du, TD, "dy-3d"); vp_near(r.s->Evaluate_derivative_z(f.x.x, f.y.x, f.z.x), f.at(f.x.u, f.y.u, f.z.u, 0, 0, 1) * f.z.du, TD, "dz-3d"); }
VP_CASES(three, 3 * N3) { three_(vp_k % 3, O3[vp_k / 3][0], O3[vp_k / 3][1], O3[vp_k / 3][2]); }
VP_CASES(three_big, 3 * NB3) { const int* o = BO3[vp_k / 3]; if (!VP_THOROUGH && (o[0] > 9 || o[1] > 9 || o[2] > 9)) return; vp_fixdom = true; int m = o[0] >= o[1] && o[0] >= o[2] ? 0 : o[1] >= o[2] ? 1 : 2; for (int i = 0; i < 3; i++) vp_fixpt[i] = i != m; three_(vp_k % 3, BO3[vp_k / 3][0], BO3[vp_k / 3][1], BO3[vp_k / 3][2]); }
// domains of other magnitudes, a different one on each axis (derivatives with respect to the mapped coordinate)
VP_CASES(one_dom, 10) { vp_fixdom = true; vp_domk = 1 + vp_k / 2; Q1 r; cheb1(r, vp_k % 2, 3, 0); const Dom& d = r.f.x; vp_near(r.s->Evaluate_derivative_x(d.x) / d.du, r.f.dat(d.u), TD, "derivative-1d-domain"); }
VP_CASES(two_dom, 15) { vp_fixdom = true; vp_domk = 1 + vp_k / 3; Q2 r; cheb2(r, vp_k % 3, vp_k % 2 ? 2 : 1, vp_k % 2 ? 1 : 2, 0); const F2& f = r.f; vp_near(r.s->Evaluate_derivative_x(f.x.x, f.y.x) / f.x.du, f.at(f.x.u, f.y.u, 1, 0), TD, "dx-2d-domain"); vp_near(r.s->Evaluate_derivative_y(f.x.x, f.y.x) / f.y.du, f.at(f.x.u, f.y.u, 0, 1), TD, "dy-2d-domain"); }
VP_CASES(three_dom, 15) { vp_fixdom = true; vp_domk = 1 + vp_k / 3; for (int i = 0; i < 3; i++) vp_fixpt[i] = i != vp_k / 3 % 3; Q3 r; cheb3(r, vp_k % 3, 1, 2 - vp_k % 2, 1 + vp_k % 2, 0); const F3& f = r.f; vp_near(r.s->Evaluate_derivative_x(f.x.x, f.y.x, f.z.x) / f.x.du, f.at(f.x.u, f.y.u, f.z.u, 1, 0, 0), TD, "dx-3d-domain"); vp_near(r.s->Evaluate_derivative_y(f.x.x, f.y.x, f.z.x) / f.y.du, f.at(f.x.u, f.y.u, f.z.u, 0, 1, 0), TD, "dy-3d-domain"); vp_near(r.s->Evaluate_derivative_z(f.x.x, f.y.x, f.z.x) / f.z.du, f.at(f.x.u, f.y.u, f.z.u, 0, 0, 1), TD, "dz-3d-domain"); }
