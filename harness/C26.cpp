// C26: power series derivatives are the partial derivatives of the series
#include "vp.h"
#include "ps_common.h"
static void one_(int kind, int o) { S1 r = mk1(kind, o); double v = 0, m = 0; for (int i = 0; i <= r.o; i++) v += r.b(i) * vp_dpw(r.x.u, i); vp_near(r.s->Evaluate_derivative_x(r.x.x), v * r.x.du, T, "dx-1d"); vp_near(r.s->Evaluate_derivative_x_unit(r.x.x, r.x.u), v * r.x.du, T, "dx-unit-1d"); }
VP_CASES(one, 2 * N1) { one_(vp_k % 2, vp_k / 2); }
VP_CASES(one_big, 2 * B1) { vp_fixdom = true; one_(vp_k % 2, 6 + vp_k / 2); }
static void two_(int kind, int ox, int oy) {  S2 r = mk2(kind, ox, oy); double a = 0, b = 0; for (int i = 0; i <= r.ox; i++) for (int j = 0; j <= r.oy; j++) { a += r.b(i, j) * vp_dpw(r.x.u, i) * vp_pw(r.y.u, j); b += r.b(i, j) * vp_pw(r.x.u, i) * vp_dpw(r.y.u, j); } a *= r.x.du; b *= r.y.du;
  vp_near(r.s->Evaluate_derivative_x(r.x.x, r.y.x), a, T, "dx-2d"); vp_near(r.s->Evaluate_derivative_y(r.x.x, r.y.x), b, T, "dy-2d"); vp_near(r.s->Evaluate_derivative_x_unit(r.x.x, r.x.u, r.y.u), a, T, "dx-unit-2d"); vp_near(r.s->Evaluate_derivative_y_unit(r.y.x, r.x.u, r.y.u), b, T, "dy-unit-2d"); }
VP_CASES(two, 3 * N2) { two_(vp_k % 3, O2[vp_k / 3][0], O2[vp_k / 3][1]); }
VP_CASES(two_big, 3 * NB2) { vp_fixdom = true; two_(vp_k % 3, BO2[vp_k / 3][0], BO2[vp_k / 3][1]); }
static void three_(int kind, int ox, int oy, int oz) {  S3 r = mk3(kind, ox, oy, oz); double x = r.x.x, y = r.y.x, z = r.z.x; vp_near(r.s->Evaluate_derivative_x(x, y, z), r.v(r.z.u, 1, 0, 0), T, "dx-3d"); vp_near(r.s->Evaluate_derivative_y(x, y, z), r.v(r.z.u, 0, 1, 0), T, "dy-3d"); vp_near(r.s->Evaluate_derivative_z(x, y, z), r.v(r.z.u, 0, 0, 1), T, "dz-3d"); vp_near(r.s->Evaluate_derivative_x_zinf(x, y), r.v(1, 1, 0, 0), T, "dx-zinf"); vp_near(r.s->Evaluate_derivative_y_zinf(x, y), r.v(1, 0, 1, 0), T, "dy-zinf"); }
VP_CASES(three, 3 * N3) { three_(vp_k % 3, O3[vp_k / 3][0], O3[vp_k / 3][1], O3[vp_k / 3][2]); }
VP_CASES(three_big, 3 * NB3) { vp_fixdom = true; three_(vp_k % 3, BO3[vp_k / 3][0], BO3[vp_k / 3][1], BO3[vp_k / 3][2]); }
// domains of other magnitudes, a different one on each axis (derivatives with respect to the mapped coordinate)
VP_CASES(one_dom, 20) { vp_fixdom = true; vp_domk = 1 + vp_k % 5; S1 r = mk1(vp_k / 5 % 2, vp_k / 10 ? 3 : 1); double v = 0; for (int i = 0; i <= r.o; i++) v += r.b(i) * vp_dpw(r.x.u, i); vp_near(r.s->Evaluate_derivative_x(r.x.x) / r.x.du, v, T, "dx-1d-domain"); }
VP_CASES(two_dom, 30) { vp_fixdom = true; vp_domk = 1 + vp_k % 5; S2 r = mk2(vp_k / 5 % 3, vp_k / 15 ? 1 : 2, vp_k / 15 ? 2 : 1); double a = 0, b = 0; for (int i = 0; i <= r.ox; i++) for (int j = 0; j <= r.oy; j++) { a += r.b(i, j) * vp_dpw(r.x.u, i) * vp_pw(r.y.u, j); b += r.b(i, j) * vp_pw(r.x.u, i) * vp_dpw(r.y.u, j); } vp_near(r.s->Evaluate_derivative_x(r.x.x, r.y.x) / r.x.du, a, T, "dx-2d-domain"); vp_near(r.s->Evaluate_derivative_y(r.x.x, r.y.x) / r.y.du, b, T, "dy-2d-domain"); }
VP_CASES(three_dom, 30) { vp_fixdom = true; vp_domk = 1 + vp_k % 5; S3 r = mk3(vp_k / 5 % 3, vp_k / 15 ? 1 : 2, 1, vp_k / 15 ? 2 : 1); S3 q = r; q.x.du = q.y.du = q.z.du = 1; double x = r.x.x, y = r.y.x, z = r.z.x; vp_near(r.s->Evaluate_derivative_x(x, y, z) / r.x.du, q.v(r.z.u, 1, 0, 0), T, "dx-3d-domain"); vp_near(r.s->Evaluate_derivative_y(x, y, z) / r.y.du, q.v(r.z.u, 0, 1, 0), T, "dy-3d-domain"); vp_near(r.s->Evaluate_derivative_z(x, y, z) / r.z.du, q.v(r.z.u, 0, 0, 1), T, "dz-3d-domain"); vp_near(r.s->Evaluate_derivative_x_zinf(x, y) / r.x.du, q.v(1, 1, 0, 0), T, "dx-zinf-domain"); vp_near(r.s->Evaluate_derivative_y_zinf(x, y) / r.y.du, q.v(1, 0, 1, 0), T, "dy-zinf-domain"); }
