// C25: power series evaluate the polynomial of the mapped coordinates
#include "vp.h"
#include "ps_common.h"
static void one_(int kind, int o) { S1 r = mk1(kind, o); double v = 0, m = 0; for (int i = 0; i <= r.o; i++) { v += r.b(i) * vp_pw(r.x.u, i); m += r.b(i) * vp_pw(vp_sym("unit", -1, 1), i); } vp_near(r.s->Evaluate(r.x.x), v, T, "value-1d"); vp_near(r.s->Evaluate_unit(vp_sym("unit", -1, 1)), m, T, "unit-1d"); }
VP_CASES(one, 2 * N1) { one_(vp_k % 2, vp_k / 2); }
VP_CASES(one_big, 2 * B1) { vp_fixdom = true; one_(vp_k % 2, 6 + vp_k / 2); }
static void two_(int kind, int ox, int oy) {  S2 r = mk2(kind, ox, oy); double v = 0, m = 0, p = vp_sym("ux", -1, 1), q = vp_sym("uy", -1, 1); for (int i = 0; i <= r.ox; i++) for (int j = 0; j <= r.oy; j++) { v += r.b(i, j) * vp_pw(r.x.u, i) * vp_pw(r.y.u, j); m += r.b(i, j) * vp_pw(p, i) * vp_pw(q, j); } vp_near(r.s->Evaluate(r.x.x, r.y.x), v, T, "value-2d"); vp_near(r.s->Evaluate_unit(p, q), m, T, "unit-2d"); }
VP_CASES(two, 3 * N2) { two_(vp_k % 3, O2[vp_k / 3][0], O2[vp_k / 3][1]); }
VP_CASES(two_big, 3 * NB2) { vp_fixdom = true; two_(vp_k % 3, BO2[vp_k / 3][0], BO2[vp_k / 3][1]); }
static void three_(int kind, int ox, int oy, int oz) {  S3 r = mk3(kind, ox, oy, oz); vp_near(r.s->Evaluate(r.x.x, r.y.x, r.z.x), r.v(r.z.u, 0, 0, 0), T, "value-3d"); vp_near(r.s->Evaluate_zinf(r.x.x, r.y.x), r.v(1, 0, 0, 0), T, "value-zinf"); }
VP_CASES(three, 3 * N3) { three_(vp_k % 3, O3[vp_k / 3][0], O3[vp_k / 3][1], O3[vp_k / 3][2]); }
VP_CASES(three_big, 3 * NB3) { vp_fixdom = true; three_(vp_k % 3, BO3[vp_k / 3][0], BO3[vp_k / 3][1], BO3[vp_k / 3][2]); }
// domains of other magnitudes, a different one on each axis
VP_CASES(one_dom, 20) { vp_fixdom = true; vp_domk = 1 + vp_k % 5; one_(vp_k / 5 % 2, vp_k / 10 ? 3 : 1); }
VP_CASES(two_dom, 30) { vp_fixdom = true; vp_domk = 1 + vp_k % 5; two_(vp_k / 5 % 3, vp_k / 15 ? 1 : 2, vp_k / 15 ? 2 : 1); }
VP_CASES(three_dom, 30) { vp_fixdom = true; vp_domk = 1 + vp_k % 5; three_(vp_k / 5 % 3, vp_k / 15 ? 1 : 2, 1, vp_k / 15 ? 2 : 1); }
