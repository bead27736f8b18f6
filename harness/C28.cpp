// C28: Chebyshev approximation interpolates at the nodes, reproduces polynomials, and is stable under recomputation
#include "vp.h"
#include "cheb_common.h"
static void poly1_(int kind, int o) { Q1 r; cheb1(r, kind, o, 0); const Dom& d = r.f.x; double e = r.f.at(d.u); vp_near(r.s->Evaluate(d.x), e, TC, "reproduces-1d"); r.s->Compute_ai(); vp_near(r.s->Evaluate(d.x), e, TC, "recomputed-1d"); }
VP_CASES(poly1, 2 * N1) { poly1_(vp_k % 2, vp_k / 2); }
VP_CASES(poly1_big, 2 * B1) { vp_fixdom = true; poly1_(vp_k % 2, 6 + vp_k / 2); }
static void node1_(int kind, int o) { Q1 r; cheb1(r, kind, o, 2); for (int i = 0; i <= r.o; i++) { double u = vp_node(r.o, i); vp_near(r.s->Evaluate(vp_map(r.f.x, u)), r.f.at(u), TC, "node-1d"); } }
VP_CASES(node1, 2 * N1) { node1_(vp_k % 2, vp_k / 2); }
VP_CASES(node1_big, 2 * B1) { vp_fixdom = true; node1_(vp_k % 2, 6 + vp_k / 2); }
static void poly2_(int kind, int ox, int oy) {  Q2 r; cheb2(r, kind, ox, oy, 0); double e = r.f.at(r.f.x.u, r.f.y.u); vp_near(r.s->Evaluate(r.f.x.x, r.f.y.x), e, TC, "reproduces-2d"); r.s->Compute_aij(); vp_near(r.s->Evaluate(r.f.x.x, r.f.y.x), e, TC, "recomputed-2d"); }
VP_CASES(poly2, 3 * N2) { poly2_(vp_k % 3, O2[vp_k / 3][0], O2[vp_k / 3][1]); }
VP_CASES(poly2_big, 3 * NB2) { vp_fixdom = true; poly2_(vp_k % 3, BO2[vp_k / 3][0], BO2[vp_k / 3][1]); }
static void node2_(int kind, int ox, int oy) {  Q2 r; cheb2(r, kind, ox, oy, 1); for (int i = 0; i <= r.ox; i++) for (int j = 0; j <= r.oy; j++) { double u = vp_node(r.ox, i), v = vp_node(r.oy, j); vp_near(r.s->Evaluate(vp_map(r.f.x, u), vp_map(r.f.y, v)), r.f.at(u, v), TC, "node-2d"); } }
VP_CASES(node2, 3 * N2) { node2_(vp_k % 3, O2[vp_k / 3][0], O2[vp_k / 3][1]); }
VP_CASES(node2_big, 3 * NB2) { vp_fixdom = true; node2_(vp_k % 3, BO2[vp_k / 3][0], BO2[vp_k / 3][1]); }
static void poly3_(int kind, int ox, int oy, int oz) {  Q3 r; cheb3(r, kind, ox, oy, oz, 0); double e = r.f.at(r.f.x.u, r.f.y.u, r.f.z.u); vp_near(r.s->Evaluate(r.f.x.x, r.f.y.x, r.f.z.x), e, TC, "reproduces-3d"); r.s->Compute_aijk(); vp_near(r.s->Evaluate(r.f.x.x, r.f.y.x, r.f.z.x), e, TC, "recomputed-3d"); }
VP_CASES(poly3, 3 * N3) { poly3_(vp_k % 3, O3[vp_k / 3][0], O3[vp_k / 3][1], O3[vp_k / 3][2]); }
VP_CASES(poly3_big, 3 * NB3) { vp_fixdom = true; poly3_(vp_k % 3, BO3[vp_k / 3][0], BO3[vp_k / 3][1], BO3[vp_k / 3][2]); }
static void node3_(int kind, int ox, int oy, int oz) {  Q3 r; cheb3(r, kind, ox, oy, oz, 1); for (int i = 0; i <= r.ox; i++) for (int j = 0; j <= r.oy; j++) for (int l = 0; l <= r.oz; l++) { double u = vp_node(r.ox, i), v = vp_node(r.oy, j), w = vp_node(r.oz, l); vp_near(r.s->Evaluate(vp_map(r.f.x, u), vp_map(r.f.y, v), vp_map(r.f.z, w)), r.f.at(u, v, w), TC, "node-3d"); } }
VP_CASES(node3, 3 * N3) { node3_(vp_k % 3, O3[vp_k / 3][0], O3[vp_k / 3][1], O3[vp_k / 3][2]); }
VP_CASES(node3_big, 3 * NB3) { vp_fixdom = true; node3_(vp_k % 3, BO3[vp_k / 3][0], BO3[vp_k / 3][1], BO3[vp_k / 3][2]); }
// domains of other magnitudes, a different one on each axis
VP_CASES(poly1_dom, 10) { vp_fixdom = true; vp_domk = 1 + vp_k / 2; poly1_(vp_k % 2, 3); }
VP_CASES(node1_dom, 10) { vp_fixdom = true; vp_domk = 1 + vp_k / 2; node1_(vp_k % 2, 3); }
VP_CASES(poly2_dom, 15) { vp_fixdom = true; vp_domk = 1 + vp_k / 3; poly2_(vp_k % 3, vp_k % 2 ? 2 : 1, vp_k % 2 ? 1 : 2); }
VP_CASES(node2_dom, 15) { vp_fixdom = true; vp_domk = 1 + vp_k / 3; node2_(vp_k % 3, vp_k % 2 ? 2 : 1, vp_k % 2 ? 1 : 2); }
VP_CASES(poly3_dom, 15) { vp_fixdom = true; vp_domk = 1 + vp_k / 3; poly3_(vp_k % 3, 1, 2 - vp_k % 2, 1 + vp_k % 2); }
VP_CASES(node3_dom, 15) { vp_fixdom = true; vp_domk = 1 + vp_k / 3; node3_(vp_k % 3, 1, 2 - vp_k % 2, 1 + vp_k % 2); }
// several series of the same function alive at once, and a series evaluated at other points before
VP_CASES(two_series, 2) { Q1 r, q; cheb1(r, vp_k, 2, 0); cheb1(q, vp_k, 4, 0); const Dom& d = r.f.x; double a = r.f.at(d.u), b = q.f.at(d.u); r.s->Evaluate(vp_map(d, 0.25)); vp_near(q.s->Evaluate(d.x), b, TC, "second-series"); vp_near(r.s->Evaluate(d.x), a, TC, "first-series"); q.s->Compute_ai(); vp_near(r.s->Evaluate(d.x), a, TC, "first-series-kept"); vp_near(q.s->Evaluate(d.x), b, TC, "second-series-again"); }
