// C27: 3D power series shortcuts agree with the plain evaluations
#include "vp.h"
#include "ps_common.h"
static void combined_(int kind, int ox, int oy, int oz) {  S3 r = mk3(kind, ox, oy, oz); double x = r.x.x, y = r.y.x, z = r.z.x, f, fx, fy; r.s->Evaluate_f_dfdx_dfdy(x, y, z, f, fx, fy); vp_near(f, r.s->Evaluate(x, y, z), T, "combined-value"); vp_near(fx, r.s->Evaluate_derivative_x(x, y, z), T, "combined-dx"); vp_near(fy, r.s->Evaluate_derivative_y(x, y, z), T, "combined-dy"); }
VP_CASES(combined, 3 * N3) { combined_(vp_k % 3, O3[vp_k / 3][0], O3[vp_k / 3][1], O3[vp_k / 3][2]); }
VP_CASES(combined_big, 3 * NB3) { vp_fixdom = true; combined_(vp_k % 3, BO3[vp_k / 3][0], BO3[vp_k / 3][1], BO3[vp_k / 3][2]); }
static void predefined_(int kind, int ox, int oy, int oz) {  S3 r = mk3(kind, ox, oy, oz); double x = r.x.x, y = r.y.x, z = r.z.x, f, fx, fy; Mat c = r.s->Compute_cij(z); vp_assert(c.rows() == r.ox + 1, "reduced-rows"); vp_assert(c.cols() == r.oy + 1, "reduced-cols"); const Mat c0 = c;
  double v = r.s->Evaluate(x, y, z), vx = r.s->Evaluate_derivative_x(x, y, z), vy = r.s->Evaluate_derivative_y(x, y, z); vp_near(r.s->Evaluate_z_predefined(x, y, c), v, T, "predefined-value"); vp_near(r.s->Evaluate_derivative_x_z_predefined(x, y, c), vx, T, "predefined-dx"); vp_near(r.s->Evaluate_derivative_y_z_predefined(x, y, c), vy, T, "predefined-dy");
  r.s->Evaluate_f_dfdx_dfdy_z_predefined(x, y, c, f, fx, fy); vp_near(f, v, T, "predefined-combined-value"); vp_near(fx, vx, T, "predefined-combined-dx"); vp_near(fy, vy, T, "predefined-combined-dy"); for (int i = 0; i <= r.ox; i++) for (int j = 0; j <= r.oy; j++) vp_near(c(i, j), c0(i, j), 0, "coefficients-kept"); }
VP_CASES(predefined, 3 * N3) { predefined_(vp_k % 3, O3[vp_k / 3][0], O3[vp_k / 3][1], O3[vp_k / 3][2]); }
VP_CASES(predefined_big, 3 * NB3) { vp_fixdom = true; predefined_(vp_k % 3, BO3[vp_k / 3][0], BO3[vp_k / 3][1], BO3[vp_k / 3][2]); }
static void infinite_(int kind, int ox, int oy, int oz) {  S3 r = mk3(kind, ox, oy, oz); double x = r.x.x, y = r.y.x, f, fx, fy; Mat c = r.s->Compute_cij_zinf(); double v = r.s->Evaluate_zinf(x, y), vx = r.s->Evaluate_derivative_x_zinf(x, y), vy = r.s->Evaluate_derivative_y_zinf(x, y);
  vp_near(r.s->Evaluate_z_predefined(x, y, c), v, T, "infinite-value"); vp_near(r.s->Evaluate_derivative_x_z_predefined(x, y, c), vx, T, "infinite-dx"); vp_near(r.s->Evaluate_derivative_y_z_predefined(x, y, c), vy, T, "infinite-dy"); r.s->Evaluate_f_dfdx_dfdy_z_predefined(x, y, c, f, fx, fy); vp_near(f, v, T, "infinite-combined-value"); vp_near(fx, vx, T, "infinite-combined-dx"); vp_near(fy, vy, T, "infinite-combined-dy"); }
VP_CASES(infinite, 3 * N3) { infinite_(vp_k % 3, O3[vp_k / 3][0], O3[vp_k / 3][1], O3[vp_k / 3][2]); }
VP_CASES(infinite_big, 3 * NB3) { vp_fixdom = true; infinite_(vp_k % 3, BO3[vp_k / 3][0], BO3[vp_k / 3][1], BO3[vp_k / 3][2]); }
static void getters_(int kind, int ox, int oy, int oz) {  S3 r = mk3(kind, ox, oy, oz); vp_assert(r.s->order_x() == r.ox, "order-x"); vp_assert(r.s->order_y() == r.oy, "order-y"); vp_assert(r.s->order_z() == r.oz, "order-z"); vp_near(r.s->xmin(), r.x.lo, 0, "xmin"); vp_near(r.s->ymin(), r.y.lo, 0, "ymin"); vp_near(r.s->zmin(), r.z.lo, 0, "zmin");
  auto b = r.s->bijk(); vp_assert(b.size() == r.b.size(), "coefficient-count"); for (int q = 0; q <= r.oz; q++) for (int i = 0; i <= r.ox; i++) for (int j = 0; j <= r.oy; j++) vp_near(b[q](i, j), r.b[q](i, j), 0, "coefficients");
  if (r.kind == 0) { auto c = std::static_pointer_cast<PowerSeries3dClosed<double>>(r.s); vp_near(c->xmax(), r.x.hi, 0, "xmax-closed"); vp_near(c->ymax(), r.y.hi, 0, "ymax-closed"); vp_near(c->zmax(), r.z.hi, 0, "zmax-closed"); vp_assert(r.s->type() == "PowerSeries3dClosed", "type-closed"); }
  else if (r.kind == 1) { auto c = std::static_pointer_cast<PowerSeries3dYZOpenedXClosed<double>>(r.s); vp_near(c->xmax(), r.x.hi, 0, "xmax-yzopen"); vp_assert(r.s->type() == "PowerSeries3dYZOpenedXClosed", "type-yzopen"); }
  else { auto c = std::static_pointer_cast<PowerSeries3dZOpenedXYClosed<double>>(r.s); vp_near(c->xmax(), r.x.hi, 0, "xmax-zopen"); vp_near(c->ymax(), r.y.hi, 0, "ymax-zopen"); vp_assert(r.s->type() == "PowerSeries3dZOpenedXYClosed", "type-zopen"); } }
VP_CASES(getters, 3 * N3) { getters_(vp_k % 3, O3[vp_k / 3][0], O3[vp_k / 3][1], O3[vp_k / 3][2]); }
VP_CASES(getters_big, 3 * NB3) { vp_fixdom = true; getters_(vp_k % 3, BO3[vp_k / 3][0], BO3[vp_k / 3][1], BO3[vp_k / 3][2]); }
// domains of other magnitudes
VP_CASES(all_dom, 30) { vp_fixdom = true; vp_domk = 1 + vp_k % 5; S3 r = mk3(vp_k / 5 % 3, vp_k / 15 ? 1 : 2, 1, vp_k / 15 ? 2 : 1); double x = r.x.x, y = r.y.x, z = r.z.x, p = r.x.du, q = r.y.du, f, fx, fy, v = r.s->Evaluate(x, y, z), vx = r.s->Evaluate_derivative_x(x, y, z), vy = r.s->Evaluate_derivative_y(x, y, z);
  r.s->Evaluate_f_dfdx_dfdy(x, y, z, f, fx, fy); vp_near(f, v, T, "domain-combined"); vp_near(fx / p, vx / p, T, "domain-combined-dx"); vp_near(fy / q, vy / q, T, "domain-combined-dy"); Mat c = r.s->Compute_cij(z); vp_near(r.s->Evaluate_z_predefined(x, y, c), v, T, "domain-predefined"); vp_near(r.s->Evaluate_derivative_x_z_predefined(x, y, c) / p, vx / p, T, "domain-predefined-dx"); vp_near(r.s->Evaluate_derivative_y_z_predefined(x, y, c) / q, vy / q, T, "domain-predefined-dy"); r.s->Evaluate_f_dfdx_dfdy_z_predefined(x, y, c, f, fx, fy); vp_near(f, v, T, "domain-predefined-combined"); vp_near(fx / p, vx / p, T, "domain-predefined-combined-dx"); vp_near(fy / q, vy / q, T, "domain-predefined-combined-dy");
  c = r.s->Compute_cij_zinf(); vp_near(r.s->Evaluate_z_predefined(x, y, c), r.s->Evaluate_zinf(x, y), T, "domain-infinite"); vp_near(r.s->Evaluate_derivative_x_z_predefined(x, y, c) / p, r.s->Evaluate_derivative_x_zinf(x, y) / p, T, "domain-infinite-dx"); vp_near(r.s->Evaluate_derivative_y_z_predefined(x, y, c) / q, r.s->Evaluate_derivative_y_zinf(x, y) / q, T, "domain-infinite-dy"); }
// sequences: coefficients reduced for one z stay valid after those for another one were computed
VP_CASES(sequence, 3) { S3 r = mk3(vp_k, 1, 1, 2); double x = r.x.x, y = r.y.x, z = r.z.x, z2 = r.z.open ? z * 1.5 : r.z.lo; Mat c = r.s->Compute_cij(z), d = r.s->Compute_cij(z2), e = r.s->Compute_cij_zinf(); r.s->Evaluate(x, y, z2); vp_near(r.s->Evaluate_z_predefined(x, y, c), r.s->Evaluate(x, y, z), T, "first-reduced"); vp_near(r.s->Evaluate_z_predefined(x, y, d), r.s->Evaluate(x, y, z2), T, "second-reduced"); vp_near(r.s->Evaluate_z_predefined(x, y, e), r.s->Evaluate_zinf(x, y), T, "infinite-reduced"); vp_near(r.s->Evaluate_z_predefined(x, y, c), r.s->Evaluate(x, y, z), T, "first-reduced-again"); }
