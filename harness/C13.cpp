// C13: frequency and period conversions are consistent
#include "vp.h"
#include "MathUtils/Unit.h"
using namespace mathutils;
static const FREQUENCY_UNIT U[6] = {HERTZ, RADS, DEGS, DEGM, S, RPM};
// value of 1 Hz in each unit (period handled apart)
static double perHz(FREQUENCY_UNIT u) { return u == HERTZ ? 1. : u == RADS ? 2 * M_PI : u == DEGS ? 360. : u == DEGM ? 21600. : u == RPM ? 60. : 0.; }
static double toHz(double x, FREQUENCY_UNIT u) { return u == mathutils::S ? 1. / x : x / perHz(u); }
static double fromHz(double h, FREQUENCY_UNIT u) { return u == mathutils::S ? 1. / h : h * perHz(u); }
static double value(int sign) { double x = vp_sym("x", 1e-2, 1e3); return sign ? -x : x; }
static const double T = 1e-5;
VP_CASES(named, 2) { double x = value(vp_k);
  vp_near(DEGS2RADS(x), x * M_PI / 180, T, "degs2rads"); vp_near(RADS2DEGS(x), x * 180 / M_PI, T, "rads2degs"); vp_near(HZ2RADS(x), x * 2 * M_PI, T, "hz2rads"); vp_near(RADS2HZ(x), x / (2 * M_PI), T, "rads2hz");
  vp_near(HZ2S(x) * x, 1, T, "hz2s"); vp_near(S2HZ(x) * x, 1, T, "s2hz"); vp_near(RADS2S(x) * x, 2 * M_PI, T, "rads2s"); vp_near(S2RADS(x) * x, 2 * M_PI, T, "s2rads");
  vp_near(RPM2RADS(x), x * 2 * M_PI / 60, T, "rpm2rads"); vp_near(RADS2RPM(x), x * 60 / (2 * M_PI), T, "rads2rpm"); vp_near(DEGM2RADS(x), x * M_PI / 180 / 60, T, "degm2rads"); vp_near(RADS2DEGM(x), x * 180 / M_PI * 60, T, "rads2degm");
  vp_near(RADS2DEGS(DEGS2RADS(x)), x, T, "degs-back"); vp_near(RADS2HZ(HZ2RADS(x)), x, T, "hz-back"); vp_near(S2HZ(HZ2S(x)), x, T, "period-back"); vp_near(S2RADS(RADS2S(x)), x, T, "rads-period-back"); vp_near(RADS2RPM(RPM2RADS(x)), x, T, "rpm-back"); vp_near(RADS2DEGM(DEGM2RADS(x)), x, T, "degm-back"); }
VP_CASES(generic, 72) { double x = value(vp_k / 36); FREQUENCY_UNIT a = U[vp_k / 6 % 6], b = U[vp_k % 6];
  double r = convert_frequency(x, a, b); vp_near(r, fromHz(toHz(x, a), b), 1e-4, "convert"); vp_near(convert_frequency(r, b, a), x, 1e-4, "convert-back");
  for (int c = 0; c < 6; c++) vp_near(convert_frequency(convert_frequency(x, a, U[c]), U[c], b), r, 1e-4, "convert-through"); }
VP_CASES(float_version, 36) { FREQUENCY_UNIT a = U[vp_k / 6 % 6], b = U[vp_k % 6]; float x = (float)vp_sym("x", 0.5, 50); vp_near(convert_frequency(x, a, b) / fromHz(toHz(x, a), b), 1, 1e-4, "convert-float"); }
// any magnitude, both signs
static const double SC[6] = {1e-9, 1e-5, 1e-2, 1e4, 1e7, 1e10};
VP_CASES(scales, 216) { double s = SC[vp_k / 36], x = vp_sym("x", 0.5, 2); FREQUENCY_UNIT a = U[vp_k / 6 % 6], b = U[vp_k % 6]; double sg = vp_k % 2 ? -1 : 1, k = (a == mathutils::S) == (b == mathutils::S) ? s : 1 / s; double w = sg * fromHz(toHz(x, a), b); vp_near(convert_frequency(sg * x * s, a, b) / k / (w > 1 || w < -1 ? 1000 : 1), w / (w > 1 || w < -1 ? 1000 : 1), 1e-6, "scaled-convert"); }
// a null frequency in any of the units that are not periods
VP_CASES(null, 25) { static const FREQUENCY_UNIT F[5] = {HERTZ, RADS, DEGS, DEGM, RPM}; vp_near(convert_frequency(0., F[vp_k / 5], F[vp_k % 5]), 0, 0, "null-convert"); }
VP_CASE(null_named) { vp_near(DEGS2RADS(0.), 0, 0, "null"); vp_near(RADS2DEGS(0.), 0, 0, "null"); vp_near(HZ2RADS(0.), 0, 0, "null"); vp_near(RADS2HZ(0.), 0, 0, "null"); vp_near(RPM2RADS(0.), 0, 0, "null"); vp_near(RADS2RPM(0.), 0, 0, "null"); vp_near(DEGM2RADS(0.), 0, 0, "null"); vp_near(RADS2DEGM(0.), 0, 0, "null"); }
