// C12: speed, angle and vector unit conversions are consistent
#include "vp.h"
#include <vector>
#include "interp_common.h"
#include "MathUtils/Unit.h"
#include "MathUtils/Angles.h"
using namespace mathutils;
// metres per second of one unit, independent of the library's constants
static double ms(int u) { return u == MS ? 1. : u == KNOT ? 1852. / 3600. : 1000. / 3600.; }
static double v() { return vp_sym("v", -1e4, 1e4); }
static const double T = 1e-6;
VP_CASE(named) { double x = v();
  vp_near(KNOT2MS(x), x * 1852. / 3600., T, "knot2ms"); vp_near(MS2KNOT(x), x * 3600. / 1852., T, "ms2knot"); vp_near(KMH2MS(x), x / 3.6, T, "kmh2ms"); vp_near(MS2KMH(x), x * 3.6, T, "ms2kmh"); vp_near(KMH2KNOT(x), x / 1.852, T, "kmh2knot"); vp_near(KNOT2KMH(x), x * 1.852, T, "knot2kmh");
  vp_near(MS2KNOT(KNOT2MS(x)), x, T, "knot-back"); vp_near(MS2KMH(KMH2MS(x)), x, T, "kmh-back"); vp_near(KNOT2KMH(KMH2KNOT(x)), x, T, "kmh-knot-back"); }
VP_CASES(generic, 9) { double x = v(); int a = vp_k / 3, b = vp_k % 3; double r = convert_velocity_unit(x, (SPEED_UNIT)a, (SPEED_UNIT)b); vp_near(r, x * ms(a) / ms(b), T, "convert-velocity"); vp_near(convert_velocity_unit(r, (SPEED_UNIT)b, (SPEED_UNIT)a), x, T, "convert-back");
  for (int c = 0; c < 3; c++) vp_near(convert_velocity_unit(convert_velocity_unit(x, (SPEED_UNIT)a, (SPEED_UNIT)c), (SPEED_UNIT)c, (SPEED_UNIT)b), r, T, "convert-through"); }
VP_CASE(generic_default) { double x = v(); for (int a = 0; a < 3; a++) vp_near(convert_velocity_unit(x, (SPEED_UNIT)a), x * ms(a), T, "convert-default"); }
// vectors: kinds 0 deg2rad, 1 rad2deg, 2 kt2ms
VP_CASES(vectors, 12) { int n = vp_k / 3, kind = vp_k % 3; std::vector<double> in, out(vp_pick("outlen", 0, 2), 7.); for (int i = 0; i < n; i++) in.push_back(vp_symi("e", i, -1e4, 1e4));
  double f = kind == 0 ? M_PI / 180 : kind == 1 ? 180 / M_PI : 1852. / 3600.; const std::vector<double> orig = in; const std::vector<double>& cin = in;
  if (kind == 0) deg2rad(cin, out); else if (kind == 1) rad2deg(cin, out); else kt2ms(cin, out);
  vp_assert(out.size() == orig.size(), "copy-size"); vp_assert(in.size() == orig.size(), "source-size");
  for (int i = 0; i < n; i++) { vp_near(out[i], orig[i] * f, T, "copy-value"); vp_near(in[i], orig[i], 0, "source-untouched"); }
  if (kind == 0) deg2rad(in); else if (kind == 1) rad2deg(in); else kt2ms(in);
  vp_assert(in.size() == orig.size(), "inplace-size"); for (int i = 0; i < n; i++) vp_near(in[i], orig[i] * f, T, "inplace-value"); }
VP_CASE(roundtrip) { std::vector<double> a; for (int i = 0; i < 3; i++) a.push_back(vp_symi("e", i, -1e4, 1e4)); auto b = a; deg2rad(b); rad2deg(b); for (int i = 0; i < 3; i++) vp_near(b[i], a[i], T, "roundtrip"); }
VP_CASE(constants) { vp_near(DEG2RAD * 180, M_PI, 1e-12, "deg2rad-constant"); vp_near(RAD2DEG * M_PI, 180, 1e-12, "rad2deg-constant"); vp_near(DEG2RAD * RAD2DEG, 1, 1e-12, "deg-rad-inverse"); double x = v(); vp_near(x * MU_PI_180 * MU_180_PI, x, T, "scalar-roundtrip"); }
// any magnitude
static const double SC[6] = {1e-12, 1e-6, 1e-3, 1e5, 1e9, 1e15};
VP_CASES(scales, 54) { double s = SC[vp_k / 9], x = vp_sym("v", -1, 1); int a = vp_k % 9 / 3, b = vp_k % 3; vp_near(convert_velocity_unit(x * s, (SPEED_UNIT)a, (SPEED_UNIT)b) / s, x * ms(a) / ms(b), T, "scaled-convert"); }
VP_CASES(scaled_named, 6) { double s = SC[vp_k], x = vp_sym("v", -1, 1); vp_near(KNOT2MS(x * s) / s, x * 1852. / 3600., T, "scaled-knot2ms"); vp_near(MS2KNOT(x * s) / s, x * 3600. / 1852., T, "scaled-ms2knot"); vp_near(KMH2MS(x * s) / s, x / 3.6, T, "scaled-kmh2ms"); vp_near(MS2KMH(x * s) / s, x * 3.6, T, "scaled-ms2kmh"); vp_near(KMH2KNOT(x * s) / s, x / 1.852, T, "scaled-kmh2knot"); vp_near(KNOT2KMH(x * s) / s, x * 1.852, T, "scaled-knot2kmh"); }
VP_CASES(float_version, 9) { float x = (float)vp_sym("v", -100, 100); int a = vp_k / 3, b = vp_k % 3; vp_near(convert_velocity_unit(x, (SPEED_UNIT)a, (SPEED_UNIT)b), x * ms(a) / ms(b), 1e-3, "float-convert"); }
// long vectors; an output that is the input itself; outputs longer than the input; float elements; twice in a row
VP_CASES(long_vectors, 3) { int n = 33, kind = vp_k; std::vector<double> in, out(50, 7.); for (int i = 0; i < n; i++) in.push_back(vp_symi("e", i, -1e4, 1e4)); const auto orig = in; const auto& cin = in; double f = kind == 0 ? M_PI / 180 : kind == 1 ? 180 / M_PI : 1852. / 3600.; if (kind == 0) deg2rad(cin, out); else if (kind == 1) rad2deg(cin, out); else kt2ms(cin, out); vp_assert(out.size() == (size_t)n, "long-size"); for (int i = 0; i < n && i < (int)out.size(); i++) vp_near(out[i], orig[i] * f, T, "long-value");
  auto twice = out; if (kind == 0) deg2rad(cin, twice); else if (kind == 1) rad2deg(cin, twice); else kt2ms(cin, twice); vp_assert(twice.size() == (size_t)n, "again-size"); for (int i = 0; i < n && i < (int)twice.size(); i++) vp_near(twice[i], orig[i] * f, T, "again-value");
  if (kind == 0) deg2rad(cin, in); else if (kind == 1) rad2deg(cin, in); else kt2ms(cin, in); vp_assert(in.size() == (size_t)n, "self-size"); for (int i = 0; i < n; i++) vp_near(in[i], orig[i] * f, T, "self-value"); }
VP_CASES(float_vectors, 3) { std::vector<float> in, out; for (int i = 0; i < 3; i++) in.push_back((float)vp_symi("e", i, -100, 100)); const auto& cin = in; double f = vp_k == 0 ? M_PI / 180 : vp_k == 1 ? 180 / M_PI : 1852. / 3600.; if (vp_k == 0) deg2rad(cin, out); else if (vp_k == 1) rad2deg(cin, out); else kt2ms(cin, out); vp_assert(out.size() == 3, "float-vector-size"); for (int i = 0; i < 3; i++) vp_near(out[i], in[i] * f, 1e-1, "float-vector"); }
// names of the angle units
VP_CASE(angle_names) { vp_assert(STRING2ANGLE("DEG") == DEG, "name-deg"); vp_assert(STRING2ANGLE("RAD") == RAD, "name-rad"); }
VP_CASES(angle_unknown, 5) { static const char* N[5] = {"", "deg", "DEGREE", "RA", "GRAD"}; vp_exit_begin("name-refused", 1); STRING2ANGLE(N[vp_k]); vp_exit_end(); }
// very long vectors
VP_CASES(very_long_vectors, 12) { int n = VP_HUGE[vp_k / 3], kind = vp_k % 3; auto in = vp_spotvec("e", n); std::vector<double> out; const auto orig = in; const auto& cin = in; double f = kind == 0 ? M_PI / 180 : kind == 1 ? 180 / M_PI : 1852. / 3600.; if (kind == 0) deg2rad(cin, out); else if (kind == 1) rad2deg(cin, out); else kt2ms(cin, out); if (kind == 0) deg2rad(in); else if (kind == 1) rad2deg(in); else kt2ms(in); vp_assert((int)out.size() == n && (int)in.size() == n, "very-long-size"); for (int i = 0; i < n && i < (int)out.size(); i++) { vp_near(out[i], orig[i] * f, T, "very-long-value"); vp_near(in[i], orig[i] * f, T, "very-long-inplace"); } }
