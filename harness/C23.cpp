// C23: complex vector parts, amplitude and phase
#include "vp.h"
#include <vector>
#include <complex>
#include <cmath>
#include "interp_common.h"
#include "MathUtils/Unit.h"
#include "MathUtils/Complex.h"
using namespace mathutils;
typedef std::complex<double> C; typedef std::vector<C> VC; typedef std::vector<double> V;
static VC cvec(int n) { VC v; for (int k = 0; k < n; k++) v.push_back(C(vp_symi("re", k, -10, 10), vp_symi("im", k, -10, 10))); return v; }
#define NN (VP_THOROUGH ? 4 : 3)
VP_CASES(parts, NN + 2) { int n = vp_k; VC z = cvec(n); const VC z0 = z; V r = Real(z), i = Imag(z); vp_assert(r.size() == (size_t)n, "real-size"); vp_assert(i.size() == (size_t)n, "imag-size"); for (int k = 0; k < n; k++) { vp_near(r[k], z0[k].real(), 0, "real"); vp_near(i[k], z0[k].imag(), 0, "imag"); vp_nearc(z[k], z0[k], 0, "untouched"); } }
VP_CASES(amplitude, NN + 1) { int n = vp_k; VC z = cvec(n); V a = Amplitude(z); vp_assert(a.size() == (size_t)n, "amplitude-size"); for (int k = 0; k < n; k++) { vp_near(a[k] * a[k], z[k].real() * z[k].real() + z[k].imag() * z[k].imag(), 1e-7, "amplitude"); vp_assert(a[k] >= 0, "amplitude-positive"); } }
VP_CASES(phase, 3) { int n = vp_k; VC z = cvec(n); for (auto& c : z) vp_assume(c.real() * c.real() + c.imag() * c.imag() > 1e-6); V a = Amplitude(z), p = Phase(z), q = Phase(z, RAD), d = Phase(z, DEG); vp_assert(p.size() == (size_t)n, "phase-size"); vp_assert(d.size() == (size_t)n, "phase-degree-size");
  for (int k = 0; k < n; k++) { vp_near(a[k] * std::cos(p[k]), z[k].real(), 1e-6, "reconstruct-real"); vp_near(a[k] * std::sin(p[k]), z[k].imag(), 1e-6, "reconstruct-imag"); vp_assert(p[k] <= M_PI + 1e-9, "phase-range"); vp_assert(p[k] >= -M_PI - 1e-9, "phase-range"); vp_near(q[k], p[k], 0, "phase-radians"); vp_near(d[k], p[k] * (180 / M_PI), 1e-6, "phase-degrees"); } }
// longer vectors, other magnitudes, special directions
static const double SC[6] = {1e-12, 1e-6, 1e-3, 1e3, 1e6, 1e12};
VP_CASES(long_parts, 3) { static const int L[3] = {8, 17, 33}; int n = L[vp_k]; VC z = cvec(n); V r = Real(z), i = Imag(z), a = Amplitude(z); vp_assert(r.size() == (size_t)n && i.size() == (size_t)n && a.size() == (size_t)n, "long-size"); for (int k = 0; k < n; k++) { vp_near(r[k], z[k].real(), 0, "long-real"); vp_near(i[k], z[k].imag(), 0, "long-imag"); vp_near(a[k] * a[k], z[k].real() * z[k].real() + z[k].imag() * z[k].imag(), 1e-7, "long-amplitude"); } }
VP_CASES(scaled_amplitude, 6) { double q = SC[vp_k]; VC u = cvec(2), z = u; for (auto& e : z) e = C(e.real() * q, e.imag() * q); V a = Amplitude(z), r = Real(z), i = Imag(z); for (int k = 0; k < 2; k++) { double b = a[k] / q; vp_near(b * b, u[k].real() * u[k].real() + u[k].imag() * u[k].imag(), 1e-7, "scaled-amplitude"); vp_near(r[k] / q, u[k].real(), 1e-9, "scaled-real"); vp_near(i[k] / q, u[k].imag(), 1e-9, "scaled-imag"); } }
VP_CASES(scaled_phase, 6) { double q = SC[vp_k]; C u(vp_sym("re", -10, 10), vp_sym("im", -10, 10)); double m = u.real() * u.real() + u.imag() * u.imag(); vp_assume(m > 1e-2); VC z{C(u.real() * q, u.imag() * q)}; V p = Phase(z), d = Phase(z, DEG), a = Amplitude(z); vp_near(a[0] / q * std::cos(p[0]), u.real(), 1e-6, "scaled-reconstruct-real"); vp_near(a[0] / q * std::sin(p[0]), u.imag(), 1e-6, "scaled-reconstruct-imag"); vp_near(d[0], p[0] * (180 / M_PI), 1e-6, "scaled-degrees"); }
VP_CASE(axes) { double r = vp_sym("r", 0.001, 1000); VC z{C(r, 0), C(0, r), C(-r, 0), C(0, -r), C(0, 0)}; V p = Phase(z), d = Phase(z, DEG), a = Amplitude(z); static const double e[4] = {0, 90, 180, -90}; for (int k = 0; k < 4; k++) { vp_near(p[k], e[k] * M_PI / 180, 1e-9, "axis-phase"); vp_near(d[k], e[k], 1e-7, "axis-degrees"); vp_near(a[k], r, 1e-9, "axis-amplitude"); } vp_near(a[4], 0, 0, "zero-amplitude"); }
VP_CASES(quadrants, 4) { double x = vp_sym("x", 0.01, 10) * (vp_k % 2 ? -1 : 1), y = vp_sym("y", 0.01, 10) * (vp_k / 2 ? -1 : 1); V p = Phase(VC{C(x, y)}); if (y > 0) vp_assert(p[0] >= 0, "quadrant-sign"); else vp_assert(p[0] <= 0, "quadrant-sign"); if (x > 0) { vp_assert(p[0] <= M_PI / 2 + 1e-9, "quadrant-side"); vp_assert(p[0] >= -M_PI / 2 - 1e-9, "quadrant-side"); } else vp_assert(p[0] * p[0] >= M_PI * M_PI / 4 - 1e-9, "quadrant-side"); }
VP_CASE(float_parts) { std::vector<std::complex<float>> z; for (int k = 0; k < 2; k++) z.push_back({(float)vp_symi("re", k, -10, 10), (float)vp_symi("im", k, -10, 10)}); auto r = Real(z), i = Imag(z), a = Amplitude(z); for (int k = 0; k < 2; k++) { vp_near(r[k], z[k].real(), 0, "float-real"); vp_near(i[k], z[k].imag(), 0, "float-imag"); vp_near((double)a[k] * a[k], (double)z[k].real() * z[k].real() + (double)z[k].imag() * z[k].imag(), 1e-3, "float-amplitude"); } }
// very long vectors
VP_CASES(huge, 4) { int n = VP_HUGE[vp_k]; auto re = vp_spotvec("re", n, -10, 10), im = vp_spotvec("im", n, -7, 11); VC z; for (int k = 0; k < n; k++) z.push_back(C(re[k], im[k])); V r = Real(z), i = Imag(z), a = Amplitude(z); vp_assert((int)r.size() == n && (int)i.size() == n && (int)a.size() == n, "huge-size"); for (int k = 0; k < n; k++) { vp_near(r[k], re[k], 0, "huge-real"); vp_near(i[k], im[k], 0, "huge-imag"); vp_near(a[k] * a[k], re[k] * re[k] + im[k] * im[k], 1e-7, "huge-amplitude"); } }
VP_CASES(huge_phase, 3) { int n = VP_HUGE[vp_k]; auto segs = vp_long_segments(n + 2); int w = segs[vp_pick("where", 0, (long)segs.size() - 1)]; if (w >= n) w = n - 1; VC z; for (int k = 0; k < n; k++) z.push_back(k == w ? C(vp_sym("re", -10, 10), vp_sym("im", -10, 10)) : C((k * 37 % 23) - 11.5, (k * 11 % 17) - 8.5)); vp_assume(z[w].real() * z[w].real() + z[w].imag() * z[w].imag() > 1e-4); V p = Phase(z), d = Phase(z, DEG), a = Amplitude(z); vp_assert((int)p.size() == n && (int)d.size() == n, "huge-phase-size"); vp_near(a[w] * std::cos(p[w]), z[w].real(), 1e-6, "huge-reconstruct"); vp_near(a[w] * std::sin(p[w]), z[w].imag(), 1e-6, "huge-reconstruct"); vp_near(d[w], p[w] * (180 / M_PI), 1e-6, "huge-degrees"); for (int k = 0; k < n; k++) if (k != w) { vp_near(p[k], std::atan2(z[k].imag(), z[k].real()), 1e-12, "huge-phase"); vp_near(d[k], std::atan2(z[k].imag(), z[k].real()) * 180 / M_PI, 1e-9, "huge-phase-degrees"); } }
