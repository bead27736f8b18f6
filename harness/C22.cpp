// C22: scalar helpers
#include "vp.h"
#include <vector>
#include <cassert>
#include <cmath>
#include "MathUtils/Maths.h"
#include "MathUtils/Check.h"
#include "interp_common.h"
using namespace mathutils;
VP_CASE(sign_real) { double x = vp_sym("x", -1e6, 1e6); int s = sgn(x); if (x > 0) vp_assert(s == 1, "sgn-positive"); else if (x < 0) vp_assert(s == -1, "sgn-negative"); else vp_assert(s == 0, "sgn-zero"); }
VP_CASE(sign_int) { long x = vp_int("x", -9223372036854775807L - 1, 9223372036854775807L); int s = sgn(x); if (x > 0) vp_assert(s == 1, "sgn-int-positive"); else if (x < 0) vp_assert(s == -1, "sgn-int-negative"); else vp_assert(s == 0, "sgn-int-zero"); vp_assert(sgn((unsigned char)(x & 255)) == ((x & 255) ? 1 : 0), "sgn-unsigned"); }
VP_CASE(sat_real) { double x = vp_sym("x", -1e3, 1e3), lo = vp_sym("lo", -1e3, 1e3), hi = vp_sym("hi", -1e3, 1e3); vp_assume(lo <= hi); double r = Saturate(x, lo, hi); if (x < lo) vp_near(r, lo, 0, "sat-low"); else if (x > hi) vp_near(r, hi, 0, "sat-high"); else vp_near(r, x, 0, "sat-inside"); }
template <class I> static void sat(I x, I lo, I hi) { vp_assume(lo <= hi); I r = Saturate<I>(x, lo, hi); if (x < lo) vp_assert(r == lo, "sat-int-low"); else if (x > hi) vp_assert(r == hi, "sat-int-high"); else vp_assert(r == x, "sat-int-inside"); }
VP_CASE(sat_long) { const long m = 9223372036854775807L; sat<long>(vp_int("x", -m - 1, m), vp_int("lo", -m - 1, m), vp_int("hi", -m - 1, m)); }
VP_CASE(sat_ulong) { const long m = 9223372036854775807L; sat<unsigned long>((unsigned long)vp_int("x", -m - 1, m), (unsigned long)vp_int("lo", -m - 1, m), (unsigned long)vp_int("hi", -m - 1, m)); }
VP_CASE(sat_int) { const long m = 2147483647L; sat<int>((int)vp_int("x", -m - 1, m), (int)vp_int("lo", -m - 1, m), (int)vp_int("hi", -m - 1, m)); }
VP_CASE(sat_uint) { const long m = 4294967295L; sat<unsigned>((unsigned)vp_int("x", 0, m), (unsigned)vp_int("lo", 0, m), (unsigned)vp_int("hi", 0, m)); }
VP_CASE(sat_short) { sat<short>((short)vp_int("x", -32768, 32767), (short)vp_int("lo", -32768, 32767), (short)vp_int("hi", -32768, 32767)); }
VP_CASE(sgnsqrt) { double x = vp_sym("x", -1e6, 1e6), r = SgnSqrt(x); vp_near(r * std::fabs(r), x, 1e-6, "signed-root"); if (x > 0) vp_assert(r >= 0, "signed-root-sign"); else vp_assert(r <= 0, "signed-root-sign"); }
static bool clear(double d) { return d * d > 1e-16; }   // not on the rounding edge of the threshold
VP_CASE(close) { double a = vp_sym("a", -100, 100), b = vp_sym("b", -100, 100), rt = vp_sym("rt", 0, 1), at = vp_sym("at", 0, 10), m = at + rt * std::fabs(b) - std::fabs(a - b); vp_assume(clear(m)); bool c = IsClose(a, b, rt, at); if (m >= 0) vp_assert(c, "close"); else vp_assert(!c, "not-close"); }
VP_CASE(close_default) { double b = vp_sym("b", -100, 100), d = vp_sym("d", -0.01, 0.01), m = 1e-8 + 1e-5 * std::fabs(b) - std::fabs(d); vp_assume(m * m > 1e-22); bool c = IsClose(b + d, b); if (m >= 0) vp_assert(c, "close-default"); else vp_assert(!c, "not-close-default"); }
VP_CASE(close_edge) { double b = vp_pick("b", -4, 4), s = vp_pick("s", 0, 1) ? 1 : -1; vp_assert(IsClose(b + s * (1 + 0.5 * std::fabs(b)), b, 0.5, 1.), "close-on-threshold"); }
VP_CASES(close_vectors, 4) { int n = vp_k; auto a = vp_vec("a", n), b = vp_vec("b", n); double rt = 0.25, at = vp_sym("at", 0, 10); bool all = true; for (int i = 0; i < n; i++) { double m = at + rt * std::fabs(b[i]) - std::fabs(a[i] - b[i]); vp_assume(clear(m)); if (m < 0) all = false; } bool c = IsClose(a, b, rt, at); vp_assert(c == all, "close-vectors"); }
VP_CASE(close_vectors_refused) { auto a = vp_vec("a", 1), b = vp_vec("b", 2); vp_exit_begin("close-unequal-lengths", VP_ABORTS); IsClose(a, b); vp_exit_end(); }
VP_CASE(assert_close) { double a = vp_sym("a", -100, 100), b = vp_sym("b", -100, 100), m = 1. + 0.5 * std::fabs(b) - std::fabs(a - b); vp_assume(clear(m)); if (m < 0) { vp_exit_begin("assert-close", VP_ABORTS); AssertIsClose(a, b, 0.5, 1.); vp_exit_end(); } AssertIsClose(a, b, 0.5, 1.); vp_assert(true, "assert-close-accepts"); }
VP_CASE(assert_close_vectors) { auto a = vp_vec("a", 2), b = vp_vec("b", 2); bool all = true; for (int i = 0; i < 2; i++) { double m = 1. + 0.5 * std::fabs(b[i]) - std::fabs(a[i] - b[i]); vp_assume(clear(m)); if (m < 0) all = false; } if (!all) { vp_exit_begin("assert-close-vectors", VP_ABORTS); AssertIsClose(a, b, 0.5, 1.); vp_exit_end(); } AssertIsClose(a, b, 0.5, 1.); vp_assert(true, "assert-close-vectors-accepts"); }
template <class I> static void par(I x, bool odd) { vp_assert(is_odd(x) == odd, "odd"); vp_assert(is_even(x) == !odd, "even"); }
VP_CASE(parity) { const long m = 9223372036854775807L; long x = vp_int("x", -m - 1, m); bool odd = x & 1; par<long>(x, odd); par<unsigned long>((unsigned long)x, odd); par<int>((int)x, odd); par<unsigned>((unsigned)x, odd); par<short>((short)x, odd); par<signed char>((signed char)x, odd); }
// every finite double, subnormal and huge ones included (IEEE-754)
#define ANYD(n) vp_sym(n, -1.7976931348623157e308, 1.7976931348623157e308)
VP_IEEE_CASE(sign_every) { double x = ANYD("x"); int s = sgn(x); if (x > 0) vp_assert(s == 1, "sgn-every-positive"); else if (x < 0) vp_assert(s == -1, "sgn-every-negative"); else vp_assert(s == 0, "sgn-every-zero"); }
VP_IEEE_CASE(sat_every) { double x = ANYD("x"), lo = ANYD("lo"), hi = ANYD("hi"); vp_assume(lo <= hi); double r = Saturate(x, lo, hi); if (x < lo) vp_assert(r == lo, "sat-every-low"); else if (x > hi) vp_assert(r == hi, "sat-every-high"); else vp_assert(r == x, "sat-every-inside"); }
VP_IEEE_CASE(close_every) { double a = ANYD("a"), b = ANYD("b"); vp_assert(IsClose(b, b, 0., 0.), "close-to-itself"); vp_assert(IsClose(a, b, 0., 0.) == (std::fabs(a - b) <= 0), "close-exact"); vp_assert(IsClose(a, b, 0., 1e-300) == (std::fabs(a - b) <= 1e-300), "close-absolute"); }
VP_CASE(sat_char) { sat<signed char>((signed char)vp_int("x", -128, 127), (signed char)vp_int("lo", -128, 127), (signed char)vp_int("hi", -128, 127)); sat<unsigned char>((unsigned char)vp_int("ux", 0, 255), (unsigned char)vp_int("ulo", 0, 255), (unsigned char)vp_int("uhi", 0, 255)); }
VP_CASE(sat_ushort) { sat<unsigned short>((unsigned short)vp_int("x", 0, 65535), (unsigned short)vp_int("lo", 0, 65535), (unsigned short)vp_int("hi", 0, 65535)); }
VP_CASE(sat_float) { float x = (float)vp_sym("x", -1e3, 1e3), lo = (float)vp_sym("lo", -1e3, 1e3), hi = (float)vp_sym("hi", -1e3, 1e3); vp_assume(lo <= hi); float r = Saturate(x, lo, hi); if (x < lo) vp_near(r, lo, 0, "sat-float-low"); else if (x > hi) vp_near(r, hi, 0, "sat-float-high"); else vp_near(r, x, 0, "sat-float-inside"); vp_assert(sgn(x) == (x > 0 ? 1 : x < 0 ? -1 : 0), "sgn-float"); }
VP_CASE(sign_small_types) { const long m = 9223372036854775807L; long x = vp_int("x", -m - 1, m); int i = (int)x; short h = (short)x; signed char c = (signed char)x; unsigned u = (unsigned)x; vp_assert(sgn(i) == (i > 0 ? 1 : i < 0 ? -1 : 0), "sgn-i"); vp_assert(sgn(h) == (h > 0 ? 1 : h < 0 ? -1 : 0), "sgn-h"); vp_assert(sgn(c) == (c > 0 ? 1 : c < 0 ? -1 : 0), "sgn-c"); vp_assert(sgn(u) == (u > 0 ? 1 : 0), "sgn-u"); vp_assert(sgn((unsigned long)x) == (x != 0 ? 1 : 0), "sgn-ul"); }
static const double SC[8] = {1e-300, 1e-15, 1e-9, 1e-4, 1e4, 1e9, 1e15, 1e300};
VP_CASES(scaled_root, 6) { static const double Q[6] = {1e-12, 1e-6, 1e-3, 1e3, 1e6, 1e12}; double q = Q[vp_k], u = vp_sym("x", -10, 10), r = SgnSqrt(u * q * q) / q; vp_near(r * std::fabs(r), u, 1e-6, "scaled-signed-root"); }
VP_CASE(root_special) { vp_near(SgnSqrt(0.), 0, 0, "root-zero"); vp_near(SgnSqrt(-4.), -2, 1e-15, "root-negative"); vp_near(SgnSqrt(1e-300) * 1e150, 1, 1e-12, "root-tiny"); vp_near(SgnSqrt(-1e300) * 1e-150, -1, 1e-12, "root-huge"); }
VP_CASES(scaled_close, 8) { double q = SC[vp_k], a = vp_sym("a", -10, 10), b = vp_sym("b", -10, 10), rt = vp_sym("rt", 0, 1), at = vp_sym("at", 0, 10), m = at + rt * std::fabs(b) - std::fabs(a - b); vp_assume(clear(m)); bool c = IsClose(a * q, b * q, rt, at * q); if (m >= 0) vp_assert(c, "scaled-close"); else vp_assert(!c, "scaled-not-close"); }
VP_CASES(close_defaults, 8) { static const double Q[8] = {1e-12, 1e-8, 1e-6, 1e-3, 1, 1e3, 1e6, 1e12}; double q = Q[vp_k], b = vp_sym("b", -10, 10), d = vp_sym("d", -3, 3), e = 1e-8 + 1e-5 * q, m = 1e-8 / e + 1e-5 * q / e * std::fabs(b) - std::fabs(d); vp_assume(m * m > 1e-16); bool c = IsClose(b * q + d * e, b * q); if (m >= 0) vp_assert(c, "close-by-default"); else vp_assert(!c, "not-close-by-default"); if (m >= 0) vp_assert(IsClose(std::vector<double>{b * q + d * e}, std::vector<double>{b * q}), "vectors-close-by-default"); else vp_assert(!IsClose(std::vector<double>{b * q + d * e}, std::vector<double>{b * q}), "vectors-not-close-by-default"); }
VP_CASE(close_rtol_only) { double a = vp_sym("a", -100, 100), b = vp_sym("b", -100, 100), rt = vp_sym("rt", 0, 3), m = 1e-8 + rt * std::fabs(b) - std::fabs(a - b); vp_assume(clear(m)); vp_assert(IsClose(a, b, rt) == (m >= 0), "close-given-rtol"); }
VP_CASES(close_long, 3) { static const int L[3] = {5, 9, 17}; int n = L[vp_k], w = vp_pick("where", 0, n - 1); auto a = vp_vec("a", n, 1, 100); if (vp_k == 1) for (auto& e : a) e = -e; auto b = a; double d = vp_sym("d", -10, 10), m = 1 + 0.25 * std::fabs(b[w]) - std::fabs(d); vp_assume(clear(m)); a[w] += d; vp_assert(IsClose(a, b, 0.25, 1.) == (m >= 0), "close-long"); }
VP_CASES(close_not_symmetric, 2) { double a = vp_sym("a", 0, 100), m = 0.5 * a - 1; vp_assume(m * m > 0.01); (void)m; double b = a + 1, k = 0.5 * b - 1; vp_assume(clear(k)); if (vp_k) vp_assert(IsClose(-a, -b, 0.5, 0.) == (k >= 0), "close-relative-to-second"); else vp_assert(IsClose(a, b, 0.5, 0.) == (k >= 0), "close-relative-to-second"); }
VP_CASES(close_huge, 4) { int n = VP_HUGE[vp_k]; auto segs = vp_long_segments(n + 2); int w = segs[vp_pick("where", 0, (long)segs.size() - 1)]; if (w >= n) w = n - 1; auto a = vp_spotvec("a", n, 1, 100); auto b = a; double d = vp_sym("d", -10, 10), m = 1 + 0.25 * std::fabs(b[w]) - std::fabs(d); vp_assume(clear(m)); a[w] += d; vp_assert(IsClose(a, b, 0.25, 1.) == (m >= 0), "close-huge"); }
