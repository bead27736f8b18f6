// C34: convolution is the trapezoidal integral of kernel times signal
#include "vp.h"
#include "interp_common.h"
#include "MathUtils/MathUtils.h"
#include "MathUtils/Convolution.h"
#include <vector>
using namespace mathutils;
static const int N = VP_THOROUGH ? 7 : 5; static const double T = 1e-6;
// buffer of n samples, capacity cap, after pushed older samples that were (partly) overwritten
static boost::circular_buffer<double> buf(int n, int cap, int extra) { boost::circular_buffer<double> b(cap); for (int i = 0; i < extra; i++) b.push_back(vp_symi("old", i, -10, 10)); while (!b.empty()) b.pop_front(); for (int i = 0; i < n; i++) b.push_back(vp_symi("s", i, -10, 10)); return b; }
static double oracle(const std::vector<double>& k, double dt, bool rev) { int n = k.size(); double s = 0; for (int i = 0; i + 1 < n; i++) s += dt * (k[i] * vp_symi("s", rev ? i : n - 1 - i, -10, 10) + k[i + 1] * vp_symi("s", rev ? i + 1 : n - 2 - i, -10, 10)) / 2; return s; }
VP_CASES(integral, (N - 1) * 4) { int n = 2 + vp_k / 4, more = vp_k % 2, rev = vp_k / 2 % 2; int cap = n + more + 1; std::vector<double> k; for (int i = 0; i < n; i++) k.push_back(vp_symi("k", i, -10, 10)); double dt = vp_sym("dt", 0.001, 4); for (int e = 0; e <= 2 * cap; e++) { auto b = buf(n + more, cap, e); vp_near(NaiveConvolution(k, b, dt, (bool)rev), oracle(k, dt, rev), T, "convolution"); if (rev) vp_near(NaiveConvolution(k, b, dt), oracle(k, dt, true), T, "default-order"); } }
// full buffer that wrapped: the newest n samples overwrote the oldest ones
VP_CASES(wrapped, (N - 1) * 2) { int n = 2 + vp_k / 2, rev = vp_k % 2; std::vector<double> k; for (int i = 0; i < n; i++) k.push_back(vp_symi("k", i, -10, 10)); double dt = vp_sym("dt", 0.001, 4); for (int e = 0; e <= n; e++) { boost::circular_buffer<double> b(n); for (int i = 0; i < e; i++) b.push_front(vp_symi("old", i, -10, 10)); for (int i = n - 1; i >= 0; i--) b.push_front(vp_symi("s", i, -10, 10)); vp_near(NaiveConvolution(k, b, dt, (bool)rev), oracle(k, dt, rev), T, "wrapped"); } }
VP_CASES(bilinear, N - 1) { int n = 2 + vp_k; std::vector<double> k, k2, kc; boost::circular_buffer<double> s(n), s2(n), sc(n); double c = vp_sym("c", -10, 10), dt = vp_sym("dt", 0.001, 4); for (int i = 0; i < n; i++) { double a = vp_symi("k", i, -10, 10), b = vp_symi("k2", i, -10, 10), p = vp_symi("s", i, -10, 10), q = vp_symi("s2", i, -10, 10); k.push_back(a); k2.push_back(b); kc.push_back(a + c * b); s.push_back(p); s2.push_back(q); sc.push_back(p + c * q); } for (int r = 0; r < 2; r++) { vp_near(NaiveConvolution(kc, s, dt, (bool)r), NaiveConvolution(k, s, dt, (bool)r) + c * NaiveConvolution(k2, s, dt, (bool)r), T, "linear-in-kernel"); vp_near(NaiveConvolution(k, sc, dt, (bool)r), NaiveConvolution(k, s, dt, (bool)r) + c * NaiveConvolution(k, s2, dt, (bool)r), T, "linear-in-signal"); } }
VP_CASES(refused, (N - 1) * 2) { int n = 2 + vp_k / 2; std::vector<double> k; for (int i = 0; i < n; i++) k.push_back(vp_symi("k", i, -10, 10)); boost::circular_buffer<double> b(n); int m = vp_pick("filled", 1, n - 1); for (int i = 0; i < m; i++) b.push_back(vp_symi("s", i, -10, 10)); vp_exit_begin("short-buffer", VP_ANYEXIT); try { NaiveConvolution(k, b, 0.5, vp_k % 2 == 1); } catch (...) { std::exit(3); } vp_exit_end(); }
// long kernels, other magnitudes, much longer buffers
static double trap(const std::vector<double>& k, const std::vector<double>& s, double dt) { double r = 0; for (size_t i = 0; i + 1 < k.size(); i++) r += dt * (k[i] * s[i] + k[i + 1] * s[i + 1]) / 2; return r; }
VP_CASES(long_kernels, 12) { static const int L[6] = {8, 9, 16, 17, 25, 33}; int n = L[vp_k / 2]; bool rev = vp_k % 2; int more = n % 5; std::vector<double> k, s; boost::circular_buffer<double> b(n + more); for (int i = 0; i < n / 2; i++) b.push_back(7.); for (int i = 0; i < n + more; i++) { double v = vp_symi("s", i, -10, 10); b.push_back(v); if (i < n) s.push_back(v); } for (int i = 0; i < n; i++) k.push_back(vp_symi("k", i, -10, 10)); if (!rev) for (int i = 0; i < n / 2; i++) std::swap(s[i], s[n - 1 - i]); double dt = vp_sym("dt", 0.001, 4); const auto k0 = k; vp_near(NaiveConvolution(k, b, dt, rev), trap(k0, s, dt), T, "long-kernel"); for (int i = 0; i < n; i++) vp_near(k[i], k0[i], 0, "kernel-untouched"); }
static const double SC[6] = {1e-12, 1e-6, 1e-3, 1e3, 1e6, 1e12};
VP_CASES(scales, 12) { double q = SC[vp_k % 6]; bool rev = vp_k < 6; int n = 3; std::vector<double> k, kq, s; boost::circular_buffer<double> b(4), bq(4); for (int i = 0; i < 4; i++) { double v = vp_symi("s", i, -10, 10); b.push_back(v); bq.push_back(v * q); if (i < n) s.push_back(v); } for (int i = 0; i < n; i++) { k.push_back(vp_symi("k", i, -10, 10)); kq.push_back(k[i] * q); } if (!rev) std::swap(s[0], s[2]); double dt = vp_sym("dt", 0.125, 4), e = trap(k, s, dt); vp_near(NaiveConvolution(kq, b, dt, rev) / q, e, T, "scaled-kernel"); vp_near(NaiveConvolution(k, bq, dt, rev) / q, e, T, "scaled-signal"); vp_near(NaiveConvolution(k, b, dt * q, rev) / q, e, T, "scaled-step"); }
VP_CASES(sparse, 16) { int n = 4; std::vector<double> k, s; boost::circular_buffer<double> b(6); for (int i = 0; i < 6; i++) { double v = vp_symi("s", i, -10, 10); b.push_back(v); if (i < n) s.push_back(v); } for (int i = 0; i < n; i++) k.push_back(vp_k >> i & 1 ? vp_symi("k", i, -10, 10) : 0.); double dt = vp_sym("dt", 0.125, 4); vp_near(NaiveConvolution(k, b, dt), trap(k, s, dt), T, "sparse-kernel"); for (int i = 0; i < 2; i++) std::swap(s[i], s[3 - i]); vp_near(NaiveConvolution(k, b, dt, false), trap(k, s, dt), T, "sparse-kernel-reversed"); }
// the buffer is used again after new samples came in
VP_CASES(running, 3) { int n = 2 + vp_k; std::vector<double> k, h; for (int i = 0; i < n; i++) k.push_back(vp_symi("k", i, -10, 10)); boost::circular_buffer<double> b(n + vp_k % 2); double dt = vp_sym("dt", 0.125, 4); for (int t = 0; t < 3 * n; t++) { double v = vp_symi("s", t, -10, 10); if (t % 2) { b.push_front(v); h.insert(h.begin(), v); } else { b.push_back(v); h.push_back(v); } if ((int)h.size() > n + vp_k % 2) { if (t % 2) h.pop_back(); else h.erase(h.begin()); } if ((int)b.size() >= n) { vp_near(NaiveConvolution(k, b, dt), trap(k, h, dt), T, "running"); std::vector<double> r; for (int i = 0; i < n; i++) r.push_back(h[n - 1 - i]); vp_near(NaiveConvolution(k, b, dt, false), trap(k, r, dt), T, "running-reversed"); } } }
VP_CASE(negative_step) { std::vector<double> k{vp_sym("k0", -10, 10), vp_sym("k1", -10, 10)}; boost::circular_buffer<double> b(2); double p = vp_sym("s0", -10, 10), q = vp_sym("s1", -10, 10), dt = vp_sym("dt", -4, 4); b.push_back(p); b.push_back(q); vp_near(NaiveConvolution(k, b, dt), trap(k, {p, q}, dt), T, "any-step"); vp_near(NaiveConvolution(k, b, dt, false), trap(k, {q, p}, dt), T, "any-step-reversed"); }
VP_CASE(float_convolution) { std::vector<float> k{(float)vp_sym("k0", -10, 10), (float)vp_sym("k1", -10, 10), (float)vp_sym("k2", -10, 10)}; boost::circular_buffer<float> b(3); for (int i = 0; i < 3; i++) b.push_back((float)vp_symi("s", i, -10, 10)); vp_near(NaiveConvolution(k, b, 0.5f), 0.25 * ((double)k[0] * b[0] + 2. * k[1] * b[1] + (double)k[2] * b[2]), 1e-3, "float-convolution"); }
VP_CASES(huge, 6) { static const int L[3] = {65, 130, 260}; int n = L[vp_k / 2]; bool rev = vp_k % 2; int more = n % 7; auto k = vp_spotvec("k", n, -10, 10), v = vp_spotvec("s", n + more, -10, 10); std::vector<double> s; boost::circular_buffer<double> b(n + more); for (int i = 0; i < n / 3; i++) b.push_back(7.); for (int i = 0; i < n + more; i++) { b.push_back(v[i]); if (i < n) s.push_back(v[i]); } if (!rev) for (int i = 0; i < n / 2; i++) std::swap(s[i], s[n - 1 - i]); double dt = vp_sym("dt", 0.001, 4); vp_near(NaiveConvolution(k, b, dt, rev), trap(k, s, dt), 1e-6, "huge-kernel"); }
