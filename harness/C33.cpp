// C33: FFT is the discrete Fourier transform with a matching inverse
#include "vp.h"
#include "MathUtils/MathUtils.h"
#include <vector>
#include <complex>
using namespace mathutils; typedef std::complex<double> C;
static const int N[] = {2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 11, 13, 14, 15, 16, 20, 24
#if VP_TIER > 1
 , 17, 18, 21, 25, 30, 32, 40
#endif
}; static const int K = sizeof N / sizeof *N; static const double T = 1e-6;
static std::vector<double> sig(int n) { std::vector<double> v; for (int i = 0; i < n; i++) v.push_back(vp_symi("s", i, -10, 10)); return v; }
static void dft(const std::vector<double>& s, int k, double& re, double& im) { re = im = 0; int n = s.size(); for (int i = 0; i < n; i++) { double a = 2 * 3.14159265358979323846 * ((long)i * k % n) / n; re += s[i] * std::cos(a); im -= s[i] * std::sin(a); } }
static double unit(double f, int u) { const double t = 2 * 3.14159265358979323846; return u == 0 ? f : u == 1 ? f * t : u == 2 ? f * 360 : u == 3 ? f * 60 : f * 21600; }
static const FREQUENCY_UNIT U[] = {HERTZ, RADS, DEGS, RPM, DEGM};
static void run(int n, bool half, bool unscaled) {
  auto s = sig(n); const auto s0 = s; FFT<double> f; if (half) f.HalfSpectrumON(); if (unscaled) f.ScalingOFF(); std::vector<C> o; f.fft(o, s); int m = half ? n / 2 + 1 : n; vp_assert((int)o.size() == m, "bins");
  for (int k = 0; k < m; k++) { double a, b; dft(s0, k, a, b); vp_near(o[k].real(), a, T, "dft-real"); vp_near(o[k].imag(), b, T, "dft-imag"); }
  for (int i = 0; i < n; i++) vp_near(s[i], s0[i], 0, "signal-kept");
  if (half && n % 2) return; // the length of an odd signal is not recoverable from half of its spectrum
  std::vector<double> r; f.ifft(r, o); vp_assert((int)r.size() == n, "inverse-size"); for (int i = 0; i < n; i++) vp_near(r[i], unscaled ? n * s0[i] : s0[i], T, "inverse"); }
VP_CASES(full, K) { run(N[vp_k], false, false); }
VP_CASES(half, K) { run(N[vp_k], true, false); }
VP_CASES(unscaled, K) { run(N[vp_k], vp_k % 2, true); }
// inverse of an arbitrary (hermitian) spectrum of a real signal, and linearity, follow from the above; switching modes back and forth does not matter
VP_CASES(modes, K) { int n = N[vp_k]; auto s = sig(n); FFT<double> f; f.HalfSpectrumON(); f.ScalingOFF(); std::vector<C> o; f.fft(o, s); f.ScalingON(); f.HalfSpectrumOFF(); f.fft(o, s); vp_assert((int)o.size() == n, "mode-bins"); for (int k = 0; k < n; k++) { double a, b; dft(s, k, a, b); vp_near(o[k].real(), a, T, "mode-real"); vp_near(o[k].imag(), b, T, "mode-imag"); } std::vector<double> r; f.ifft(r, o); vp_assert((int)r.size() == n, "mode-size"); for (int i = 0; i < n; i++) vp_near(r[i], s[i], T, "mode-inverse"); }
VP_CASES(frequencies, 5 * K) { int n = N[vp_k / 5], u = vp_k % 5; double fs = vp_sym("fs", 0.001, 100); FFT<double> f; for (int h = 0; h < 2; h++) { if (h) f.HalfSpectrumON(); std::vector<double> q = f.GetFrequencyVector(n, fs, U[u]), q2; std::vector<C> o; auto s = sig(n); f.fft(o, q2, s, fs, U[u]); int m = h ? n / 2 + 1 : n; vp_assert((int)q.size() == m && (int)q2.size() == m && (int)o.size() == m, "frequency-count"); for (int k = 0; k < m; k++) { vp_near(q[k], unit(k * fs / n, u), T, "frequency"); vp_near(q2[k], unit(k * fs / n, u), T, "frequency-with-fft"); double a, b; dft(s, k, a, b); vp_near(o[k].real(), a, T, "fft-freq-real"); vp_near(o[k].imag(), b, T, "fft-freq-imag"); } } }
VP_CASES(defaultunit, 3) { int n = N[vp_k]; double fs = vp_sym("fs", 0.001, 100); FFT<double> f; auto q = f.GetFrequencyVector(n, fs); for (int k = 0; k < n; k++) vp_near(q[k], k * fs / n, T, "frequency-hertz"); }
// every sequence of mode switches: only the last setting of each mode counts
VP_CASES(switches, 4) { static const int L[] = {4, 5, 6, 3}; int n = L[vp_k]; auto s = sig(n); FFT<double> f; bool half = false, uns = false; static const char* nm[4] = {"m0", "m1", "m2", "m3"}; std::vector<C> o; std::vector<double> r;
  for (int i = 0; i < (VP_THOROUGH ? 4 : 3); i++) { int m = (int)vp_pick(nm[i], 0, 4); if (m == 0) { f.HalfSpectrumON(); half = true; } else if (m == 1) { f.HalfSpectrumOFF(); half = false; } else if (m == 2) { f.ScalingON(); uns = false; } else if (m == 3) { f.ScalingOFF(); uns = true; } else { f.fft(o, s); if (!half || n % 2 == 0) f.ifft(r, o); } }
  f.fft(o, s); int m = half ? n / 2 + 1 : n; vp_assert((int)o.size() == m, "switch-bins"); for (int k = 0; k < m; k++) { double a, b; dft(s, k, a, b); vp_near(o[k].real(), a, T, "switch-real"); vp_near(o[k].imag(), b, T, "switch-imag"); }
  vp_assert((int)f.GetFrequencyVector(n, 1.0).size() == m, "switch-frequencies"); if (half && n % 2) return; f.ifft(r, o); vp_assert((int)r.size() == n, "switch-size"); for (int i = 0; i < n; i++) vp_near(r[i], uns ? n * s[i] : s[i], T, "switch-inverse"); }
// the same object and the same output vectors for signals of different lengths
VP_CASES(reuse, 6) { static const int L[][3] = {{8, 3, 8}, {4, 6, 4}, {5, 5, 10}, {2, 9, 5}, {12, 4, 7}, {3, 8, 6}}; FFT<double> f; std::vector<C> o; std::vector<double> r, q; static const char* nm[3] = {"a", "b", "c"}; for (int t = 0; t < 3; t++) { int n = L[vp_k][t]; std::vector<double> s; for (int i = 0; i < n; i++) s.push_back(vp_symi(nm[t], i, -10, 10)); f.fft(o, q, s, 2.0 * n); vp_assert((int)o.size() == n && (int)q.size() == n, "reuse-bins"); for (int k = 0; k < n; k++) { double a, b; dft(s, k, a, b); vp_near(o[k].real(), a, T, "reuse-real"); vp_near(o[k].imag(), b, T, "reuse-imag"); vp_near(q[k], 2.0 * k, T, "reuse-frequency"); } f.ifft(r, o); vp_assert((int)r.size() == n, "reuse-size"); for (int i = 0; i < n; i++) vp_near(r[i], s[i], T, "reuse-inverse"); } }
// very small and very large signals, one sample
VP_CASES(scales, 8) { static const double S[] = {1e-12, 1e-6, 1e6, 1e12}; double c = S[vp_k % 4]; int n = vp_k / 4 ? 6 : 5; auto u = sig(n), s = u; for (auto& e : s) e *= c; FFT<double> f; std::vector<C> o; std::vector<double> r; f.fft(o, s); vp_assert((int)o.size() == n, "scaled-bins"); for (int k = 0; k < n; k++) { double a, b; dft(u, k, a, b); vp_near(o[k].real() / c, a, T, "scaled-real"); vp_near(o[k].imag() / c, b, T, "scaled-imag"); } f.ifft(r, o); vp_assert((int)r.size() == n, "scaled-size"); for (int i = 0; i < n; i++) vp_near(r[i] / c, u[i], T, "scaled-inverse"); }
VP_CASES(frequency_scales, 20) { static const double S[] = {1e-9, 1e-5, 1e4, 1e8}; double c = S[vp_k % 4]; int u = vp_k / 4, n = 9; double fs = vp_sym("fs", 0.1, 10); FFT<double> f; auto q = f.GetFrequencyVector(n, c * fs, U[u]); vp_assert((int)q.size() == n, "frequency-scale-count"); for (int k = 0; k < n; k++) vp_near(q[k] / c, unit(k * fs / n, u), T * 100, "frequency-scale"); }
// long signals: concrete but for a few samples; a few bins and the inverse
VP_CASES(huge, 10) { static const int L[5] = {32, 33, 64, 100, 130}; int n = L[vp_k / 2]; bool half = vp_k % 2; std::vector<double> s; for (int i = 0; i < n; i++) s.push_back(i == 1 || i == n / 2 || i == n - 1 ? vp_symi("s", i, -10, 10) : (i * 37 % 23) - 11.5); FFT<double> f; if (half) f.HalfSpectrumON(); std::vector<C> o; std::vector<double> q; f.fft(o, q, s, 2.0 * n); int m = half ? n / 2 + 1 : n; vp_assert((int)o.size() == m && (int)q.size() == m, "huge-bins"); for (int k = 0; k < m; k++) { vp_near(q[k], 2.0 * k, T, "huge-frequency"); if (k % 7 == 1 || k < 2 || k > m - 3 || k == n / 2) { double a, b; dft(s, k, a, b); vp_near(o[k].real(), a, 1e-6, "huge-real"); vp_near(o[k].imag(), b, 1e-6, "huge-imag"); } }
  if (half && n % 2) return; std::vector<double> r; f.ifft(r, o); vp_assert((int)r.size() == n, "huge-size"); for (int i = 0; i < n; i++) vp_near(r[i], s[i], 1e-6, "huge-inverse"); }
VP_CASES(huge_frequencies, 5) { FFT<double> f; double fs = vp_sym("fs", 0.001, 100); for (int n : {256, 1025, 4096}) for (int h = 0; h < 2; h++) { if (h) f.HalfSpectrumON(); else f.HalfSpectrumOFF(); auto q = f.GetFrequencyVector(n, fs, U[vp_k]); int m = h ? n / 2 + 1 : n; vp_assert((int)q.size() == m, "huge-frequency-count"); for (int k = 0; k < m; k++) if (k % 97 == 5 || k > m - 4 || k == n / 2) vp_near(q[k], unit(k * fs / n, vp_k), T, "huge-frequency-value"); } }
