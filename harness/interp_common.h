// symbolic tables shared by the interpolation harnesses
#pragma once
#include <vector>
#include <memory>
#include <complex>
// n strictly increasing abscissae named <p>0, <p>h_i
static inline std::vector<double> vp_axis(const char* p0, const char* ph, int n, double lo = -10, double hi = 10) {
  std::vector<double> v; double x = vp_sym(p0, lo, hi);
  for (int i = 0; i < n; i++) { if (i) x += vp_symi(ph, i, 0.125, 8); v.push_back(x); }
  return v;
}
static inline std::vector<double> vp_vec(const char* p, int n, double lo = -100, double hi = 100) {
  std::vector<double> v; for (int i = 0; i < n; i++) v.push_back(vp_symi(p, i, lo, hi)); return v;
}
static inline std::shared_ptr<std::vector<double>> vp_sh(const std::vector<double>& v) { return std::make_shared<std::vector<double>>(v); }
// a concrete, uneven, strictly increasing axis of n nodes (steps of 1/4 to 9/4), for tables too long to make fully symbolic
static inline std::vector<double> vp_long_axis(int n) { std::vector<double> v; double x = -37.5; for (int i = 0; i < n; i++) { v.push_back(x); x += 0.25 * (1 + (i * 5 + i / 3) % 9); } return v; }
// the ordinates of a long table: concrete away from the segment k, symbolic at its ends
static inline std::vector<double> vp_long_values(int n, int k) { std::vector<double> v; for (int i = 0; i < n; i++) v.push_back(i == k || i == k + 1 ? vp_symi("y", i - k, -100, 100) : (i * 37 % 101) - 50.25); return v; }
// the segments of a long table that are looked at: first, second, around the powers of two, middle, last
static inline std::vector<int> vp_long_segments(int n) { std::vector<int> s; static const int C[14] = {0, 1, 7, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 1000}; for (int c : C) if (c < n - 2) s.push_back(c); s.push_back(n / 2); s.push_back(n - 3); s.push_back(n - 2); return s; }
// two-dimensional long grids: concrete axes and data, the four corners of the looked-at cell symbolic
struct LongGrid { int nx, ny, i, j; std::vector<double> x, y, d;
  LongGrid(int a, int b) : nx(a), ny(b) { x = vp_long_axis(nx); y = vp_long_axis(ny); for (auto& e : y) e = e / 2 + 1; auto sx = vp_long_segments(nx), sy = vp_long_segments(ny); if (nx < 5) { sx.clear(); for (int k = 0; k < nx - 1; k++) sx.push_back(k); } if (ny < 5) { sy.clear(); for (int k = 0; k < ny - 1; k++) sy.push_back(k); }
    int u = (int)vp_pick("where", 0, (long)(sx.size() > sy.size() ? sx.size() : sy.size()) - 1); i = sx[u % sx.size()]; j = sy[(sx.size() == sy.size() ? sy.size() - 1 - u : u) % sy.size()];
    for (int a = 0; a < nx; a++) for (int b = 0; b < ny; b++) d.push_back((a == i || a == i + 1) && (b == j || b == j + 1) ? vp_symij("f", a - i, b - j, -100, 100) : (a * 37 + b * 53) % 101 - 50.25); }
  double X(double s) const { return x[i] + s * (x[i + 1] - x[i]); } double Y(double t) const { return y[j] + t * (y[j + 1] - y[j]); } double at(int a, int b) const { return d[a * ny + b]; }
  double blend(double s, double t) const { return at(i, j) * (1 - s) * (1 - t) + at(i + 1, j) * s * (1 - t) + at(i, j + 1) * (1 - s) * t + at(i + 1, j + 1) * s * t; } };
static const int VP_LONG2[6][2] = {{40, 3}, {3, 40}, {2, 300}, {300, 2}, {35, 37}, {70, 16}};
// a vector of n elements, concrete but for a handful of positions (around the powers of two, the middle and the end)
static inline bool vp_spot(int i, int n) { static const int C[12] = {0, 1, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256}; for (int c : C) if (i == c) return true; return i == n / 2 || i == n - 2 || i == n - 1 || i == 1000; }
static inline std::vector<double> vp_spotvec(const char* p, int n, double lo = -100, double hi = 100) { std::vector<double> v; for (int i = 0; i < n; i++) v.push_back(vp_spot(i, n) ? vp_symi(p, i, lo, hi) : lo + (hi - lo) * ((i * 37 + n) % 101 + 0.5) / 101); return v; }
static const int VP_HUGE[4] = {65, 130, 260, 1100};
