// symbolic one-dimensional domains shared by the series harnesses
#pragma once
#include <vector>
struct Dom { bool open; double lo, hi, x, u, du; };   // interval, point, mapped coordinate, derivative of the mapped coordinate
// closed: [lo, lo+w], point lo + w*t; open: [lo, inf[, point lo*r
static bool vp_fixpt[3];   // x, y, z: in that fixed domain, one fixed point
static bool vp_fixdom = false;   // large orders: one fixed domain, any point of it
static int vp_domk = 0;   // which fixed domain (other magnitudes)
static inline Dom vp_dom(bool open, const char* nlo, const char* nw, const char* nt) {
  Dom d; d.open = open;
  if (vp_fixdom) { static const double L[5][2] = {{-1.25, 4}, {1000, 0.0625}, {-2e4, 1e5}, {1e-6, 2e-6}, {0, 1}}, O[5] = {1.5, 1e-3, 250, 1e5, 1e-6}; int k = vp_domk ? (vp_domk + nt[0] - 'x') % 5 : 0; d.u = vp_fixpt[nt[0] - 'x'] ? 0.375 : vp_sym(nt, -1, open ? 0.875 : 1); if (open) { d.lo = O[k]; d.hi = 0; d.x = 2 * d.lo / (1 - d.u); d.du = (1 - d.u) * (1 - d.u) / (2 * d.lo); } else { double w = L[k][1]; d.lo = L[k][0]; d.hi = d.lo + w; d.x = d.lo + w / 2 * (d.u + 1); d.du = 2 / w; } return d; }
  if (open) { d.lo = vp_sym(nlo, 0.5, 5); d.hi = 0; double r = vp_sym(nt, 1, 20); d.x = d.lo * r; d.u = 1 - 2 / r; d.du = 2 / (d.lo * r * r); }
  else { double w = vp_sym(nw, 0.5, 8); d.lo = vp_sym(nlo, -5, 5); d.hi = d.lo + w; double t = vp_sym(nt, 0, 1); d.x = d.lo + w * t; d.u = 2 * t - 1; d.du = 2 / w; }
  return d;
}
// u^k and its derivative
static inline double vp_pw(double u, int k) { double r = 1; for (int i = 0; i < k; i++) r *= u; return r; }
static inline double vp_dpw(double u, int k) { return k == 0 ? 0 : k * vp_pw(u, k - 1); }
// Chebyshev polynomial of the first kind and its derivative, from the three-term recurrence
static inline double vp_T(int k, double u) { double a = 1, b = u; if (k == 0) return a; for (int i = 1; i < k; i++) { double c = 2 * u * b - a; a = b; b = c; } return b; }
static inline double vp_dT(int k, double u) { double a = 1, b = u, da = 0, db = 1; if (k == 0) return 0; for (int i = 1; i < k; i++) { double c = 2 * u * b - a, dc = 2 * b + 2 * u * db - da; a = b; b = c; da = db; db = dc; } return db; }
