#pragma once
#include "ps_common.h"
#include "MathUtils/ChebyshevSeries1d.h"
#include "MathUtils/ChebyshevSeries2d.h"
#include "MathUtils/ChebyshevSeries3d.h"
// arbitrary polynomial of the mapped coordinates, given to the library as the function to approximate
static inline double vp_unmap(const Dom& d, double x) { return d.open ? 1 - 2 * d.lo / x : (2 * x - d.lo - d.hi) / (d.hi - d.lo); }
static inline double vp_map(const Dom& d, double u) { return d.open ? 2 * d.lo / (1 - u) : d.lo + (d.hi - d.lo) * (u + 1) / 2; }
static inline double vp_node(int o, int r) { return std::cos(3.14159265358979323846 * (2 * r + 1) / (2. * (o + 1))); }
struct F1 : Function1d<double> { Dom x; std::vector<double> c; double at(double u) const { double s = 0; for (int i = 0; i < (int)c.size(); i++) s += c[i] * vp_T(i, u); return s; } double dat(double u) const { double s = 0; for (int i = 0; i < (int)c.size(); i++) s += c[i] * vp_dT(i, u); return s; } double Evaluate(const double& p) const override { return at(vp_unmap(x, p)); } };
struct F2 : Function2d<double> { Dom x, y; std::vector<std::vector<double>> c; double at(double u, double v, int dx = 0, int dy = 0) const { double s = 0; for (int i = 0; i < (int)c.size(); i++) for (int j = 0; j < (int)c[i].size(); j++) s += c[i][j] * (dx ? vp_dT(i, u) : vp_T(i, u)) * (dy ? vp_dT(j, v) : vp_T(j, v)); return s; } double Evaluate(const double& p, const double& q) const override { return at(vp_unmap(x, p), vp_unmap(y, q)); } };
struct F3 : Function3d<double> { Dom x, y, z; std::vector<std::vector<std::vector<double>>> c; double at(double u, double v, double w, int dx = 0, int dy = 0, int dz = 0) const { double s = 0; for (int i = 0; i < (int)c.size(); i++) for (int j = 0; j < (int)c[i].size(); j++) for (int k = 0; k < (int)c[i][j].size(); k++) s += c[i][j][k] * (dx ? vp_dT(i, u) : vp_T(i, u)) * (dy ? vp_dT(j, v) : vp_T(j, v)) * (dz ? vp_dT(k, w) : vp_T(k, w)); return s; } double Evaluate(const double& p, const double& q, const double& r) const override { return at(vp_unmap(x, p), vp_unmap(y, q), vp_unmap(z, r)); } };
// extra: degrees above the order of the approximation present in the function
struct Q1 { int o; F1 f; std::shared_ptr<ChebyshevSeries1dBase<double>> s; };
static inline void cheb1(Q1& r, bool open, int o, int extra) { r.o = o; r.f.x = vp_dom(open, "xlo", "xw", "xt"); for (int i = 0; i <= o + extra; i++) r.f.c.push_back(vp_symi("c", i, -10, 10)); if (open) r.s = std::make_shared<ChebyshevSeries1dOpened<double>>(&r.f, r.f.x.lo, o); else r.s = std::make_shared<ChebyshevSeries1dClosed<double>>(&r.f, r.f.x.lo, r.f.x.hi, o); r.s->Compute_ai(); }
struct Q2 { int ox, oy; F2 f; std::shared_ptr<ChebyshevSeries2dBase<double>> s; };
static inline void cheb2(Q2& r, int kind, int ox, int oy, int extra) { r.ox = ox; r.oy = oy; Dom x = vp_dom(kind == 1, "xlo", "xw", "xt"), y = vp_dom(kind != 0, "ylo", "yw", "yt"); r.f.x = x; r.f.y = y; r.f.c.resize(ox + extra + 1); for (int i = 0; i <= ox + extra; i++) for (int j = 0; j <= oy + extra; j++) r.f.c[i].push_back(vp_symij("c", i, j, -10, 10));
  if (kind == 0) r.s = std::make_shared<ChebyshevSeries2dClosed<double>>(&r.f, x.lo, x.hi, y.lo, y.hi, ox, oy); else if (kind == 1) r.s = std::make_shared<ChebyshevSeries2dOpened<double>>(&r.f, x.lo, y.lo, ox, oy); else r.s = std::make_shared<ChebyshevSeries2dMixed<double>>(&r.f, x.lo, x.hi, y.lo, ox, oy); r.s->Compute_aij(); }
struct Q3 { int ox, oy, oz; F3 f; std::shared_ptr<ChebyshevSeries3dBase<double>> s; };
static const char* const ZC[24] = {"c0", "c1", "c2", "c3", "c4", "c5", "c6", "c7", "c8", "c9", "c10", "c11", "c12", "c13", "c14", "c15", "c16", "c17", "c18", "c19", "c20", "c21", "c22", "c23"};
static inline void cheb3(Q3& r, int kind, int ox, int oy, int oz, int extra) { r.ox = ox; r.oy = oy; r.oz = oz; Dom x = vp_dom(false, "xlo", "xw", "xt"), y = vp_dom(kind == 1, "ylo", "yw", "yt"), z = vp_dom(kind != 0, "zlo", "zw", "zt"); r.f.x = x; r.f.y = y; r.f.z = z; r.f.c.resize(ox + extra + 1); for (int i = 0; i <= ox + extra; i++) { r.f.c[i].resize(oy + extra + 1); for (int j = 0; j <= oy + extra; j++) for (int k = 0; k <= oz + extra; k++) r.f.c[i][j].push_back(vp_symij(ZC[k], i, j, -10, 10)); }
  if (kind == 0) r.s = std::make_shared<ChebyshevSeries3dClosed<double>>(&r.f, x.lo, x.hi, y.lo, y.hi, z.lo, z.hi, ox, oy, oz); else if (kind == 1) r.s = std::make_shared<ChebyshevSeries3dYZOpenedXClosed<double>>(&r.f, x.lo, x.hi, y.lo, z.lo, ox, oy, oz); else r.s = std::make_shared<ChebyshevSeries3dZOpenedXYClosed<double>>(&r.f, x.lo, x.hi, y.lo, y.hi, z.lo, ox, oy, oz); r.s->Compute_aijk(); }
static const double TC = 1e-5, TD = 1e-4;
