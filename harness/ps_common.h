#pragma once
#include "MathUtils/MathUtils.h"
#include "series_common.h"
#include <memory>
using namespace mathutils;
typedef MatrixMN<double> Mat; typedef VectorN<double> Vec;
// 1D
struct S1 { int o; Dom x; Vec b; std::shared_ptr<PowerSeries1dBase<double>> s; };
static inline S1 mk1(bool open, int o) { S1 r; r.o = o; r.x = vp_dom(open, "xlo", "xw", "xt"); r.b = Vec(o + 1); for (int i = 0; i <= o; i++) r.b(i) = vp_symi("b", i, -10, 10); if (open) r.s = std::make_shared<PowerSeries1dOpened<double>>(r.b, r.x.lo); else r.s = std::make_shared<PowerSeries1dClosed<double>>(r.b, r.x.lo, r.x.hi); return r; }
// 2D: kind 0 closed, 1 opened, 2 mixed
struct S2 { int ox, oy; Dom x, y; Mat b; std::shared_ptr<PowerSeries2dBase<double>> s; };
static inline S2 mk2(int kind, int ox, int oy) { S2 r; r.ox = ox; r.oy = oy; r.x = vp_dom(kind == 1, "xlo", "xw", "xt"); r.y = vp_dom(kind != 0, "ylo", "yw", "yt"); r.b = Mat(ox + 1, oy + 1); for (int i = 0; i <= ox; i++) for (int j = 0; j <= oy; j++) r.b(i, j) = vp_symij("b", i, j, -10, 10);
  if (kind == 0) r.s = std::make_shared<PowerSeries2dClosed<double>>(r.b, r.x.lo, r.x.hi, r.y.lo, r.y.hi); else if (kind == 1) r.s = std::make_shared<PowerSeries2dOpened<double>>(r.b, r.x.lo, r.y.lo); else r.s = std::make_shared<PowerSeries2dMixed<double>>(r.b, r.x.lo, r.x.hi, r.y.lo); return r; }
// 3D: kind 0 closed, 1 y and z open, 2 z open
struct S3 { int kind, ox, oy, oz; Dom x, y, z; std::vector<Mat> b; std::shared_ptr<PowerSeries3dBase<double>> s;
  double v(double uz, int dx, int dy, int dz) const { double r = 0; for (int i = 0; i <= ox; i++) for (int j = 0; j <= oy; j++) for (int k = 0; k <= oz; k++) r += b[k](i, j) * (dx ? vp_dpw(x.u, i) : vp_pw(x.u, i)) * (dy ? vp_dpw(y.u, j) : vp_pw(y.u, j)) * (dz ? vp_dpw(uz, k) : vp_pw(uz, k)); return r * (dx ? x.du : 1) * (dy ? y.du : 1) * (dz ? z.du : 1); } };
static const char* const ZB[20] = {"b0", "b1", "b2", "b3", "b4", "b5", "b6", "b7", "b8", "b9", "b10", "b11", "b12", "b13", "b14", "b15", "b16", "b17", "b18", "b19"};
static inline S3 mk3(int kind, int ox, int oy, int oz) { S3 r; r.kind = kind; r.ox = ox; r.oy = oy; r.oz = oz; r.x = vp_dom(false, "xlo", "xw", "xt"); r.y = vp_dom(kind == 1, "ylo", "yw", "yt"); r.z = vp_dom(kind != 0, "zlo", "zw", "zt");
  for (int k = 0; k <= oz; k++) { Mat m(ox + 1, oy + 1); for (int i = 0; i <= ox; i++) for (int j = 0; j <= oy; j++) m(i, j) = vp_symij(ZB[k], i, j, -10, 10); r.b.push_back(m); }
  if (kind == 0) r.s = std::make_shared<PowerSeries3dClosed<double>>(r.b, r.x.lo, r.x.hi, r.y.lo, r.y.hi, r.z.lo, r.z.hi); else if (kind == 1) r.s = std::make_shared<PowerSeries3dYZOpenedXClosed<double>>(r.b, r.x.lo, r.x.hi, r.y.lo, r.z.lo); else r.s = std::make_shared<PowerSeries3dZOpenedXYClosed<double>>(r.b, r.x.lo, r.x.hi, r.y.lo, r.y.hi, r.z.lo); return r; }
static const int O2[][2] = {{0, 0}, {1, 2}, {2, 1}, {3, 0}, {0, 3}, {2, 2}
#if VP_TIER > 1
 , {3, 2}, {2, 3}, {4, 1}, {3, 3}
#endif
};
static const int O3[][3] = {{0, 0, 0}, {1, 2, 0}, {2, 0, 1}, {0, 1, 2}, {1, 1, 1}, {2, 1, 1}
#if VP_TIER > 1
 , {1, 2, 3}, {3, 2, 1}, {2, 2, 2}, {1, 3, 1}
#endif
};
static const int N1 = VP_TIER > 1 ? 9 : 6, N2 = sizeof O2 / sizeof *O2, N3 = sizeof O3 / sizeof *O3;
// large orders
static const int B1 = 13, BO2[][2] = {{18, 1}, {1, 18}, {9, 4}, {4, 9}, {7, 7}, {12, 2}, {2, 13}}, BO3[][3] = {{18, 0, 1}, {0, 18, 1}, {1, 0, 18}, {5, 2, 2}, {2, 5, 2}, {2, 2, 5}, {3, 4, 2}, {9, 1, 0}, {0, 9, 1}, {1, 0, 9}, {1, 10, 0}};
static const int NB2 = sizeof BO2 / sizeof *BO2, NB3 = sizeof BO3 / sizeof *BO3;
static const double T = 1e-6;
