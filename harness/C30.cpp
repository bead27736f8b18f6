// C30: conversion of Chebyshev coefficients to power-series coefficients preserves the approximation
#include "vp.h"
#include "cheb_common.h"
static void one_(int kind, int o) { Q1 r; cheb1(r, kind, o, 0); const Dom& d = r.f.x; Vec b = r.s->Compute_bi(); vp_assert(b.size() == r.o + 1, "size-1d"); double e = r.f.at(d.u); if (d.open) vp_near(PowerSeries1dOpened<double>(b, d.lo).Evaluate(d.x), e, TC, "converted-1d-opened"); else vp_near(PowerSeries1dClosed<double>(b, d.lo, d.hi).Evaluate(d.x), e, TC, "converted-1d-closed"); vp_near(r.s->Evaluate(d.x), e, TC, "series-kept"); }
VP_CASES(one, 2 * N1) { one_(vp_k % 2, vp_k / 2); }
VP_CASES(one_big, 2 * B1) { vp_fixdom = true; one_(vp_k % 2, 6 + vp_k / 2); }
static void two_(int kind, int ox, int oy) {  Q2 r; cheb2(r, kind, ox, oy, 0); const Dom &x = r.f.x, &y = r.f.y; Mat b = r.s->Compute_bij(); vp_assert(b.rows() == r.ox + 1 && b.cols() == r.oy + 1, "size-2d"); double e = r.f.at(x.u, y.u), v = kind == 0 ? PowerSeries2dClosed<double>(b, x.lo, x.hi, y.lo, y.hi).Evaluate(x.x, y.x) : kind == 1 ? PowerSeries2dOpened<double>(b, x.lo, y.lo).Evaluate(x.x, y.x) : PowerSeries2dMixed<double>(b, x.lo, x.hi, y.lo).Evaluate(x.x, y.x); vp_near(v, e, TC, "converted-2d"); }
VP_CASES(two, 3 * N2) { two_(vp_k % 3, O2[vp_k / 3][0], O2[vp_k / 3][1]); }
VP_CASES(two_big, 3 * NB2) { vp_fixdom = true; two_(vp_k % 3, BO2[vp_k / 3][0], BO2[vp_k / 3][1]); }
static void three_(int kind, int ox, int oy, int oz) {  Q3 r; cheb3(r, kind, ox, oy, oz, 0); const Dom &x = r.f.x, &y = r.f.y, &z = r.f.z; std::vector<Mat> b = r.s->Compute_bijk(); vp_assert((int)b.size() == r.oz + 1, "size-3d"); double e = r.f.at(x.u, y.u, z.u), v = kind == 0 ? PowerSeries3dClosed<double>(b, x.lo, x.hi, y.lo, y.hi, z.lo, z.hi).Evaluate(x.x, y.x, z.x) : kind == 1 ? PowerSeries3dYZOpenedXClosed<double>(b, x.lo, x.hi, y.lo, z.lo).Evaluate(x.x, y.x, z.x) : PowerSeries3dZOpenedXYClosed<double>(b, x.lo, x.hi, y.lo, y.hi, z.lo).Evaluate(x.x, y.x, z.x); vp_near(v, e, TC, "converted-3d"); }
VP_CASES(three, 3 * N3) { three_(vp_k % 3, O3[vp_k / 3][0], O3[vp_k / 3][1], O3[vp_k / 3][2]); }
VP_CASES(three_big, 3 * NB3) { vp_fixdom = true; three_(vp_k % 3, BO3[vp_k / 3][0], BO3[vp_k / 3][1], BO3[vp_k / 3][2]); }
// orders above 18 are refused, 18 is accepted; the coefficients are left at zero here, only the guard matters
struct Z1 : Function1d<double> { double Evaluate(const double&) const override { return 0; } };
struct Z2 : Function2d<double> { double Evaluate(const double&, const double&) const override { return 0; } };
struct Z3 : Function3d<double> { double Evaluate(const double&, const double&, const double&) const override { return 0; } };
VP_CASES(refused, 6) { Z1 a; Z2 b; Z3 c; int o = vp_pick("order", 19, 21); vp_exit_begin("refused", VP_ANYEXIT); try { if (vp_k == 0) ChebyshevSeries1dOpened<double>(&a, 1, o).Compute_bi(); else if (vp_k < 3) ChebyshevSeries2dClosed<double>(&b, 0, 1, 0, 1, vp_k == 1 ? o : 1, vp_k == 2 ? o : 1).Compute_bij(); else ChebyshevSeries3dClosed<double>(&c, 0, 1, 0, 1, 0, 1, vp_k == 3 ? o : 1, vp_k == 4 ? o : 1, vp_k == 5 ? o : 1).Compute_bijk(); } catch (...) { std::exit(3); } vp_exit_end(); }
VP_CASES(accepted, 6) { Z1 a; Z2 b; Z3 c; int o = vp_pick("order", 17, 18); if (vp_k == 0) vp_assert(ChebyshevSeries1dOpened<double>(&a, 1, o).Compute_bi().size() == o + 1, "accepted-1d"); else if (vp_k < 3) vp_assert(ChebyshevSeries2dClosed<double>(&b, 0, 1, 0, 1, vp_k == 1 ? o : 1, vp_k == 2 ? o : 1).Compute_bij().size() == 2 * (o + 1), "accepted-2d"); else vp_assert((int)ChebyshevSeries3dClosed<double>(&c, 0, 1, 0, 1, 0, 1, vp_k == 3 ? o : 1, vp_k == 4 ? o : 1, vp_k == 5 ? o : 1).Compute_bijk().size() == (vp_k == 5 ? o + 1 : 2), "accepted-3d"); }
// domains of other magnitudes
VP_CASES(one_dom, 10) { vp_fixdom = true; vp_domk = 1 + vp_k / 2; one_(vp_k % 2, 3); }
VP_CASES(two_dom, 15) { vp_fixdom = true; vp_domk = 1 + vp_k / 3; two_(vp_k % 3, vp_k % 2 ? 2 : 1, vp_k % 2 ? 1 : 2); }
VP_CASES(three_dom, 15) { vp_fixdom = true; vp_domk = 1 + vp_k / 3; three_(vp_k % 3, 1, 2 - vp_k % 2, 1 + vp_k % 2); }
// converting twice, and recomputing in between
VP_CASES(again, 2) { Q1 r; cheb1(r, vp_k, 3, 0); const Dom& d = r.f.x; r.s->Compute_bi(); r.s->Compute_ai(); Vec b = r.s->Compute_bi(); double e = r.f.at(d.u); if (d.open) vp_near(PowerSeries1dOpened<double>(b, d.lo).Evaluate(d.x), e, TC, "again-opened"); else vp_near(PowerSeries1dClosed<double>(b, d.lo, d.hi).Evaluate(d.x), e, TC, "again-closed"); }
