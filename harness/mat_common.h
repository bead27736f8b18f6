#pragma once
#include "vp.h"
#include "MathUtils/MathUtils.h"
using namespace mathutils;
using MN = MatrixMN<double>; using M3 = Matrix33<double>; using M6 = Matrix66<double>;
template <class M> struct Mk; 
template <> struct Mk<MN> { static MN make(int r, int c) { return MN(r, c); } };
template <> struct Mk<M3> { static M3 make(int, int) { return M3(); } };
template <> struct Mk<M6> { static M6 make(int, int) { return M6(); } };
template <class M> static M symm(const char* n, int r, int c, double lo = -10, double hi = 10) { M m = Mk<M>::make(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = vp_symij(n, i, j, lo, hi); return m; }
template <class M> static M con(const double* a, int r, int c) { M m = Mk<M>::make(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = a[i * c + j]; return m; }
