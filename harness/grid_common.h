#pragma once
#include "interp_common.h"
#include <array>
// a grid of N dimensions with s[d] nodes along dimension d
template <int N> struct SymGrid { std::array<int, N> s; std::array<std::vector<double>, N> ax; boost::multi_array<double, N> data;
  SymGrid(const std::array<int, N>& sizes, const char* tag = "", double lo = -100, double hi = 100) : s(sizes) {
    static const char* A[4] = {"ax0", "bx0", "cx0", "dx0"}; static const char* H[4] = {"ah", "bh", "ch", "dh"}; static const char* OA[4] = {"oax0", "obx0", "ocx0", "odx0"}; static const char* OH[4] = {"oah", "obh", "och", "odh"};
    bool o = tag[0] != 0; size_t n = 1; std::vector<size_t> ex;
    for (int d = 0; d < N; d++) { ax[d] = vp_axis(o ? OA[d] : A[d], o ? OH[d] : H[d], s[d], o ? 60 : -10, o ? 80 : 10); n *= s[d]; ex.push_back(s[d]); }
    data.resize(ex); for (size_t i = 0; i < n; i++) data.data()[i] = vp_symi(o ? "of" : "f", (int)i, lo, hi); }
  double at(const std::array<int, N>& ix) const { size_t k = 0; for (int d = 0; d < N; d++) k = k * s[d] + ix[d]; return data.data()[k]; } };
// where a coordinate lies: cell -1 below, 0..n-2 inside [node k, node k+1], n-1 above or at the last node
static inline double vp_coord(int d, const std::vector<double>& ax, int cell) {
  double x = vp_symi("p", d, -2000, 2000); int n = ax.size();
  if (cell < 0) vp_assume(x < ax[0]); else if (cell >= n - 1) vp_assume(x >= ax[n - 1]); else { vp_assume(ax[cell] <= x); vp_assume(x < ax[cell + 1]); }
  return x;
}
static inline const char* vp_cellname(int d) { return d == 0 ? "cell0" : d == 1 ? "cell1" : d == 2 ? "cell2" : "cell3"; }
