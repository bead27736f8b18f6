// C07: grid interpolator and nearest-grid copies are independent equals
#include "vp.h"
#include <cassert>
#include "MathUtils/RegularGridInterpolator.h"
#include "MathUtils/RegularGridNearest.h"
#include "grid_common.h"
using namespace mathutils;
typedef RegularGridInterpolator<double, 2> F2; typedef RegularGridNearest<double, 2> G2;
template <class F> static void fill(F& f, const SymGrid<2>& g) { for (int d = 0; d < 2; d++) f.AddCoord(g.ax[d]); f.AddVar(g.data); }
static double ask(const F2& f, const std::array<double, 2>& p) { return f.Interp(p); }
static double ask(const G2& f, const std::array<double, 2>& p) { return f.Nearest(p).val(); }
static std::array<double, 2> pnt() { std::array<double, 2> p; p[0] = vp_sym("px", -50, 50); p[1] = vp_sym("py", -50, 50); return p; }
// copy: 0 construct, 1 assign to an empty object, 2 assign to a filled object of another shape, 3 self-assignment
// after: 0 nothing, 1 source reassigned, 2 source destroyed, 3 copy reassigned (source unaffected)
template <class F> static void copies(int how, int after) {
  SymGrid<2> g({2, 3}), o({3, 2}, "o"); std::array<double, 2> p = pnt();
  std::unique_ptr<F> src(new F()); fill(*src, g); double before = ask(*src, p);
  std::unique_ptr<F> other(new F()); fill(*other, o); double obefore = ask(*other, p);
  std::unique_ptr<F> cp;
  if (how == 0) cp.reset(new F(*src)); else if (how == 1) { cp.reset(new F()); *cp = *src; } else if (how == 2) { cp.reset(new F()); fill(*cp, o); *cp = *src; } else { cp.reset(new F(*src)); F& self = *cp; self = *cp; }
  vp_near(ask(*cp, p), before, 0, "copy-value");
  if (after == 1) *src = *other; else if (after == 2) { src.reset(); std::unique_ptr<F> churn(new F()); fill(*churn, o); } else if (after == 3) { *cp = *other; vp_near(ask(*src, p), before, 0, "source-value"); vp_near(ask(*cp, p), obefore, 0, "reassigned-value"); }
  if (after != 3) vp_near(ask(*cp, p), before, 0, "copy-value-later");
  if (after == 1) vp_near(ask(*src, p), obefore, 0, "reassigned-source");
  SymGrid<2>* w = after == 3 ? &o : &g;
  for (int d = 0; d < 2; d++) { auto c = cp->GetCoord(d); vp_assert(c.size() == w->ax[d].size(), "copy-axis-size"); for (size_t i = 0; i < c.size(); i++) vp_near(c[i], w->ax[d][i], 0, "copy-axis"); vp_near(cp->GetCoordMinVal(d), w->ax[d].front(), 0, "copy-limits"); vp_near(cp->GetCoordMaxVal(d), w->ax[d].back(), 0, "copy-limits"); }
  vp_assert(cp->IsValid(), "copy-valid");
}
VP_CASES(interpolator, 16) { copies<F2>(vp_k % 4, vp_k / 4); }
VP_CASES(nearest, 16) { copies<G2>(vp_k % 4, vp_k / 4); }
// index evaluation and bound checking of a copy
VP_CASES(copy_details, 2) {
  SymGrid<2> g({2, 2}); std::unique_ptr<F2> s(new F2()); fill(*s, g); F2 c; if (vp_k) c = *s; F2 e(*s); F2& t = vp_k ? c : e; s.reset();
  std::array<size_t, 2> ix; ix[0] = vp_pick("i", 0, 1); ix[1] = vp_pick("j", 0, 1); vp_near(t.EvalAtIndice(ix), g.at({(int)ix[0], (int)ix[1]}), 0, "copy-index");
  std::array<double, 2> p = pnt(); bool out = p[0] < g.ax[0][0] || p[0] > g.ax[0][1] || p[1] < g.ax[1][0] || p[1] > g.ax[1][1]; bool thrown = false; try { t.Interp(p, true); } catch (const std::exception&) { thrown = true; } vp_assert(thrown == out, "copy-bound-check");
}
// copies of objects that are not completely filled: same state, can be completed independently
template <class F> static void partial(int axes, bool assign) {
  SymGrid<2> g({2, 2}), o({2, 2}, "o"); F s; for (int i = 0; i < axes; i++) s.AddCoord(g.ax[i]);
  F a; if (assign) a = s; F b(s); F& c = assign ? a : b;
  for (int i = axes; i < 2; i++) c.AddCoord(g.ax[i]); c.AddVar(g.data);
  for (int i = axes; i < 2; i++) s.AddCoord(o.ax[i]); s.AddVar(o.data);
  std::array<double, 2> p = pnt(); F ref; fill(ref, g); vp_near(ask(c, p), ask(ref, p), 0, "partial-copy");
  F ref2; for (int i = 0; i < axes; i++) ref2.AddCoord(g.ax[i]); for (int i = axes; i < 2; i++) ref2.AddCoord(o.ax[i]); ref2.AddVar(o.data); vp_near(ask(s, p), ask(ref2, p), 0, "partial-source");
}
VP_CASES(partial_interpolator, 6) { partial<F2>(vp_k / 2, vp_k % 2); }
VP_CASES(partial_nearest, 6) { partial<G2>(vp_k / 2, vp_k % 2); }
VP_CASES(partial_valid, 6) { SymGrid<2> g({2, 2}); F2 s; for (int i = 0; i < vp_k / 2; i++) s.AddCoord(g.ax[i]); F2 a; if (vp_k % 2) a = s; F2 b(s); F2& c = vp_k % 2 ? a : b; vp_assert(!c.IsValid(), "partial-invalid"); vp_assert(!s.IsValid(), "partial-source-invalid"); }
// assigning an unfilled one over a filled one
VP_CASE(overwrite_unfilled) { SymGrid<2> g({2, 2}), o({2, 2}, "o"); F2 s, f; fill(f, o); f = s; vp_assert(!f.IsValid(), "overwritten-invalid"); fill(f, g); std::array<double, 2> p = pnt(); F2 ref; fill(ref, g); vp_near(ask(f, p), ask(ref, p), 0, "overwritten-filled"); }
// other dimensions: a copy answers every query as its source did
template <int N, class F> static void dims(const std::array<int, N>& s, int how) {
  SymGrid<N> g(s); std::unique_ptr<F> src(new F()); for (int d = 0; d < N; d++) src->AddCoord(g.ax[d]); src->AddVar(g.data); std::array<double, N> p; for (int d = 0; d < N; d++) { int c = (int)vp_pick(vp_cellname(d), -1, s[d] - 1); p[d] = vp_coord(d, g.ax[d], c); }
  auto A = [&](const F& f) { if constexpr (std::is_same<F, RegularGridInterpolator<double, N>>::value) return f.Interp(p); else return f.GetData(p); };
  double before = A(*src); F e; std::unique_ptr<F> cp; if (how == 0) cp.reset(new F(*src)); else { cp.reset(new F()); *cp = *src; } src.reset(); F churn; for (int d = 0; d < N; d++) { std::vector<double> ax(s[d]); for (int i = 0; i < s[d]; i++) ax[i] = i; churn.AddCoord(ax); }
  vp_near(A(*cp), before, 0, "dims-copy"); F last(*cp); cp.reset(); vp_near(A(last), before, 0, "dims-copy-of-copy"); vp_assert(last.GetDimension() == N, "dims-dimension");
}
VP_CASES(dims_interp, 4) { if (vp_k < 2) dims<1, RegularGridInterpolator<double, 1>>({3}, vp_k); else dims<3, RegularGridInterpolator<double, 3>>({2, 1, 3}, vp_k % 2); }
VP_CASES(dims_nearest, 4) { if (vp_k < 2) dims<1, RegularGridNearest<double, 1>>({3}, vp_k); else dims<3, RegularGridNearest<double, 3>>({2, 1, 2}, vp_k % 2); }
// chains: a -> b -> c -> a, each with its own data afterwards
template <class F> static void chain(int order) {
  SymGrid<2> g({2, 2}), o({2, 2}, "o"); F a, b, c; fill(a, g); fill(b, o); std::array<double, 2> p = pnt(); double va = ask(a, p), vb = ask(b, p);
  if (order == 0) { c = a; a = b; b = c; vp_near(ask(a, p), vb, 0, "swap-first"); vp_near(ask(b, p), va, 0, "swap-second"); vp_near(ask(c, p), va, 0, "swap-third"); }
  else if (order == 1) { std::swap(a, b); vp_near(ask(a, p), vb, 0, "std-swap-first"); vp_near(ask(b, p), va, 0, "std-swap-second"); }
  else if (order == 2) { std::vector<F> v; for (int i = 0; i < 5; i++) v.push_back(i % 2 ? a : b); for (int i = 0; i < 5; i++) vp_near(ask(v[i], p), i % 2 ? va : vb, 0, "vector-element"); v.erase(v.begin()); vp_near(ask(v[0], p), va, 0, "vector-erased"); vp_near(ask(v[3], p), vb, 0, "vector-erased"); }
  else { F d(std::move(a)); vp_near(ask(d, p), va, 0, "moved-value"); F e; e = std::move(b); vp_near(ask(e, p), vb, 0, "move-assigned-value"); }
}
VP_CASES(chain_interp, 4) { chain<F2>(vp_k); }
VP_CASES(chain_nearest, 4) { chain<G2>(vp_k); }
// new data given to the source or to the copy stays there
template <class F> static void newdata(int how) {
  SymGrid<2> g({2, 2}), o({2, 2}, "o"); F s; fill(s, g); std::array<double, 2> p = pnt(); double before = ask(s, p); F c(s); F d; d = s; if (how == 0) s.AddVar(o.data); else if (how == 1) c.AddVar(o.data); else d.AddVar(o.data);
  F ref; for (int i = 0; i < 2; i++) ref.AddCoord(g.ax[i]); ref.AddVar(o.data); double after = ask(ref, p); vp_near(ask(s, p), how == 0 ? after : before, 0, "newdata-source"); vp_near(ask(c, p), how == 1 ? after : before, 0, "newdata-copy"); vp_near(ask(d, p), how == 2 ? after : before, 0, "newdata-assigned"); }
VP_CASES(newdata_interp, 3) { newdata<F2>(vp_k); }
VP_CASES(newdata_nearest, 3) { newdata<G2>(vp_k); }
// every answer of a copied nearest grid
VP_CASES(nearest_all, 2) { SymGrid<2> g({3, 2}); std::unique_ptr<G2> s(new G2()); fill(*s, g); std::array<double, 2> p = pnt(); auto n0 = s->Nearest(p); double d0 = s->GetData(p); auto v0 = s->GetSurroundingGridNodes(p); G2 e; if (vp_k) e = *s; G2 c(*s); G2& t = vp_k ? e : c; s.reset(); auto n1 = t.Nearest(p); vp_near(t.GetData(p), d0, 0, "copy-data"); auto v1 = t.GetSurroundingGridNodes(p); vp_assert(v1.size() == v0.size(), "copy-corner-count"); vp_near(n1.val(), n0.val(), 0, "copy-nearest"); for (int d = 0; d < 2; d++) { vp_assert(n1.indices()[d] == n0.indices()[d], "copy-nearest-index"); vp_near(n1.coords()[d], n0.coords()[d], 0, "copy-nearest-coordinate"); }
  for (size_t k = 0; k < v1.size() && k < v0.size(); k++) { vp_near(v1[k].val(), v0[k].val(), 0, "copy-corner"); for (int d = 0; d < 2; d++) { vp_assert(v1[k].indices()[d] == v0[k].indices()[d], "copy-corner-index"); vp_near(v1[k].coords()[d], v0[k].coords()[d], 0, "copy-corner-coordinate"); } } }
// assigning between shapes: larger to smaller, smaller to larger, single nodes
VP_CASES(shapes, 16) { static const int S[4][2] = {{1, 1}, {2, 2}, {4, 1}, {1, 5}}; int a = vp_k / 4, b = vp_k % 4; SymGrid<2> g({S[a][0], S[a][1]}), o({S[b][0], S[b][1]}, "o"); F2 f, h; fill(f, g); fill(h, o); G2 u, v; fill(u, g); fill(v, o); std::array<double, 2> p = pnt(); double x = f.Interp(p), y = u.GetData(p); h = f; v = u; vp_near(h.Interp(p), x, 0, "shape-interp"); vp_near(v.GetData(p), y, 0, "shape-nearest"); vp_assert((int)h.GetCoord(0).size() == S[a][0] && (int)h.GetCoord(1).size() == S[a][1], "shape-axes"); vp_assert((int)v.GetCoord(0).size() == S[a][0] && (int)v.GetCoord(1).size() == S[a][1], "shape-axes"); }
