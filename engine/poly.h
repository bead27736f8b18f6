// Exact real expressions: rational functions (sparse multivariate polynomials with GMP rational coefficients over
// "atoms"), hash-consed, kept modulo rewrite rules  v^2 -> polynomial  (square roots, cos^2 = 1 - sin^2).
#pragma once
#include <unordered_set>
#include <gmpxx.h>
#include <cstdint>
#include <vector>
#include <string>
#include <map>
#include <unordered_map>
#include <memory>
#include <algorithm>
#include <stdexcept>
#include <cmath>

struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };

typedef uint32_t MonoId;
struct Mono { std::vector<std::pair<int,int>> v; };   // (var, exp), sorted by var
struct VecHash { size_t operator()(const std::vector<std::pair<int,int>>& v) const {
  size_t h = 1469598103934665603ull; for (auto& p : v) { h = (h ^ p.first) * 1099511628211ull; h = (h ^ p.second) * 1099511628211ull; } return h; } };
struct PairHash { size_t operator()(const std::pair<uint64_t,uint64_t>& p) const { return p.first * 0x9E3779B97F4A7C15ull ^ (p.second + 0x7F4A7C15) * 0xC2B2AE3D27D4EB4Full; } };

struct Poly;
struct RF;
struct Atom {
  enum Kind { Input, Sqrt, Cos, Sin, Exp, Log, Angle, UF, Aux } kind;
  std::string name;              // smt name
  bool hasLo=false, hasHi=false; mpq_class lo, hi;
  const Poly* sq=nullptr;        // rewrite rule v^2 -> sq
  const Poly* radicand=nullptr;  // Sqrt
  const RF* arg=nullptr;         // Cos/Sin: base angle; Exp/Log: argument
  std::vector<const RF*> args;   // UF args; Angle: {y,x} (atan2) ; asin: {s,c}
  std::string uf;
  int mate=-1;                   // Cos <-> Sin
};

struct PolySys {
  std::vector<Atom> atoms;
  std::vector<Mono> monos;
  std::unordered_map<std::vector<std::pair<int,int>>, MonoId, VecHash> monoIx;
  std::unordered_map<std::pair<uint64_t,uint64_t>, MonoId, PairHash> monoMul;
  std::vector<char> monoNeedsRed;
  PolySys() { mono({}); }
  MonoId mono(const std::vector<std::pair<int,int>>& v) {
    auto it = monoIx.find(v); if (it != monoIx.end()) return it->second;
    MonoId id = monos.size(); monos.push_back({v}); monoIx[v] = id;
    char r = 0; for (auto& p : v) if (atoms[p.first].sq && p.second >= 2) r = 1;
    monoNeedsRed.push_back(r);
    return id;
  }
  MonoId mul(MonoId a, MonoId b) {
    if (!a) return b; if (!b) return a; if (a > b) std::swap(a,b);
    auto k = std::make_pair((uint64_t)a,(uint64_t)b); auto it = monoMul.find(k); if (it != monoMul.end()) return it->second;
    std::vector<std::pair<int,int>> r; auto& x = monos[a].v; auto& y = monos[b].v; size_t i=0,j=0;
    while (i<x.size()||j<y.size()) {
      if (j==y.size() || (i<x.size() && x[i].first<y[j].first)) r.push_back(x[i++]);
      else if (i==x.size() || y[j].first<x[i].first) r.push_back(y[j++]);
      else { r.push_back({x[i].first, x[i].second+y[j].second}); i++; j++; }
    }
    MonoId id = mono(r); monoMul[k] = id; return id;
  }
  // a / b if divisible
  bool div(MonoId a, MonoId b, MonoId& out) {
    if (!b) { out=a; return true; }
    std::vector<std::pair<int,int>> r; auto& x = monos[a].v; auto& y = monos[b].v; size_t i=0;
    for (auto& p : y) {
      while (i<x.size() && x[i].first<p.first) r.push_back(x[i++]);
      if (i==x.size() || x[i].first!=p.first || x[i].second<p.second) return false;
      if (x[i].second>p.second) r.push_back({x[i].first,x[i].second-p.second});
      i++;
    }
    while (i<x.size()) r.push_back(x[i++]);
    out = mono(r); return true;
  }
  // graded-lex comparison for leading terms (true: a is larger)
  bool greater(MonoId a, MonoId b) const {
    if (a==b) return false;
    auto& x = monos[a].v; auto& y = monos[b].v; int dx=0,dy=0; for (auto&p:x) dx+=p.second; for (auto&p:y) dy+=p.second;
    if (dx!=dy) return dx>dy;
    size_t i=0; for (;; i++) {
      if (i==x.size()) return false; if (i==y.size()) return true;
      if (x[i].first!=y[i].first) return x[i].first<y[i].first;
      if (x[i].second!=y[i].second) return x[i].second>y[i].second;
    }
  }
};
extern PolySys PS;

struct Poly {
  std::vector<std::pair<MonoId, mpq_class>> t;   // sorted by MonoId, no zero coefficients
  uint64_t id = 0;
  bool isZero() const { return t.empty(); }
  bool isConst() const { return t.empty() || (t.size()==1 && t[0].first==0); }
  mpq_class cst() const { return t.empty() ? mpq_class(0) : (t[0].first==0 ? t[0].second : mpq_class(0)); }
};

inline size_t hashQ(const mpq_class& q) { size_t h = mpz_get_ui(q.get_num_mpz_t()) * 31 + mpz_get_ui(q.get_den_mpz_t()); h = h*7 + mpz_sizeinbase(q.get_num_mpz_t(),2) + (sgn(q)<0); return h; }
struct PolyTable {
  std::unordered_multimap<size_t, const Poly*> ix; std::vector<std::unique_ptr<Poly>> all;
  const Poly* intern(std::vector<std::pair<MonoId, mpq_class>>&& t) {
    size_t h = 17; for (auto& p : t) h = h*1000003 + p.first*7919 + hashQ(p.second);
    auto r = ix.equal_range(h);
    for (auto it=r.first; it!=r.second; ++it) { auto& o = it->second->t; if (o.size()!=t.size()) continue; bool eq=true;
      for (size_t i=0;i<o.size()&&eq;i++) eq = o[i].first==t[i].first && o[i].second==t[i].second; if (eq) return it->second; }
    auto p = std::make_unique<Poly>(); p->t = std::move(t); p->id = all.size()+1; const Poly* q = p.get(); all.push_back(std::move(p)); ix.emplace(h,q); return q;
  }
};
extern PolyTable PT;
typedef const Poly* P;
extern size_t VP_TERM_LIMIT;

inline P pConst(const mpq_class& c) { std::vector<std::pair<MonoId,mpq_class>> t; if (sgn(c)) t.push_back({0,c}); return PT.intern(std::move(t)); }
inline P pVar(int v) { std::vector<std::pair<MonoId,mpq_class>> t; t.push_back({PS.mono({{v,1}}),1}); return PT.intern(std::move(t)); }
inline P pAddScaled(P a, P b, const mpq_class& s) {
  std::vector<std::pair<MonoId,mpq_class>> r; r.reserve(a->t.size()+b->t.size()); size_t i=0,j=0;
  while (i<a->t.size()||j<b->t.size()) {
    if (j==b->t.size() || (i<a->t.size() && a->t[i].first<b->t[j].first)) { r.push_back(a->t[i++]); }
    else if (i==a->t.size() || b->t[j].first<a->t[i].first) { r.push_back({b->t[j].first, b->t[j].second*s}); j++; }
    else { mpq_class c = a->t[i].second + b->t[j].second*s; if (sgn(c)) r.push_back({a->t[i].first,c}); i++; j++; }
  }
  return PT.intern(std::move(r));
}
inline P pAdd(P a, P b) { return pAddScaled(a,b,1); }
inline P pSub(P a, P b) { return pAddScaled(a,b,-1); }
inline P pScale(P a, const mpq_class& s) { if (sgn(s)==0) return pConst(0); auto t = a->t; for (auto& p : t) p.second *= s; return PT.intern(std::move(t)); }
P pMul(P a, P b);
inline P pReduceAcc(std::unordered_map<MonoId,mpq_class>& acc) {
  // apply rewrite rules until no monomial needs it
  for (;;) {
    std::vector<std::pair<MonoId,mpq_class>> bad;
    for (auto it = acc.begin(); it != acc.end();) { if (sgn(it->second)==0) { it = acc.erase(it); continue; } if (PS.monoNeedsRed[it->first]) { bad.push_back(*it); it = acc.erase(it); } else ++it; }
    if (bad.empty()) break;
    for (auto& b : bad) {
      auto v = PS.monos[b.first].v; P rule=nullptr; int e=0;
      for (auto& p : v) if (PS.atoms[p.first].sq && p.second>=2) { rule = PS.atoms[p.first].sq; e = p.second/2; p.second -= 2*e; break; }
      std::vector<std::pair<int,int>> rest; for (auto& p : v) if (p.second) rest.push_back(p);
      MonoId m = PS.mono(rest); P pw = rule; for (int k=1;k<e;k++) pw = pMul(pw, rule);
      for (auto& q : pw->t) { auto& c = acc[PS.mul(m,q.first)]; c += b.second*q.second; }
    }
    if (acc.size() > VP_TERM_LIMIT) throw Unsupported("expression too large");
  }
  std::vector<std::pair<MonoId,mpq_class>> r(acc.begin(), acc.end()); std::sort(r.begin(), r.end(), [](auto&x,auto&y){return x.first<y.first;});
  return PT.intern(std::move(r));
}
extern std::unordered_map<std::pair<uint64_t,uint64_t>, P, PairHash> pMulCache;
inline P pMul(P a, P b) {
  if (a->isZero()||b->isZero()) return pConst(0);
  if (a->isConst()) return pScale(b,a->cst()); if (b->isConst()) return pScale(a,b->cst());
  if (a->id>b->id) std::swap(a,b);
  auto k = std::make_pair(a->id,b->id); auto it = pMulCache.find(k); if (it!=pMulCache.end()) return it->second;
  if (a->t.size()*b->t.size() > 4000000) throw Unsupported("expression too large");
  std::unordered_map<MonoId,mpq_class> acc; acc.reserve(a->t.size()*b->t.size());
  for (auto& x : a->t) for (auto& y : b->t) { auto& c = acc[PS.mul(x.first,y.first)]; c += x.second*y.second; }
  if (acc.size() > VP_TERM_LIMIT) throw Unsupported("expression too large");
  P r = pReduceAcc(acc); pMulCache[k]=r; return r;
}
inline MonoId pLead(P a) { MonoId m=a->t[0].first; for (auto& p : a->t) if (PS.greater(p.first,m)) m=p.first; return m; }
inline const mpq_class& pCoef(P a, MonoId m) { for (auto& p : a->t) if (p.first==m) return p.second; static mpq_class z(0); return z; }
// exact polynomial division a/b ; returns nullptr if not divisible (no use of rewrite rules)
extern std::unordered_map<std::pair<uint64_t,uint64_t>, P, PairHash> pDivCache;
inline P pDivExact(P a, P b) {
  if (a->isZero()) return a; if (b->isConst()) return pScale(a, 1/b->cst());
  if (a==b) return pConst(1);
  auto k = std::make_pair(a->id,b->id); auto it=pDivCache.find(k); if (it!=pDivCache.end()) return it->second;
  auto fail = [&]()->P { pDivCache[k]=nullptr; return nullptr; };
  MonoId lb = pLead(b); mpq_class cb = pCoef(b,lb);
  // quick necessary test: every variable of b appears in a
  { std::map<int,int> va; for (auto& p:a->t) for (auto& q:PS.monos[p.first].v) va[q.first]=std::max(va[q.first],q.second);
    for (auto& p:b->t) for (auto& q:PS.monos[p.first].v) { auto f=va.find(q.first); if (f==va.end()||f->second<q.second) return fail(); } }
  auto cmp = [](MonoId x, MonoId y){ return PS.greater(x,y); };
  std::map<MonoId,mpq_class,decltype(cmp)> rem(cmp); for (auto& p : a->t) rem[p.first]=p.second;
  std::vector<std::pair<MonoId,mpq_class>> q; size_t steps=0;
  while (!rem.empty()) {
    if (++steps > 20000) return fail();
    MonoId m=rem.begin()->first; mpq_class c=rem.begin()->second; MonoId d; if (!PS.div(m,lb,d)) return fail();
    mpq_class f=c/cb; q.push_back({d,f});
    for (auto& p : b->t) { MonoId mm=PS.mul(d,p.first); auto it2=rem.find(mm); if (it2==rem.end()) rem[mm]=-f*p.second; else { it2->second-=f*p.second; if (sgn(it2->second)==0) rem.erase(it2); } }
  }
  std::sort(q.begin(),q.end(),[](auto&x,auto&y){return x.first<y.first;});
  for (auto& p : q) if (PS.monoNeedsRed[p.first]) return fail();
  P r=PT.intern(std::move(q)); pDivCache[k]=r; return r;
}
inline bool qSqrt(const mpq_class& q, mpq_class& r) {
  if (sgn(q)<0) return false; mpz_class n=q.get_num(), d=q.get_den();
  if (!mpz_perfect_square_p(n.get_mpz_t())||!mpz_perfect_square_p(d.get_mpz_t())) return false;
  mpz_class a,b; mpz_sqrt(a.get_mpz_t(),n.get_mpz_t()); mpz_sqrt(b.get_mpz_t(),d.get_mpz_t()); r=mpq_class(a,b); return true;
}
// polynomial square root (exact) or nullptr
inline P pSqrt(P a) {
  if (a->isZero()) return a;
  MonoId l=pLead(a); mpq_class c; if (!qSqrt(pCoef(a,l),c)) return nullptr;
  std::vector<std::pair<int,int>> h; for (auto& p : PS.monos[l].v) { if (p.second%2) return nullptr; h.push_back({p.first,p.second/2}); }
  P s; { std::vector<std::pair<MonoId,mpq_class>> t; t.push_back({PS.mono(h),c}); s=PT.intern(std::move(t)); }
  MonoId ls=PS.mono(h);
  for (int k=0;k<200;k++) {
    P rem=pSub(a,pMul(s,s)); if (rem->isZero()) return s;
    MonoId lr=pLead(rem),d; if (!PS.div(lr,ls,d)) return nullptr;
    if (!PS.greater(ls,d)) return nullptr;
    mpq_class cc=pCoef(rem,lr)/(2*c); std::vector<std::pair<MonoId,mpq_class>> t; t.push_back({d,cc}); s=pAdd(s,PT.intern(std::move(t)));
  }
  return nullptr;
}

// ---- intervals -------------------------------------------------------------------------------------------------
struct Iv { bool lo=false, hi=false; mpq_class l, h; };   // lo/hi: bound present
inline Iv ivMul(const Iv& a, const Iv& b) {
  auto isZ=[](const Iv&x){return x.lo&&x.hi&&sgn(x.l)==0&&sgn(x.h)==0;};
  if (isZ(a)) return a; if (isZ(b)) return b;
  if (a.lo&&a.hi&&b.lo&&b.hi) { mpq_class c[4]={a.l*b.l,a.l*b.h,a.h*b.l,a.h*b.h}; Iv r; r.lo=r.hi=true; r.l=*std::min_element(c,c+4); r.h=*std::max_element(c,c+4); return r; }
  Iv r;
  bool an=a.lo&&sgn(a.l)>=0, bn=b.lo&&sgn(b.l)>=0;
  if (an&&bn) { r.lo=true; r.l=a.l*b.l; if (a.hi&&b.hi){r.hi=true;r.h=a.h*b.h;} }
  return r;
}
inline Iv ivPow(const Iv& a, int e) {
  if (e%2==0) { Iv r; r.lo=true; r.l=0; mpq_class x; 
    if (a.lo&&a.hi) { mpq_class m=std::max(mpq_class(abs(a.l)),mpq_class(abs(a.h))); mpq_class s=1; for(int i=0;i<e;i++) s*=m; r.hi=true; r.h=s; }
    if (a.lo&&sgn(a.l)>0) { mpq_class s=1; for(int i=0;i<e;i++) s*=a.l; r.l=s; }
    if (a.hi&&sgn(a.h)<0) { mpq_class s=1; for(int i=0;i<e;i++) s*=a.h; r.l=s; }
    return r; }
  Iv r; if (a.lo){ r.lo=true; r.l=1; for(int i=0;i<e;i++) r.l*=a.l; } if (a.hi){ r.hi=true; r.h=1; for(int i=0;i<e;i++) r.h*=a.h; } return r;
}
inline Iv ivAtom(int v) { Iv r; auto& a=PS.atoms[v]; r.lo=a.hasLo; r.hi=a.hasHi; r.l=a.lo; r.h=a.hi; return r; }
inline Iv ivMono(MonoId m) { Iv r; r.lo=r.hi=true; r.l=r.h=1; for (auto& p : PS.monos[m].v) r=ivMul(r,ivPow(ivAtom(p.first),p.second)); return r; }
inline Iv ivPoly(P a) {
  Iv r; r.lo=r.hi=true; r.l=r.h=0;
  for (auto& p : a->t) { Iv m=ivMono(p.first); const mpq_class& c=p.second;
    if (sgn(c)>=0) { if (r.lo) { if (m.lo) r.l+=c*m.l; else r.lo=false; } if (r.hi) { if (m.hi) r.h+=c*m.h; else r.hi=false; } }
    else { if (r.lo) { if (m.hi) r.l+=c*m.h; else r.lo=false; } if (r.hi) { if (m.lo) r.h+=c*m.l; else r.hi=false; } }
    if (!r.lo&&!r.hi) break; }
  return r;
}
// sign by intervals: +1, -1, 0 unknown, 2: exactly zero ; strict
extern std::unordered_map<uint64_t,int> pSignCache;
inline int pSign(P a) { if (a->isZero()) return 2; auto it=pSignCache.find(a->id); if (it!=pSignCache.end()) return it->second;
  Iv i=ivPoly(a); int r=0; if (i.lo&&sgn(i.l)>0) r=1; else if (i.hi&&sgn(i.h)<0) r=-1; pSignCache[a->id]=r; return r; }

// ---- rational functions ----------------------------------------------------------------------------------------
struct RF { P n; std::vector<std::pair<P,int>> d; uint64_t id=0; bool isConst() const { return d.empty()&&n->isConst(); } };
struct RFTable { std::unordered_multimap<size_t,const RF*> ix; std::vector<std::unique_ptr<RF>> all;
  const RF* intern(P n, std::vector<std::pair<P,int>> d) {
    if (n->isZero()) d.clear();
    std::sort(d.begin(),d.end(),[](auto&x,auto&y){return x.first->id<y.first->id;});
    size_t h=n->id*0x9E3779B97F4A7C15ull; for (auto&p:d) h=h*1000003+p.first->id*31+p.second;
    auto r=ix.equal_range(h); for (auto it=r.first;it!=r.second;++it) if (it->second->n==n&&it->second->d==d) return it->second;
    auto p=std::make_unique<RF>(); p->n=n; p->d=d; p->id=all.size()+1; const RF*q=p.get(); all.push_back(std::move(p)); ix.emplace(h,q); return q; } };
extern RFTable RT;
typedef const RF* R;
inline R rPoly(P p) { return RT.intern(p,{}); }
inline R rConst(const mpq_class& q) { return rPoly(pConst(q)); }
inline R rConstD(double d) { return rConst(mpq_class(d)); }
inline void denAdd(std::vector<std::pair<P,int>>& d, P f, int e) { for (auto&p:d) if (p.first==f) { p.second+=e; return; } d.push_back({f,e}); }
// split a polynomial into constant * monomial factors * primitive rest and add to the denominator; returns constant
inline mpq_class denSplit(std::vector<std::pair<P,int>>& d, P f, int e) {
  mpq_class c=1; if (f->isConst()) { for(int i=0;i<e;i++) c*=f->cst(); return c; }
  std::map<int,int> mn; bool first=true;
  for (auto& p:f->t) { std::map<int,int> cur; for (auto&q:PS.monos[p.first].v) cur[q.first]=q.second;
    if (first) { mn=cur; first=false; } else { for (auto it=mn.begin(); it!=mn.end();) { auto g=cur.find(it->first); if (g==cur.end()) it=mn.erase(it); else { it->second=std::min(it->second,g->second); ++it; } } } }
  if (!mn.empty()) { std::vector<std::pair<int,int>> v(mn.begin(),mn.end()); std::vector<std::pair<MonoId,mpq_class>> t; t.push_back({PS.mono(v),1}); P m=PT.intern(std::move(t));
    for (auto&q:mn) denAdd(d,pVar(q.first),q.second*e); f=pDivExact(f,m); }
  mpq_class lc=pCoef(f,pLead(f)); if (!f->isConst()) { f=pScale(f,1/lc);
    // try existing factors
    for (auto pr : std::vector<std::pair<P,int>>(d)) { if (pr.first==f||pr.first->t.size()<2) continue; P q; while (!f->isConst()&&(q=pDivExact(f,pr.first))) { denAdd(d,pr.first,e); f=q; } }
    mpq_class l2=pCoef(f,pLead(f)); if (!f->isConst()) { P s=nullptr; f=pScale(f,1/l2); if (f->t.size()>1 && f->t.size()<60 && (s=pSqrt(f))) denAdd(d,s,2*e); else denAdd(d,f,e); } lc*=l2; }
  for(int i=0;i<e;i++) c*=lc; return c;
}
inline R rMake(P n, std::vector<std::pair<P,int>> d) {
  if (n->isZero()) return RT.intern(n,{});
  for (auto& p : d) while (p.second>0) { P q=pDivExact(n,p.first); if (!q) break; n=q; p.second--; }
  std::vector<std::pair<P,int>> d2; for (auto&p:d) if (p.second>0) d2.push_back(p);
  return RT.intern(n,d2);
}
extern std::unordered_map<std::pair<uint64_t,uint64_t>, R, PairHash> rCache[4];
inline P denProd(const std::vector<std::pair<P,int>>& d) { P r=pConst(1); for (auto&p:d) for(int i=0;i<p.second;i++) r=pMul(r,p.first); return r; }
// values built as squares, and sums and products of such values: never negative whatever the atoms are
inline std::unordered_set<const RF*> nnSet; inline Iv ivRF(R a);
inline bool rNN(R a){ if(nnSet.count(a)) return true; if(a->isConst()) return sgn(a->n->cst())>=0; return a->d.empty()&&a->n->t.size()<8&&pSign(a->n)==1; }
inline R rAddSub(R a, R b, bool sub) {
  auto&C=rCache[sub?1:0]; auto k=std::make_pair(a->id,b->id); auto it=C.find(k); if (it!=C.end()) return it->second;
  R r;
  if (a->d==b->d) r=rMake(sub?pSub(a->n,b->n):pAdd(a->n,b->n),a->d);
  else {
    std::vector<std::pair<P,int>> l=a->d, ma, mb;  // lcm, multipliers
    for (auto&p:b->d) { bool f=false; for (auto&q:l) if (q.first==p.first) { f=true; if (q.second<p.second) q.second=p.second; } if (!f) l.push_back(p); }
    for (auto&q:l) { int ea=0,eb=0; for (auto&p:a->d) if (p.first==q.first) ea=p.second; for (auto&p:b->d) if (p.first==q.first) eb=p.second; if (q.second>ea) ma.push_back({q.first,q.second-ea}); if (q.second>eb) mb.push_back({q.first,q.second-eb}); }
    P x=pMul(a->n,denProd(ma)), y=pMul(b->n,denProd(mb)); r=rMake(sub?pSub(x,y):pAdd(x,y),l);
  }
  if(!sub&&!r->isConst()&&rNN(a)&&rNN(b)) nnSet.insert(r);
  C[k]=r; return r;
}
inline R rAdd(R a,R b){return rAddSub(a,b,false);} inline R rSub(R a,R b){return rAddSub(a,b,true);}
inline R rNeg(R a){return RT.intern(pScale(a->n,-1),a->d);}
inline R rMul(R a,R b){
  if (a->id>b->id) std::swap(a,b);
  auto k=std::make_pair(a->id,b->id); auto it=rCache[2].find(k); if (it!=rCache[2].end()) return it->second;
  P an=a->n,bn=b->n; auto da=a->d, db=b->d;
  auto canc=[](P&n,std::vector<std::pair<P,int>>&d){ for(auto&p:d) while(p.second>0){ P q=pDivExact(n,p.first); if(!q)break; n=q;p.second--; } };
  canc(an,db); canc(bn,da);
  std::vector<std::pair<P,int>> d; for(auto&p:da) if(p.second>0) denAdd(d,p.first,p.second); for(auto&p:db) if(p.second>0) denAdd(d,p.first,p.second);
  R r=rMake(pMul(an,bn),d); if(!r->isConst()&&(a==b||(rNN(a)&&rNN(b)))) nnSet.insert(r); rCache[2][k]=r; return r; }
inline R rDiv(R a,R b){
  auto k=std::make_pair(a->id,b->id); auto it=rCache[3].find(k); if (it!=rCache[3].end()) return it->second;
  if (b->n->isZero()) throw Unsupported("division by zero polynomial");
  // a * (den b) / (num b)
  std::vector<std::pair<P,int>> d; mpq_class c=denSplit(d,b->n,1);
  R inv=rMake(pScale(denProd(b->d),1/c),d); if(rNN(b)) nnSet.insert(inv); R r=rMul(a,inv); rCache[3][k]=r; return r; }
inline Iv ivRF(R a){ Iv r=ivPoly(a->n); if (a->d.empty()) return r; Iv dd=ivPoly(pConst(1)); for(auto&p:a->d) dd=ivMul(dd,ivPow(ivPoly(p.first),p.second));
  // invert
  Iv inv; if (dd.lo&&sgn(dd.l)>0) { inv.hi=true; inv.h=1/dd.l; inv.lo=true; inv.l=dd.hi?mpq_class(1/dd.h):mpq_class(0); }
  else if (dd.hi&&sgn(dd.h)<0) { inv.lo=true; inv.l=1/dd.h; inv.hi=true; inv.h=dd.lo?mpq_class(1/dd.l):mpq_class(0); } else return Iv();
  return ivMul(r,inv); }
