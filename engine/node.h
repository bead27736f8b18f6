// Boolean / bit-vector / IEEE floating-point terms (hash-consed DAG), SMT-LIB2 printing, solver processes.
#pragma once
#include <sys/prctl.h>
#include <csignal>
#include "poly.h"
#include <set>
#include <sstream>
#include <functional>
#include <unordered_set>
#include <unistd.h>
#include <sys/wait.h>
#include <signal.h>
#include <poll.h>
#include <fcntl.h>
#include <chrono>
#include <cstring>

enum NOp : uint8_t { N_CONST, N_VAR, N_PCMP, N_NOT, N_AND, N_OR, N_BXOR,
  N_ADD, N_SUB, N_MUL, N_UDIV, N_SDIV, N_UREM, N_SREM, N_BVAND, N_BVOR, N_BVXOR, N_SHL, N_LSHR, N_ASHR, N_ZEXT, N_SEXT, N_EXTRACT, N_CONCAT, N_ITE,
  N_EQ, N_ULT, N_ULE, N_SLT, N_SLE,
  N_FADD, N_FSUB, N_FMUL, N_FDIV, N_FNEG, N_FABS, N_FSQRT, N_FEQ, N_FLT, N_FLE, N_FISNAN, N_FISINF, N_FCAST, N_SITOFP, N_UITOFP, N_FPTOSI, N_FPTOUI, N_FRTI, N_FISNEG };
enum Sort : uint16_t { S_BOOL=0, S_F32=1000, S_F64=1001 };   // other values: BV width
enum Rel : uint8_t { REL_GT, REL_GE, REL_EQ, REL_NE };
struct Node { NOp op; uint16_t sort; uint8_t rel=0; uint64_t c=0; P poly=nullptr; std::string name; std::vector<const Node*> k; uint64_t id=0;
  bool hasB=false; double blo=0,bhi=0; };
typedef const Node* N;
struct NodeTable { std::unordered_multimap<size_t,N> ix; std::vector<std::unique_ptr<Node>> all;
  N mk(Node&& n) { size_t h=n.op*131+n.sort*7+n.rel; h=h*1000003+n.c; h=h*1000003+(size_t)n.poly; h^=std::hash<std::string>()(n.name); for(auto k:n.k) h=h*1000003+k->id;
    auto r=ix.equal_range(h); for(auto it=r.first;it!=r.second;++it){ N o=it->second; if(o->op==n.op&&o->sort==n.sort&&o->rel==n.rel&&o->c==n.c&&o->poly==n.poly&&o->k==n.k&&o->name==n.name) return o; }
    auto p=std::make_unique<Node>(std::move(n)); p->id=all.size()+1; N q=p.get(); all.push_back(std::move(p)); ix.emplace(h,q); return q; } };
extern NodeTable NT;
inline uint64_t maskOf(unsigned w){ return w>=64?~0ull:((1ull<<w)-1); }
inline N nBool(bool b){ Node n; n.op=N_CONST; n.sort=S_BOOL; n.c=b; return NT.mk(std::move(n)); }
inline N nBV(uint64_t v, unsigned w){ Node n; n.op=N_CONST; n.sort=w; n.c=v&maskOf(w); return NT.mk(std::move(n)); }
inline N nF(double d, uint16_t sort){ Node n; n.op=N_CONST; n.sort=sort; if(sort==S_F32){ float f=(float)d; uint32_t b; memcpy(&b,&f,4); n.c=b; } else memcpy(&n.c,&d,8); return NT.mk(std::move(n)); }
inline double nFval(N n){ if(n->sort==S_F32){ uint32_t b=n->c; float f; memcpy(&f,&b,4); return f; } double d; memcpy(&d,&n->c,8); return d; }
inline bool isC(N n){ return n->op==N_CONST; }
inline bool isTrue(N n){ return n->op==N_CONST&&n->sort==S_BOOL&&n->c; } inline bool isFalse(N n){ return n->op==N_CONST&&n->sort==S_BOOL&&!n->c; }
inline N nVar(const std::string& s, uint16_t sort){ Node n; n.op=N_VAR; n.sort=sort; n.name=s; return NT.mk(std::move(n)); }
inline N nMk(NOp op,uint16_t sort,std::vector<N> k,uint64_t c=0){ Node n; n.op=op; n.sort=sort; n.k=std::move(k); n.c=c; return NT.mk(std::move(n)); }
struct Fold { P p; Rel r; bool v; }; inline std::vector<Fold> foldLog; inline std::set<std::pair<uint64_t,int>> foldSeen;
inline N nFold(P p, Rel r, bool v){ if(foldLog.size()<4000&&foldSeen.insert({p->id,(int)r}).second) foldLog.push_back({p,r,v}); return nBool(v); }
inline N nPcmp(P p, Rel r) {
  if (p->isConst()) { int s=sgn(p->cst()); return nBool(r==REL_GT?s>0:r==REL_GE?s>=0:r==REL_EQ?s==0:s!=0); }
  int sg=pSign(p); if (sg==1) return nFold(p,r,r!=REL_EQ); if (sg==-1) return nFold(p,r,r==REL_NE);
  if (sg==0 && r!=REL_EQ && r!=REL_NE) { Iv i=ivPoly(p); if (r==REL_GE&&i.lo&&sgn(i.l)>=0) return nFold(p,r,true); if (r==REL_GT&&i.hi&&sgn(i.h)<=0) return nFold(p,r,false); }
  mpq_class lc=pCoef(p,pLead(p)); if (r!=REL_EQ&&r!=REL_NE) lc=abs(lc); p=pScale(p,1/lc);
  Node n; n.op=N_PCMP; n.sort=S_BOOL; n.poly=p; n.rel=r; return NT.mk(std::move(n)); }
inline N nNot(N a){ if(isC(a)) return nBool(!a->c); if(a->op==N_NOT) return a->k[0];
  if(a->op==N_PCMP){ if(a->rel==REL_EQ) return nPcmp(a->poly,REL_NE); if(a->rel==REL_NE) return nPcmp(a->poly,REL_EQ); if(a->rel==REL_GT) return nPcmp(pScale(a->poly,-1),REL_GE); return nPcmp(pScale(a->poly,-1),REL_GT); }
  return nMk(N_NOT,S_BOOL,{a}); }
inline N nAnd(N a,N b){ if(isFalse(a)||isFalse(b)) return nBool(false); if(isTrue(a)) return b; if(isTrue(b)) return a; if(a==b) return a; if(a==nNot(b)) return nBool(false); return nMk(N_AND,S_BOOL,{a,b}); }
inline N nOr(N a,N b){ if(isTrue(a)||isTrue(b)) return nBool(true); if(isFalse(a)) return b; if(isFalse(b)) return a; if(a==b) return a; if(a==nNot(b)) return nBool(true); return nMk(N_OR,S_BOOL,{a,b}); }
inline N nBxor(N a,N b){ if(isC(a)) return a->c?nNot(b):b; if(isC(b)) return b->c?nNot(a):a; if(a==b) return nBool(false); return nMk(N_BXOR,S_BOOL,{a,b}); }
// rational function comparisons with zero
inline N rCmp(R a, Rel r) {
  if (r==REL_EQ||r==REL_NE) return nPcmp(a->n,r);
  if (!nnSet.empty()) { if (r==REL_GE&&nnSet.count(a)) return nBool(true); if (r==REL_GT&&nnSet.count(rNeg(a))) return nBool(false); }
  P p=a->n; for(auto&f:a->d) if(f.second%2){ int s=pSign(f.first); if(s==1) continue; if(s==-1) p=pScale(p,-1); else p=pMul(p,f.first); }
  return nPcmp(p,r); }
int64_t sx(uint64_t v,unsigned w);
inline int64_t sx(uint64_t v,unsigned w){ if(w>=64) return (int64_t)v; uint64_t m=1ull<<(w-1); v&=maskOf(w); return (int64_t)((v^m)-m); }
inline bool bvFold(NOp op,unsigned w,uint64_t a,uint64_t b,uint64_t&r){
  int64_t sa=sx(a,w),sb=sx(b,w);
  switch(op){ case N_ADD:r=a+b;break; case N_SUB:r=a-b;break; case N_MUL:r=a*b;break;
    case N_UDIV: if(!b) return false; r=a/b;break; case N_UREM: if(!b) return false; r=a%b;break;
    case N_SDIV: if(!sb) return false; if(sb==-1) r=-(uint64_t)sa; else r=(uint64_t)(sa/sb);break; case N_SREM: if(!sb) return false; if(sb==-1) r=0; else r=(uint64_t)(sa%sb);break;
    case N_BVAND:r=a&b;break; case N_BVOR:r=a|b;break; case N_BVXOR:r=a^b;break;
    case N_SHL: r=b>=w?0:a<<b;break; case N_LSHR: r=b>=w?0:a>>b;break; case N_ASHR: r=(uint64_t)(b>=w?(sa<0?-1:0):(sa>>b));break; default: return false; }
  r&=maskOf(w); return true; }
inline N nBin(NOp op,N a,N b){ unsigned w=a->sort; if(isC(a)&&isC(b)){ uint64_t r; if(bvFold(op,w,a->c,b->c,r)) return nBV(r,w); }
  if(isC(b)&&b->c==0&&(op==N_ADD||op==N_SUB||op==N_BVOR||op==N_BVXOR||op==N_SHL||op==N_LSHR||op==N_ASHR)) return a; if(isC(a)&&a->c==0&&(op==N_ADD||op==N_BVOR)) return b;
  if(isC(b)&&b->c==0&&(op==N_BVAND||op==N_MUL)) return b; if(isC(b)&&b->c==1&&op==N_MUL) return a;
  return nMk(op,w,{a,b}); }
inline N nICmp(NOp op,N a,N b){ unsigned w=a->sort; if(isC(a)&&isC(b)){ uint64_t x=a->c,y=b->c; int64_t sxx=sx(x,w),sy=sx(y,w); return nBool(op==N_EQ?x==y:op==N_ULT?x<y:op==N_ULE?x<=y:op==N_SLT?sxx<sy:sxx<=sy); }
  if(a==b) return nBool(op==N_EQ||op==N_ULE||op==N_SLE);
  if(op==N_EQ){ // (zext bool) == c
    for(int s=0;s<2;s++){ N x=s?b:a,y=s?a:b; if(isC(y)&&x->op==N_ITE&&isC(x->k[1])&&isC(x->k[2])){ bool e1=x->k[1]->c==y->c,e2=x->k[2]->c==y->c; if(e1&&e2) return nBool(true); if(e1) return x->k[0]; if(e2) return nNot(x->k[0]); return nBool(false);} } }
  return nMk(op,S_BOOL,{a,b}); }
inline N nIte(N c,N a,N b){ if(isC(c)) return c->c?a:b; if(a==b) return a; if(a->sort==S_BOOL) return nOr(nAnd(c,a),nAnd(nNot(c),b)); return nMk(N_ITE,a->sort,{c,a,b}); }
inline N nToBV(N b,unsigned w){ return nIte(b,nBV(1,w),nBV(0,w)); }   // Bool -> BV
inline N nZext(N a,unsigned w){ if(isC(a)) return nBV(a->c,w); if(a->op==N_ITE&&isC(a->k[1])&&isC(a->k[2])) return nIte(a->k[0],nBV(a->k[1]->c,w),nBV(a->k[2]->c,w)); return nMk(N_ZEXT,w,{a}); }
inline N nSext(N a,unsigned w){ if(isC(a)) return nBV((uint64_t)sx(a->c,a->sort),w); return nMk(N_SEXT,w,{a}); }
inline N nExtract(N a,unsigned lo,unsigned w){ if(isC(a)) return nBV(a->c>>lo,w); if(lo==0&&w==a->sort) return a; if((a->op==N_ZEXT)&&lo==0){ if(w==a->k[0]->sort) return a->k[0]; if(w>a->k[0]->sort) return nZext(a->k[0],w);} if(a->op==N_SEXT&&lo==0&&w==a->k[0]->sort) return a->k[0];
  if(a->op==N_ITE&&isC(a->k[1])&&isC(a->k[2])) return nIte(a->k[0],nExtract(a->k[1],lo,w),nExtract(a->k[2],lo,w)); return nMk(N_EXTRACT,w,{a},lo); }
inline N nConcat(N hi,N lo){ if(isC(hi)&&isC(lo)) return nBV((hi->c<<lo->sort)|lo->c,hi->sort+lo->sort);
  if(hi->op==N_EXTRACT&&lo->op==N_EXTRACT&&hi->k[0]==lo->k[0]&&hi->c==lo->c+lo->sort) return nExtract(lo->k[0],lo->c,hi->sort+lo->sort);
  if(isC(hi)&&hi->c==0) return nZext(lo,hi->sort+lo->sort); return nMk(N_CONCAT,hi->sort+lo->sort,{hi,lo}); }

// ---------------------------------------------------------------- SMT printing
inline std::string qStr(const mpq_class& q){ auto z=[](const mpz_class& x){ return sgn(x)<0?"(- "+mpz_class(-x).get_str()+".0)":x.get_str()+".0"; };
  if(q.get_den()==1) return z(q.get_num()); return "(/ "+z(q.get_num())+" "+q.get_den().get_str()+".0)"; }
inline std::string pStr(P p){ if(p->isZero()) return "0.0"; std::string s; for(auto&t:p->t){ std::string m; auto&v=PS.monos[t.first].v; int n=0; bool one=t.second==1; if(!one||v.empty()){ m+=" "+qStr(t.second); n++; }
    for(auto&x:v) for(int i=0;i<x.second;i++){ m+=" "+PS.atoms[x.first].name; n++; } s+= n==1?m:" (*"+m+")"; }
  return p->t.size()==1?s.substr(1):"(+"+s+")"; }
inline std::string sortStr(uint16_t s){ if(s==S_BOOL) return "Bool"; if(s==S_F64) return "(_ FloatingPoint 11 53)"; if(s==S_F32) return "(_ FloatingPoint 8 24)"; return "(_ BitVec "+std::to_string(s)+")"; }
inline std::string bvLit(uint64_t v,unsigned w){ return "(_ bv"+std::to_string(v&maskOf(w))+" "+std::to_string(w)+")"; }

struct Emit { std::ostringstream defs; std::set<int> atomsUsed; std::set<N> vars; std::unordered_map<N,std::string> memo; std::set<N> fpAbs; bool abstractFP=false; bool nonlinear=false; bool hasFP=false,hasBV=false,hasReal=false;
  void usePoly(P p){ hasReal=true; for(auto&t:p->t){ int deg=0; for(auto&x:PS.monos[t.first].v){ atomsUsed.insert(x.first); deg+=x.second; } if(deg>1) nonlinear=true; } }
  std::string s(N n){ auto it=memo.find(n); if(it!=memo.end()) return it->second; std::string r; auto K=[&](int i){ return s(n->k[i]); };
    auto f=[&](const char*o){ std::string x=std::string("(")+o; for(auto k:n->k) x+=" "+s(k); return x+")"; };
    if(n->sort==S_F32||n->sort==S_F64) hasFP=true; else if(n->sort!=S_BOOL) hasBV=true;
    switch(n->op){
      case N_CONST: if(n->sort==S_BOOL) r=n->c?"true":"false"; else if(n->sort==S_F64) r="((_ to_fp 11 53) "+bvLit(n->c,64)+")"; else if(n->sort==S_F32) r="((_ to_fp 8 24) "+bvLit(n->c,32)+")"; else r=bvLit(n->c,n->sort); break;
      case N_VAR: vars.insert(n); r=n->name; break;
      case N_PCMP: usePoly(n->poly); r=std::string("(")+(n->rel==REL_GT?">":n->rel==REL_GE?">=":n->rel==REL_EQ?"=":"distinct")+" "+pStr(n->poly)+" 0.0)"; break;
      case N_NOT:r=f("not");break; case N_AND:r=f("and");break; case N_OR:r=f("or");break; case N_BXOR:r=f("xor");break;
      case N_ADD:r=f("bvadd");break; case N_SUB:r=f("bvsub");break; case N_MUL:r=f("bvmul");break; case N_UDIV:r=f("bvudiv");break; case N_SDIV:r=f("bvsdiv");break; case N_UREM:r=f("bvurem");break; case N_SREM:r=f("bvsrem");break;
      case N_BVAND:r=f("bvand");break; case N_BVOR:r=f("bvor");break; case N_BVXOR:r=f("bvxor");break; case N_SHL:r=f("bvshl");break; case N_LSHR:r=f("bvlshr");break; case N_ASHR:r=f("bvashr");break;
      case N_ZEXT:r="((_ zero_extend "+std::to_string(n->sort-n->k[0]->sort)+") "+K(0)+")";break; case N_SEXT:r="((_ sign_extend "+std::to_string(n->sort-n->k[0]->sort)+") "+K(0)+")";break;
      case N_EXTRACT:r="((_ extract "+std::to_string(n->c+n->sort-1)+" "+std::to_string(n->c)+") "+K(0)+")";break; case N_CONCAT:r=f("concat");break; case N_ITE:r=f("ite");break;
      case N_EQ:r=f("=");break; case N_ULT:r=f("bvult");break; case N_ULE:r=f("bvule");break; case N_SLT:r=f("bvslt");break; case N_SLE:r=f("bvsle");break;
      case N_FADD: case N_FSUB: case N_FMUL: case N_FDIV: { const char*o=n->op==N_FADD?"fp.add":n->op==N_FSUB?"fp.sub":n->op==N_FMUL?"fp.mul":"fp.div";
        if(abstractFP&&(n->op==N_FMUL||n->op==N_FDIV)){ r="fpabs"+std::to_string(n->id); if(fpAbs.insert(n).second) defs<<"(declare-fun "<<r<<" () "<<sortStr(n->sort)<<")\n"; break; }
        r=std::string("(")+o+" RNE "+K(0)+" "+K(1)+")"; break; }
      case N_FNEG:r=f("fp.neg");break; case N_FABS:r=f("fp.abs");break; case N_FSQRT:r="(fp.sqrt RNE "+K(0)+")";break;
      case N_FEQ:r=f("fp.eq");break; case N_FLT:r=f("fp.lt");break; case N_FLE:r=f("fp.leq");break; case N_FISNAN:r=f("fp.isNaN");break; case N_FISINF:r=f("fp.isInfinite");break; case N_FISNEG:r=f("fp.isNegative");break;
      case N_FCAST:r=std::string("((_ to_fp ")+(n->sort==S_F64?"11 53":"8 24")+") RNE "+K(0)+")";break;
      case N_SITOFP:r=std::string("((_ to_fp ")+(n->sort==S_F64?"11 53":"8 24")+") RNE "+K(0)+")";break;
      case N_UITOFP:r=std::string("((_ to_fp_unsigned ")+(n->sort==S_F64?"11 53":"8 24")+") RNE "+K(0)+")";break;
      case N_FPTOSI:r="((_ fp.to_sbv "+std::to_string(n->sort)+") RTZ "+K(0)+")";break; case N_FPTOUI:r="((_ fp.to_ubv "+std::to_string(n->sort)+") RTZ "+K(0)+")";break;
      case N_FRTI: r=std::string("(fp.roundToIntegral ")+(n->c==0?"RTN ":n->c==1?"RTP ":n->c==2?"RTZ ":n->c==3?"RNE ":"RNA ")+K(0)+")";break;
      default: throw Unsupported("smt op"); }
    if(n->k.size()&&r.size()>40){ std::string nm="n"+std::to_string(n->id); defs<<"(define-fun "<<nm<<" () "<<sortStr(n->sort)<<" "<<r<<")\n"; r=nm; }
    memo[n]=r; return r; } };

// ---------------------------------------------------------------- solver process
struct Proc { pid_t pid=-1; int in=-1,out=-1; std::string buf;
  bool start(const std::vector<std::string>& cmd){ int a[2],b[2]; if(pipe(a)||pipe(b)) return false; pid=fork(); if(pid==0){ prctl(PR_SET_PDEATHSIG,SIGKILL); dup2(a[0],0); dup2(b[1],1); int dn=open("/dev/null",O_WRONLY); dup2(dn,2); for(int i=3;i<256;i++) close(i); std::vector<char*> v; for(auto&c:cmd) v.push_back((char*)c.c_str()); v.push_back(nullptr); execvp(v[0],v.data()); _exit(127); }
    close(a[0]); close(b[1]); in=a[1]; out=b[0]; fcntl(in,F_SETFD,FD_CLOEXEC); fcntl(out,F_SETFD,FD_CLOEXEC); return true; }
  void stop(){ if(pid>0){ kill(pid,SIGKILL); waitpid(pid,nullptr,0); close(in); close(out); pid=-1; buf.clear(); } }
  bool send(const std::string& s){ size_t o=0; while(o<s.size()){ ssize_t w=write(in,s.data()+o,s.size()-o); if(w<=0) return false; o+=w; } return true; }
  // read until the marker line; false on timeout/eof
  bool readUntil(const std::string& mark,double sec,std::string& res){ auto t0=std::chrono::steady_clock::now(); res.clear();
    for(;;){ size_t p=buf.find(mark+"\n"); if(p!=std::string::npos){ res=buf.substr(0,p); buf.erase(0,p+mark.size()+1); return true; }
      double el=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count(); if(el>sec) return false;
      pollfd f{out,POLLIN,0}; int r=poll(&f,1,(int)std::min(1000.0,(sec-el)*1000+1)); if(r<0) return false; if(r==0) continue; char tmp[65536]; ssize_t n=read(out,tmp,sizeof tmp); if(n<=0) return false; buf.append(tmp,n); } } };
