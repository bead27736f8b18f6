// vpsym: symbolic executor for LLVM-18 bitcode of the mathutils harnesses.
// Doubles are exact reals (mode "real") or IEEE-754 terms (mode "ieee"); forking by re-execution along decision prefixes.
#include "node.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/ADT/APFloat.h>
#include <sys/resource.h>
#include <fstream>
#include <iostream>
#include <random>
#include <thread>
#include <pthread.h>

PolySys PS; PolyTable PT; RFTable RT; NodeTable NT; size_t VP_TERM_LIMIT = 400000;
std::unordered_map<std::pair<uint64_t,uint64_t>, P, PairHash> pMulCache, pDivCache;
std::unordered_map<std::pair<uint64_t,uint64_t>, R, PairHash> rCache[4];
std::unordered_map<uint64_t,int> pSignCache;

using namespace llvm;
typedef std::chrono::steady_clock Clock;
static double since(Clock::time_point t){ return std::chrono::duration<double>(Clock::now()-t).count(); }

// ------------------------------------------------------------------------------------------------ options / stats
static bool IEEE=false; static std::string replayBin, replayVg, caseName, outFile, workDir="/tmp"; static long caseArg=-1; static double tBranch=3, tAssert=40, tTotal=600; static uint64_t instLimit=400000000ull; static long maxPaths=200000; static unsigned seed=1;
static bool verbose=false; static std::string concreteFile;
struct Stats { uint64_t paths=0, infeasible=0, inst=0, decisions=0, forks=0, queries=0, qsat=0, qunsat=0, qunknown=0, obligations=0, byNormalForm=0, bySolver=0, concrete=0, relaxed=0, undecided=0, replays=0, validated=0, validMismatch=0, sliced=0, cvc5=0, folds=0; double solverS=0; } st;
static std::map<std::string,uint64_t> reached; static std::set<std::string> funcsExecuted, stubsUsed; static std::vector<std::string> notes;
struct Violation { std::string id, kind, detail, file, replayOut; bool confirmed; };
static std::vector<Violation> violations; static std::vector<std::string> undecidedMsgs; static std::vector<std::string> samples;

// ------------------------------------------------------------------------------------------------ values
struct Val { enum K:uint8_t { Undef, Int, Fp, Real, Nd, FpBits, Agg } k=Undef; union { uint64_t u; long double f; }; const void* p=nullptr; std::shared_ptr<std::vector<Val>> a;
  Val():f(0){}
  static Val I(uint64_t v){ Val r; r.k=Int; r.u=v; return r; } static Val F(long double d){ Val r; r.k=Fp; r.f=d; return r; }
  static Val S(R x){ Val r; r.k=Real; r.p=x; return r; } static Val B(N x){ Val r; r.k=Nd; r.p=x; return r; }
  static Val A(std::vector<Val> v){ Val r; r.k=Agg; r.a=std::make_shared<std::vector<Val>>(std::move(v)); return r; }
  R r() const { return (R)p; } N n() const { return (N)p; } };
struct Input { std::string name; int kind; /*0 real atom,1 BV,2 FP,3 pick*/ int atom=-1; N node=nullptr; double lo=0,hi=0; int64_t ilo=0,ihi=0; int64_t pick=0; };
struct PathEnd { std::string kind, detail; };
struct Obj { uint32_t size=0; std::vector<uint8_t> d, s; std::map<uint32_t,std::pair<uint32_t,Val>> cells; bool alive=true; Function* fn=nullptr; char kind='h'; std::string name; };

// model values
struct Model { std::map<std::string,mpq_class> real; std::map<std::string,uint64_t> bv; };

// ------------------------------------------------------------------------------------------------ path state
struct Decision { bool taken; bool both; int64_t v; std::string sv; };
static std::vector<Decision> prefix, cur; static size_t decPos; static std::vector<std::vector<Decision>> work;
static std::vector<N> PC; static std::set<N> PCset; static std::vector<Input> inputs; static std::map<std::string,int> inputIx;
static std::mt19937_64 rng; static Clock::time_point tStart;
static std::map<std::string,std::string> concreteIn; static bool concreteMode=false;

static void pcAdd(N c){ if(isTrue(c)) return; if(c->op==N_AND){ pcAdd(c->k[0]); pcAdd(c->k[1]); return; } if(PCset.insert(c).second) PC.push_back(c); }

// ------------------------------------------------------------------------------------------------ solving
static Proc zp; static std::unordered_map<std::string,int> qcache;
enum Res { SAT, UNSAT, UNKNOWN };
static bool parseReal(const std::string& tin, mpq_class& q){ // decimals, (/ a b), (- x), 1.5?
  std::string t=tin; size_t i=0; std::function<bool(mpq_class&)> P_=[&](mpq_class&r)->bool{ while(i<t.size()&&isspace(t[i])) i++; if(i>=t.size()) return false;
    if(t[i]=='('){ i++; while(isspace(t[i])) i++; char op=t[i++]; if(op=='r'||op=='_'||op=='f') return false; mpq_class a; if(!P_(a)) return false; while(i<t.size()&&isspace(t[i])) i++; if(t[i]==')'){ i++; r=-a; return op=='-'; } mpq_class b; if(!P_(b)) return false; while(i<t.size()&&isspace(t[i])) i++; if(t[i]!=')') return false; i++; if(op=='/'){ if(sgn(b)==0) return false; r=a/b; } else if(op=='-') r=a-b; else if(op=='+') r=a+b; else if(op=='*') r=a*b; else return false; return true; }
    size_t j=i; while(j<t.size()&&(isdigit(t[j])||t[j]=='.'||t[j]=='-')) j++; if(j==i) return false; std::string w=t.substr(i,j-i); i=j; if(i<t.size()&&t[i]=='?') i++; size_t dot=w.find('.'); std::string digits=w; int sc=0; if(dot!=std::string::npos){ digits=w.substr(0,dot)+w.substr(dot+1); sc=w.size()-dot-1; } if(digits.empty()) return false; mpz_class z; if(z.set_str(digits,10)) return false; mpz_class den; mpz_ui_pow_ui(den.get_mpz_t(),10,sc); r=mpq_class(z,den); r.canonicalize(); return true; };
  return P_(q); }

static void atomClosure(std::set<int>& a){ std::vector<int> w(a.begin(),a.end()); while(!w.empty()){ int v=w.back(); w.pop_back(); auto&A=PS.atoms[v]; std::vector<int> add; if(A.radicand) for(auto&t:A.radicand->t) for(auto&x:PS.monos[t.first].v) add.push_back(x.first); if(A.mate>=0) add.push_back(A.mate); for(int x:add) if(a.insert(x).second) w.push_back(x); } }

static void nodeVars(N n, std::set<int>& at, std::set<N>& vs, std::unordered_set<N>& seen){ if(!seen.insert(n).second) return; if(n->op==N_PCMP) for(auto&t:n->poly->t) for(auto&x:PS.monos[t.first].v) at.insert(x.first); if(n->op==N_VAR) vs.insert(n); for(auto k:n->k) nodeVars(k,at,vs,seen); }

static std::string buildQuery(const std::vector<N>& conj, bool relax, Emit& em, std::vector<std::string>& modelVars, bool absFP){
  std::string body; em.abstractFP=absFP;
  std::vector<std::string> as; std::map<MonoId,std::string> mv;
  std::function<std::string(P)> relP=[&](P p){ std::string s="(+ 0.0"; for(auto&t:p->t){ auto&v=PS.monos[t.first].v; int deg=0; for(auto&x:v) deg+=x.second; if(deg==0) s+=" "+qStr(t.second); else { std::string nm; if(deg==1){ nm=PS.atoms[v[0].first].name; em.atomsUsed.insert(v[0].first); } else { nm="m"+std::to_string(t.first); mv[t.first]=nm; } s+=" (* "+qStr(t.second)+" "+nm+")"; } } return s+")"; };
  std::function<std::string(N)> relN=[&](N n)->std::string{ switch(n->op){ case N_CONST: return n->c?"true":"false"; case N_PCMP: return std::string("(")+(n->rel==REL_GT?">":n->rel==REL_GE?">=":n->rel==REL_EQ?"=":"distinct")+" "+relP(n->poly)+" 0.0)"; case N_NOT: return "(not "+relN(n->k[0])+")"; case N_AND: return "(and "+relN(n->k[0])+" "+relN(n->k[1])+")"; case N_OR: return "(or "+relN(n->k[0])+" "+relN(n->k[1])+")"; case N_BXOR: return "(xor "+relN(n->k[0])+" "+relN(n->k[1])+")"; default: throw Unsupported("relax"); } };
  if(relax){ for(auto c:conj) as.push_back(relN(c)); em.hasReal=true; } else for(auto c:conj) as.push_back(em.s(c));
  std::set<int> at=em.atomsUsed; if(!relax) atomClosure(at);
  std::ostringstream o; std::string logic; 
  bool nl=em.nonlinear; if(!relax) for(int v:at) if(PS.atoms[v].sq) nl=true;
  if(em.hasFP||em.hasBV) logic = em.hasReal?"ALL":(em.hasFP?"QF_BVFP":"QF_BV"); else logic = nl&&!relax?"QF_NRA":"QF_LRA";
  o<<"(set-logic "<<logic<<")\n";
  for(int v:at) o<<"(declare-fun "<<PS.atoms[v].name<<" () Real)\n";
  for(auto v:em.vars) o<<"(declare-fun "<<v->name<<" () "<<sortStr(v->sort)<<")\n";
  for(int v:at){ auto&A=PS.atoms[v]; if(A.hasLo) o<<"(assert (>= "<<A.name<<" "<<qStr(A.lo)<<"))\n"; if(A.hasHi) o<<"(assert (<= "<<A.name<<" "<<qStr(A.hi)<<"))\n"; if(A.sq&&!relax&&(A.kind!=Atom::Cos||true)){ if(A.kind==Atom::Sqrt||A.kind==Atom::Cos) o<<"(assert (= (* "<<A.name<<" "<<A.name<<") "<<pStr(A.sq)<<"))\n"; } if(A.kind==Atom::Input) modelVars.push_back(A.name); }
  for(auto v:em.vars) modelVars.push_back(v->name);
  for(auto&m:mv){ o<<"(declare-fun "<<m.second<<" () Real)\n"; Iv i=ivMono(m.first); if(i.lo) o<<"(assert (>= "<<m.second<<" "<<qStr(i.l)<<"))\n"; if(i.hi) o<<"(assert (<= "<<m.second<<" "<<qStr(i.h)<<"))\n"; }
  o<<em.defs.str(); for(auto&a:as) o<<"(assert "<<a<<")\n";
  return o.str(); }

static Res runZ3(const std::string& q,double tmo,const std::vector<std::string>& mv,Model* m,bool seedvar=false){
  auto t0=Clock::now(); Res res=UNKNOWN; st.queries++;
  for(int attempt=0;attempt<2;attempt++){
    if(zp.pid<=0) zp.start({"z3-new","-in"});
    std::string s="(reset)\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 40)\n(set-option :timeout "+std::to_string((int)(tmo*1000))+")\n"+q+"(check-sat)\n";
    if(m&&!mv.empty()){ s+="(get-value ("; for(auto&v:mv) s+=v+" "; s+="))\n"; }
    s+="(echo \"VPDONE\")\n"; std::string out; 
    if(!zp.send(s)){ zp.stop(); continue; }
    if(!zp.readUntil("VPDONE",tmo+3,out)){ zp.stop(); break; }
    std::string first=out.substr(0,out.find('\n')); if(first=="sat") res=SAT; else if(first=="unsat") res=UNSAT;
    else if(out.find("(error")!=std::string::npos&&verbose) fprintf(stderr,"solver error: %s\n%s\n",out.c_str(),q.c_str());
    if(res==SAT&&out.find("(error")!=std::string::npos&&!m) res=UNKNOWN;
    if(res==SAT&&m&&!mv.empty()){ // parse ((x v) (y v))
      size_t i=first.size(); auto skip=[&]{ while(i<out.size()&&isspace(out[i])) i++; }; auto sexp=[&]()->std::string{ skip(); size_t b=i; if(out[i]=='('){ int d=0; do{ if(out[i]=='(') d++; if(out[i]==')') d--; i++; } while(i<out.size()&&d>0); } else while(i<out.size()&&!isspace(out[i])&&out[i]!=')'&&out[i]!='(') i++; return out.substr(b,i-b); };
      skip(); if(out[i]=='('){ i++; for(;;){ skip(); if(i>=out.size()||out[i]==')') break; if(out[i]!='(') break; i++; std::string nm=sexp(), v=sexp(); skip(); if(out[i]==')') i++;
          mpq_class r; if(v.rfind("#x",0)==0) m->bv[nm]=strtoull(v.c_str()+2,0,16); else if(v.rfind("#b",0)==0) m->bv[nm]=strtoull(v.c_str()+2,0,2); else if(v.rfind("(fp ",0)==0){ std::string bits; size_t k=4; while(k<v.size()){ if(v[k]=='#'){ bool hx=v[k+1]=='x'; k+=2; while(k<v.size()&&isxdigit(v[k])){ if(hx){ int d=v[k]<='9'?v[k]-'0':(tolower(v[k])-'a'+10); for(int b=3;b>=0;b--) bits+=(d>>b&1)?'1':'0'; } else bits+=v[k]; k++; } } else k++; } m->bv[nm]=strtoull(bits.c_str(),0,2); if(bits.size()==32) m->bv[nm]=m->bv[nm]; }
          else if(v.find("+oo")!=std::string::npos) m->bv[nm]=v.find("11 53")!=std::string::npos?0x7ff0000000000000ull:0x7f800000ull; else if(v.find("-oo")!=std::string::npos) m->bv[nm]=v.find("11 53")!=std::string::npos?0xfff0000000000000ull:0xff800000ull; else if(v.find("NaN")!=std::string::npos) m->bv[nm]=v.find("11 53")!=std::string::npos?0x7ff8000000000000ull:0x7fc00000ull; else if(v.find("-zero")!=std::string::npos) m->bv[nm]=v.find("11 53")!=std::string::npos?0x8000000000000000ull:0x80000000ull; else if(v.find("+zero")!=std::string::npos) m->bv[nm]=0; else if(parseReal(v,r)) m->real[nm]=r; } } }
    break; }
  st.solverS+=since(t0); if(res==SAT) st.qsat++; else if(res==UNSAT) st.qunsat++; else st.qunknown++; return res; }

static Res runExt(const std::vector<std::string>& cmd,const std::string& q,double tmo){ auto t0=Clock::now(); st.queries++; st.cvc5++; Proc p; p.start(cmd); std::string out; p.send(q+"(check-sat)\n(echo \"VPDONE\")\n"); Res r=UNKNOWN; if(p.readUntil(cmd[0]=="cvc5"?"\"VPDONE\"":"VPDONE",tmo+2,out)||p.readUntil("VPDONE",0.01,out)){ if(out.rfind("unsat",0)==0) r=UNSAT; else if(out.rfind("sat",0)==0) r=SAT; if(out.find("(error")!=std::string::npos) r=UNKNOWN; } p.stop(); st.solverS+=since(t0); if(r==SAT) st.qsat++; else if(r==UNSAT) st.qunsat++; else st.qunknown++; return r; }

static std::vector<N> slice(const std::vector<N>& pc, const std::vector<N>& goal){
  std::set<int> at; std::set<N> vs; std::unordered_set<N> seen; for(auto g:goal) nodeVars(g,at,vs,seen); atomClosure(at);
  std::vector<char> in(pc.size(),0); std::vector<std::set<int>> A(pc.size()); std::vector<std::set<N>> V(pc.size());
  for(size_t i=0;i<pc.size();i++){ std::unordered_set<N> s2; nodeVars(pc[i],A[i],V[i],s2); atomClosure(A[i]); }
  bool ch=true; while(ch){ ch=false; for(size_t i=0;i<pc.size();i++) if(!in[i]){ bool hit=false; for(int x:A[i]) if(at.count(x)){hit=true;break;} if(!hit) for(auto x:V[i]) if(vs.count(x)){hit=true;break;} if(hit){ in[i]=1; ch=true; at.insert(A[i].begin(),A[i].end()); vs.insert(V[i].begin(),V[i].end()); } } }
  std::vector<N> r; for(size_t i=0;i<pc.size();i++) if(in[i]) r.push_back(pc[i]); return r; }

// decide satisfiability of pc /\ goal
static Res solve(const std::vector<N>& pc,const std::vector<N>& goal,double tmo,Model* m=nullptr,bool doSlice=true,bool deep=false){
  for(auto g:goal) if(isFalse(g)) return UNSAT;
  std::vector<N> conj; if(doSlice) conj=slice(pc,goal); else conj=pc; for(auto g:goal) if(!isTrue(g)) conj.push_back(g);
  if(conj.empty()) return SAT;
  Emit em; std::vector<std::string> mv; std::string q=buildQuery(conj,false,em,mv,false);
  if(!m){ auto it=qcache.find(q); if(it!=qcache.end()&&(it->second!=UNKNOWN||!deep)) return (Res)it->second; }
  bool pureReal=em.hasReal&&!em.hasBV&&!em.hasFP; Res r=UNKNOWN; std::set<int> at=em.atomsUsed; atomClosure(at); bool nl=em.nonlinear; for(int v:at) if(PS.atoms[v].sq) nl=true;
  if(pureReal&&nl&&!m){ Emit e2; std::vector<std::string> mv2; std::string q2=buildQuery(conj,true,e2,mv2,false); if(runZ3(q2,std::min(tmo,10.0),mv2,nullptr)==UNSAT){ st.relaxed++; r=UNSAT; } }
  if(r==UNKNOWN&&em.hasFP&&!m){ Emit e2; std::vector<std::string> mv2; std::string q2=buildQuery(conj,false,e2,mv2,true); if(!e2.fpAbs.empty()&&runZ3(q2,tmo,mv2,nullptr)==UNSAT){ st.relaxed++; r=UNSAT; } }
  if(r==UNKNOWN) r=runZ3(q,tmo,mv,m);
  if(r==UNKNOWN&&deep&&!m){ r=runExt({"cvc5","--lang=smt2"},q,tmo); if(r==UNKNOWN&&pureReal) r=runExt({"z3","-in"},q,tmo); }
  if(!m) qcache[q]=r;
  return r; }

// ------------------------------------------------------------------------------------------------ numeric evaluation (candidate search only)
struct NumEval { std::map<std::string,long double> in; std::map<std::string,uint64_t> bv; std::unordered_map<int,long double> at; std::unordered_map<N,long double> fm;
  long double atom(int v){ auto it=at.find(v); if(it!=at.end()) return it->second; auto&A=PS.atoms[v]; long double r=0;
    switch(A.kind){ case Atom::Input: case Atom::UF: case Atom::Aux: { auto f=in.find(A.name); if(f!=in.end()) r=f->second; else { long double lo=A.hasLo?A.lo.get_d():-10,hi=A.hasHi?A.hi.get_d():10; r=lo+(hi-lo)*0.37L; } break; }
      case Atom::Sqrt: { long double x=poly(A.radicand); r=x>0?sqrtl(x):0; break; } case Atom::Cos: r=cosl(rf(A.arg)); break; case Atom::Sin: r=sinl(rf(A.arg)); break; case Atom::Exp: r=expl(rf(A.arg)); break; case Atom::Log: r=logl(rf(A.arg)); break; case Atom::Angle: r=atan2l(rf(A.args[0]),rf(A.args[1])); break; }
    at[v]=r; return r; }
  long double poly(P p){ long double s=0; for(auto&t:p->t){ long double m=t.second.get_d(); for(auto&x:PS.monos[t.first].v){ long double a=atom(x.first); for(int i=0;i<x.second;i++) m*=a; } s+=m; } return s; }
  long double rf(R r){ long double d=1; for(auto&f:r->d){ long double a=poly(f.first); for(int i=0;i<f.second;i++) d*=a; } return poly(r->n)/d; }
  bool b(N n){ switch(n->op){ case N_CONST: return n->c; case N_PCMP: { long double v=poly(n->poly); return n->rel==REL_GT?v>0:n->rel==REL_GE?v>=0:n->rel==REL_EQ?v==0:v!=0; } case N_NOT: return !b(n->k[0]); case N_AND: return b(n->k[0])&&b(n->k[1]); case N_OR: return b(n->k[0])||b(n->k[1]); case N_BXOR: return b(n->k[0])!=b(n->k[1]); default: throw Unsupported("numeval"); } } };

// ------------------------------------------------------------------------------------------------ forking
static bool feasible(N c){ Res r=solve(PC,{c},tBranch); return r!=UNSAT; }
static void timeCheck(){ if(since(tStart)>tTotal) throw PathEnd{"budget","time budget exhausted"}; }
static bool decide(N c){
  if(isC(c)) return c->c; if(PCset.count(c)) return true; N nc=nNot(c); if(PCset.count(nc)) return false;
  st.decisions++;
  if(decPos<prefix.size()){ bool t=prefix[decPos].taken; cur.push_back(prefix[decPos]); decPos++; pcAdd(t?c:nc); return t; }
  timeCheck();
  bool t=feasible(c), f=t?feasible(nc):true;
  if(!t&&!f) throw PathEnd{"infeasible",""};
  bool take=t; bool both=t&&f; cur.push_back({take,both,0,""}); decPos++; prefix.push_back(cur.back());
  if(both){ st.forks++; auto alt=cur; alt.back().taken=false; work.push_back(alt); }
  pcAdd(take?c:nc); return take; }
// enumerate values: decision carries candidate value
static int64_t concretizeBV(N n,const char* why){ if(isC(n)) return n->c;
  for(;;){ 
    if(decPos<prefix.size()){ auto d=prefix[decPos]; cur.push_back(d); decPos++; N c=nICmp(N_EQ,n,nBV(d.v,n->sort)); pcAdd(d.taken?c:nNot(c)); if(d.taken) return d.v; continue; }
    timeCheck(); N tmp=nVar("vpconc"+std::to_string(n->sort),n->sort); Model m; std::vector<N> g={nICmp(N_EQ,tmp,n)}; Res r=solve(PC,g,tAssert,&m,true); if(r==UNSAT) throw PathEnd{"infeasible",""}; if(r==UNKNOWN||!m.bv.count(tmp->name)) throw PathEnd{"unknown",std::string("cannot concretise: ")+why};
    int64_t v=m.bv[tmp->name]; N c=nICmp(N_EQ,n,nBV(v,n->sort)); bool other=solve(PC,{nNot(c)},tBranch)!=UNSAT; Decision d{true,other,v,""}; cur.push_back(d); decPos++; prefix.push_back(d); if(other){ st.forks++; auto alt=cur; alt.back().taken=false; work.push_back(alt); } pcAdd(c); return v; } }
// integer part of a real: returns k with k <= x < k+1
static int64_t floorReal(R x){
  if(x->isConst()) return mpz_class(x->n->cst().get_num()/1).fits_slong_p()?(long)std::floor(x->n->cst().get_d()):0;
  auto inK=[&](int64_t k){ return nAnd(rCmp(rSub(x,rConst(mpq_class((long)k))),REL_GE),rCmp(rSub(rConst(mpq_class((long)k+1)),x),REL_GT)); };
  for(int guard=0;guard<4000;guard++){
    if(decPos<prefix.size()){ auto d=prefix[decPos]; cur.push_back(d); decPos++; N c=inK(d.v); pcAdd(d.taken?c:nNot(c)); if(d.taken) return d.v; continue; }
    timeCheck(); int64_t v; Iv iv=ivRF(x); bool got=false;
    if(iv.lo&&iv.hi){ mpz_class a,b; mpz_fdiv_q(a.get_mpz_t(),iv.l.get_num_mpz_t(),iv.l.get_den_mpz_t()); mpz_fdiv_q(b.get_mpz_t(),iv.h.get_num_mpz_t(),iv.h.get_den_mpz_t()); if(b-a<=64){ // scan
        for(mpz_class k=a;k<=b;k++){ N c=inK(k.get_si()); if(PCset.count(nNot(c))) continue; if(solve(PC,{c},tBranch)!=UNSAT){ v=k.get_si(); got=true; break; } } if(!got) throw PathEnd{"infeasible",""}; } }
    if(!got){ static int aux=0; (void)aux; Atom A; A.kind=Atom::Input; A.name="vpfloor"; int ai=-1; for(size_t i=0;i<PS.atoms.size();i++) if(PS.atoms[i].name=="vpfloor") ai=i; if(ai<0){ ai=PS.atoms.size(); PS.atoms.push_back(A); } Model m; Res r=solve(PC,{rCmp(rSub(x,rPoly(pVar(ai))),REL_EQ)},tAssert,&m); if(r==UNSAT) throw PathEnd{"infeasible",""}; if(r==UNKNOWN||!m.real.count("vpfloor")) throw PathEnd{"unknown","cannot take integer part"}; v=(int64_t)std::floor(m.real["vpfloor"].get_d()); }
    N c=inK(v); bool other=solve(PC,{nNot(c)},tBranch)!=UNSAT; Decision d{true,other,v,""}; cur.push_back(d); decPos++; prefix.push_back(d); if(other){ st.forks++; auto alt=cur; alt.back().taken=false; work.push_back(alt); } pcAdd(c); return v; }
  throw PathEnd{"unknown","too many integer parts"}; }

// ------------------------------------------------------------------------------------------------ atoms
static std::map<std::string,int> atomByKey;
static int newAtom(const std::string& key, std::function<Atom()> mk){ auto it=atomByKey.find(key); if(it!=atomByKey.end()) return it->second; Atom a=mk(); int id=PS.atoms.size(); PS.atoms.push_back(a); atomByKey[key]=id; return id; }
static mpq_class qd(double d){ if(!std::isfinite(d)) throw Unsupported("infinite value where a real number is needed"); return mpq_class(d); }
static R rSqrtP(P n){ // sqrt of a polynomial known >= 0 on this path
  if(n->isConst()){ mpq_class r; if(qSqrt(n->cst(),r)) return rConst(r); return rConstD(std::sqrt(n->cst().get_d())); }
  // content: largest square rational factor so that scaled radicands share an atom
  if(P s=pSqrt(n)){ R x=rPoly(s); return decide(rCmp(x,REL_GE))?x:rNeg(x); }
  mpq_class lc=pCoef(n,pLead(n)); mpq_class sc=abs(lc), rt; R mul=nullptr;
  if(qSqrt(sc,rt)){ n=pScale(n,1/sc); mul=rConst(rt); }
  // square monomial content
  std::map<int,int> mn; bool first=true; for(auto&p:n->t){ std::map<int,int> c; for(auto&q:PS.monos[p.first].v) c[q.first]=q.second; if(first){mn=c;first=false;} else for(auto it=mn.begin();it!=mn.end();){ auto g=c.find(it->first); if(g==c.end()) it=mn.erase(it); else { it->second=std::min(it->second,g->second); ++it; } } }
  for(auto&q:mn) if(q.second>=2){ int e=q.second/2; std::vector<std::pair<MonoId,mpq_class>> t; t.push_back({PS.mono({{q.first,2*e}}),1}); P d=PT.intern(std::move(t)); n=pDivExact(n,d); R v=rPoly(pVar(q.first)); R pw=v; for(int i=1;i<e;i++) pw=rMul(pw,v); if(e%2&&!decide(rCmp(v,REL_GE))) pw=rNeg(pw); mul=mul?rMul(mul,pw):pw; }
  int id=newAtom("sqrt:"+std::to_string(n->id),[&]{ Atom a; a.kind=Atom::Sqrt; a.name="r"+std::to_string(PS.atoms.size()); a.radicand=n; a.sq=n; Iv i=ivPoly(n); a.hasLo=true; a.lo=0; if(i.lo&&sgn(i.l)>0) a.lo=qd(std::sqrt(i.l.get_d())*(1-1e-14)); if(i.hi){ a.hasHi=true; a.hi=qd(std::sqrt(i.h.get_d())*(1+1e-14)+1e-300); } return a; });
  R r=rPoly(pVar(id)); return mul?rMul(mul,r):r; }
static Val vSqrt(R x){ if(!decide(rCmp(x,REL_GE))) return Val::F(NAN);
  P n=x->n; std::vector<std::pair<P,int>> half; for(auto&f:x->d){ if(f.second%2) n=pMul(n,f.first); half.push_back({f.first,(f.second+1)/2}); }
  R num=rSqrtP(n); R den=rConst(1); for(auto&f:half){ R fr=rPoly(f.first); if(f.second%2&&!decide(rCmp(fr,REL_GE))) fr=rNeg(fr); for(int i=0;i<f.second;i++) den=rMul(den,i==0?fr:rPoly(f.first)); if(f.second%2==0){} }
  // even powers: |f|^2k = f^2k ; odd powers: first factor carries the sign
  R r=rDiv(num,den); if(r->isConst()) return Val::F(r->n->cst().get_d()); return Val::S(r); }

// trig ----------------------------------------------------------------------
struct TrigBase { mpq_class b; R c,s; };
static std::map<uint64_t,std::vector<TrigBase>> trigBases;   // key: RF id of monomial/den
static const double PI_D=3.14159265358979323846;
static std::pair<R,R> trigMul(int n,R c,R s){ bool neg=n<0; n=std::abs(n); R C=rConst(1),S=rConst(0); for(int i=0;i<n;i++){ R c2=rSub(rMul(C,c),rMul(S,s)); R s2=rAdd(rMul(S,c),rMul(C,s)); C=c2; S=s2; } return {C,neg?rNeg(S):S}; }
static std::pair<R,R> cosSin(R x){
  R C=rConst(1),S=rConst(0); auto rot=[&](R c,R s){ R c2=rSub(rMul(C,c),rMul(S,s)); R s2=rAdd(rMul(S,c),rMul(C,s)); C=c2; S=s2; };
  for(auto&t:x->n->t){
    std::vector<std::pair<MonoId,mpq_class>> one; one.push_back({t.first,1}); R key=rMake(PT.intern(std::move(one)),x->d);
    if(key->isConst()){ double c=mpq_class(t.second*key->n->cst()).get_d(); double k=c/(PI_D/2); double kr=std::round(k); if(std::fabs(k-kr)<1e-12*std::max(1.0,std::fabs(k))){ int q=((long)kr%4+4)%4; rot(rConst(q==0?1:q==2?-1:0),rConst(q==1?1:q==3?-1:0)); } else rot(rConstD(std::cos(c)),rConstD(std::sin(c))); continue; }
    mpq_class q=t.second; auto&L=trigBases[key->id]; TrigBase* found=nullptr; int n=0;
    if(L.empty()&&key->d.empty()&&PS.monos[key->n->t[0].first].v.size()==1){ int v=PS.monos[key->n->t[0].first].v[0].first; auto&A=PS.atoms[v]; if(A.kind==Atom::Angle&&PS.monos[key->n->t[0].first].v[0].second==1) L.push_back({1,A.args[1],A.args[0]}); }
    for(auto&tb:L){ double k=mpq_class(q/tb.b).get_d(), kr=std::round(k); if(std::fabs(kr)>=1&&std::fabs(kr)<=64&&std::fabs(k-kr)<=1e-11*std::fabs(kr)){ found=&tb; n=(int)kr; break; } }
    if(!found){ mpq_class b=q/2; R arg=rMul(key,rConst(b)); std::string ks=std::to_string(arg->id); 
      int si=newAtom("sin:"+ks,[&]{ Atom a; a.kind=Atom::Sin; a.name="s"+std::to_string(PS.atoms.size()); a.arg=arg; a.hasLo=a.hasHi=true; a.lo=-1; a.hi=1; return a; });
      int ci=newAtom("cos:"+ks,[&]{ Atom a; a.kind=Atom::Cos; a.name="c"+std::to_string(PS.atoms.size()); a.arg=arg; a.hasLo=a.hasHi=true; a.lo=-1; a.hi=1; P s=pVar(si); a.sq=pSub(pConst(1),pMul(s,s)); return a; });
      PS.atoms[si].mate=ci; PS.atoms[ci].mate=si; L.push_back({b,rPoly(pVar(ci)),rPoly(pVar(si))}); found=&L.back(); n=2; }
    auto cs=trigMul(n,found->c,found->s); rot(cs.first,cs.second); }
  return {C,S}; }
static Val vR(R r){ if(r->isConst()) return Val::F(r->n->cst().get_d()); return Val::S(r); }
static R toR(const Val& v){ if(v.k==Val::Real) return v.r(); if(v.k==Val::Fp){ if(!std::isfinite(v.f)) throw Unsupported("non-finite value in real term"); 
    double hi=(double)v.f; mpq_class q(hi); long double rest=v.f-(long double)hi; if(rest!=0) q+=mpq_class((double)rest); return rConst(q);} throw Unsupported("not a real"); }
static Val mkAngle(const std::string& key,R s,R c,double lo,double hi){ int id=newAtom(key,[&]{ Atom a; a.kind=Atom::Angle; a.name="ang"+std::to_string(PS.atoms.size()); a.args={s,c}; a.hasLo=a.hasHi=true; a.lo=qd(lo); a.hi=qd(hi); return a; }); return Val::S(rPoly(pVar(id))); }
static Val vAtan2(R y,R x){ bool y0=decide(rCmp(y,REL_EQ)); 
  if(y0) { if(decide(rCmp(x,REL_GE))) return Val::F(0.0); return Val::F(PI_D); }
  if(decide(rCmp(x,REL_EQ))) return Val::F(decide(rCmp(y,REL_GT))?PI_D/2:-PI_D/2);
  Val r=vSqrt(rAdd(rMul(x,x),rMul(y,y))); R rr=toR(r); R s=rDiv(y,rr),c=rDiv(x,rr);
  bool yp=decide(rCmp(y,REL_GT)), xp=decide(rCmp(x,REL_GT));
  double lo=yp?(xp?0:PI_D/2):(xp?-PI_D/2:-PI_D), hi=yp?(xp?PI_D/2:PI_D):(xp?0:-PI_D/2);
  return mkAngle("atan2:"+std::to_string(s->id)+":"+std::to_string(c->id)+(yp?"p":"n")+(xp?"p":"n"),s,c,lo,hi); }

// UF ------------------------------------------------------------------------
static std::string safe(const std::string& s){ std::string r; for(char c:s) r+=isalnum((unsigned char)c)?c:'_'; return r; }
static R ufApp(const std::string& f,const std::vector<R>& args,double lo=-1e6,double hi=1e6){ if(f=="EI"){ lo=-1e11; hi=1e11; }  std::string key="uf:"+f; for(auto a:args) key+=":"+std::to_string(a->id); int id=newAtom(key,[&]{ Atom a; a.kind=Atom::UF; a.uf=f; a.args=args; a.name="uf_"+safe(f)+std::to_string(PS.atoms.size()); a.hasLo=a.hasHi=true; a.lo=qd(lo); a.hi=qd(hi); return a; }); return rPoly(pVar(id)); }
// exp(sum): split the constant part and sign so that exp(-t) = 1/exp(t), exp(n t) = exp(t)^n
static std::map<uint64_t,std::vector<std::pair<mpq_class,int>>> expBases;
static R rExp(R x){ R res=rConst(1); for(auto&t:x->n->t){ std::vector<std::pair<MonoId,mpq_class>> one; one.push_back({t.first,1}); R key=rMake(PT.intern(std::move(one)),x->d); mpq_class q=t.second; if(key->isConst()){ res=rMul(res,rConstD(std::exp(mpq_class(q*key->n->cst()).get_d()))); continue; }
    auto&L=expBases[key->id]; int at=-1,n=0; for(auto&b:L){ double k=mpq_class(q/b.first).get_d(),kr=std::round(k); if(std::fabs(kr)>=1&&std::fabs(kr)<=32&&std::fabs(k-kr)<=1e-11*std::fabs(kr)){ at=b.second;n=(int)kr;break; } }
    if(at<0){ mpq_class b=abs(q); R arg=rMul(key,rConst(b)); Iv iv=ivRF(arg); at=newAtom("exp:"+std::to_string(arg->id),[&]{ Atom a; a.kind=Atom::Exp; a.name="e"+std::to_string(PS.atoms.size()); a.arg=arg; a.hasLo=true; a.lo=0; if(iv.lo&&iv.l>-700) a.lo=qd(std::exp(iv.l.get_d())*(1-1e-13)); if(iv.hi&&iv.h<700){ a.hasHi=true; a.hi=qd(std::exp(iv.h.get_d())*(1+1e-13)); } return a; }); L.push_back({b,at}); n=sgn(q); }
    R e=rPoly(pVar(at)); for(int i=0;i<std::abs(n);i++) res=n>0?rMul(res,e):rDiv(res,e); }
  return res; }
// log(c p) = log p + log c for the leading coefficient c (log c rounded to a double), log(c/p^k) = log c - k log p
static R rLog(R x){ R add=rConst(0); int k=1; if(!x->isConst()&&!x->n->t.empty()){ if(x->n->isConst()&&x->d.size()==1&&sgn(x->n->cst())>0){ mpq_class c=x->n->cst(); k=-x->d[0].second; x=rPoly(x->d[0].first); add=rConstD(std::log(c.get_d())); }
    mpq_class c=abs(x->n->t.back().second); double cd=c.get_d(); if(c!=1&&cd>1e-200&&cd<1e200){ x=rMul(x,rConst(1/c)); add=rAdd(add,rConstD(k*std::log(cd))); } }
  Iv iv=ivRF(x); int at=newAtom("log:"+std::to_string(x->id),[&]{ Atom a; a.kind=Atom::Log; a.name="l"+std::to_string(PS.atoms.size()); a.arg=x; if(iv.lo&&sgn(iv.l)>0){ a.hasLo=true; a.lo=qd(std::log(iv.l.get_d())-1e-13); } if(iv.hi&&sgn(iv.h)>0){ a.hasHi=true; a.hi=qd(std::log(iv.h.get_d())+1e-13); } return a; }); return rAdd(rMul(rPoly(pVar(at)),rConst(k)),add); }

#include "interp.inc"
