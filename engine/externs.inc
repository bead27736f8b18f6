// ------------------------------------------------------------------------------------------------ external functions
static std::vector<std::string> errors; static void errors_(const std::string& m){ errors.push_back(m); }
static Val cplx(R re,R im){ return Val::A({vR(re),vR(im)}); }
static bool isFn(const std::string& d,const char*p){ return d.rfind(p,0)==0; }
static Val symInput(const std::string& name,double lo,double hi,bool flt){
  auto it=inputIx.find(name); if(it!=inputIx.end()){ auto&i=inputs[it->second]; if(concreteMode) return Val::F(strtod(concreteIn[name].c_str(),0)); return i.kind==0?Val::S(rPoly(pVar(i.atom))):Val::B(i.node); }
  Input i; i.name=name; i.lo=lo; i.hi=hi;
  if(concreteMode){ i.kind=0; i.atom=0; inputIx[name]=inputs.size(); auto c=concreteIn.find(name); double v=c==concreteIn.end()?lo+(hi-lo)*0.37:strtod(c->second.c_str(),0); concreteIn[name]=hexd(v); inputs.push_back(i); return Val::F(v); }
  if(!IEEE){ if(lo==hi) { i.kind=0; }
    int a=newAtom("in:"+name,[&]{ Atom x; x.kind=Atom::Input; x.name="in_"+safe(name); x.hasLo=x.hasHi=true; x.lo=qd(lo); x.hi=qd(hi); return x; }); i.kind=0; i.atom=a; inputIx[name]=inputs.size(); inputs.push_back(i); return Val::S(rPoly(pVar(a))); }
  i.kind=2; i.node=nVar("in_"+safe(name),flt?S_F32:S_F64); inputIx[name]=inputs.size(); inputs.push_back(i); pcAdd(nMk(N_FLE,S_BOOL,{nF(lo,i.node->sort),i.node})); pcAdd(nMk(N_FLE,S_BOOL,{i.node,nF(hi,i.node->sort)})); return Val::B(i.node); }
static const std::set<std::string> m1={"sin","cos","tan","asin","acos","atan","exp","log","log10","log2","sqrt","fabs","floor","ceil","trunc","round","rint","nearbyint","sinh","cosh","tanh","exp2","exp10","expm1","log1p","cbrt","tgamma","lgamma","asinh","acosh","atanh","logb"}, m2={"atan2","pow","fmod","hypot","copysign","fmin","fmax","remainder","drem","fdim","nextafter"};
static void doExit(int64_t code){ if(exitExpect.on){ reached[exitExpect.id]++; st.obligations++; if(exitExpect.code==code||(exitExpect.code==VP_ABORT+1)){ st.concrete++; throw PathEnd{"done","expected exit"}; } event("exit:"+exitExpect.id,"process terminated with status "+std::to_string(code)+", expected "+std::to_string(exitExpect.code)); } event("exit","process terminated with status "+std::to_string(code)); }
static void doAbort(const std::string& why){ if(exitExpect.on){ reached[exitExpect.id]++; st.obligations++; if(exitExpect.code==VP_ABORT||exitExpect.code==VP_ABORT+1){ st.concrete++; throw PathEnd{"done","expected abort"}; } event("abort:"+exitExpect.id,why); } event("abort",why); }

// p as a linear form over one fresh variable per monomial, each ranging over the interval of its monomial (rounded outwards);
// coefficients are rounded to doubles, |p - form| <= slack on the whole box
static std::string linAbs(P p,std::ostringstream& decl,mpq_class& slack,std::set<MonoId>* seen=nullptr,double tol=0){ mpq_class qu=0; if(tol>0){ mpq_class sm=0; for(auto&t:p->t){ Iv i=ivMono(t.first); if(i.lo&&i.hi){ mpq_class l=abs(i.l),h=abs(i.h); sm+=l>h?l:h; } } if(sgn(sm)>0) qu=qd(std::ldexp(1.0,(int)std::floor(std::log2(tol/10000/sm.get_d())))); }
  std::string s="(+ 0.0"; for(auto&t:p->t){ mpq_class c=t.second; if(t.first==0){ s+=" "+qStr(c); continue; } Iv i=ivMono(t.first);
    if(i.lo&&i.hi){ mpq_class l=abs(i.l),h=abs(i.h); mpq_class m=l>h?l:h; mpq_class c2; if(sgn(qu)){ mpq_class k=c/qu+mpq_class(1,2); mpz_class z; mpz_fdiv_q(z.get_mpz_t(),k.get_num().get_mpz_t(),k.get_den().get_mpz_t()); c2=qu*z; } else c2=qd(c.get_d()); slack+=abs(c-c2)*m; c=c2; if(!sgn(c)) continue; }
    std::string nm="m"+std::to_string(t.first); if(!seen||seen->insert(t.first).second){ decl<<"(declare-fun "<<nm<<" () Real)\n"; auto dn=[](const mpq_class& q){ mpq_class r=qd(q.get_d()); if(r>q) r=r-abs(r)/1000000000000; return r; }; auto up=[&](const mpq_class& q){ return mpq_class(-dn(-q)); }; if(i.lo) decl<<"(assert (>= "<<nm<<" "<<qStr(dn(i.l))<<"))\n"; if(i.hi) decl<<"(assert (<= "<<nm<<" "<<qStr(up(i.h))<<"))\n"; }
    s+=" (* "+qStr(c)+" "+nm+")"; } return s+")"; }
// the obligation folded by the engine's normal form: let the solver decide the same statement from the two sides
static bool solverConfirm(R a,R b,double tol){
  size_t sz=a->n->t.size()+b->n->t.size(); for(auto&f:a->d) sz+=f.first->t.size()*f.second; for(auto&f:b->d) sz+=f.first->t.size()*f.second; if(sz>1500) return false;
  Emit em; std::set<int> at; auto den=[&](R r){ std::string s="(* 1.0"; for(auto&f:r->d){ em.usePoly(f.first); for(int i=0;i<f.second;i++) s+=" "+pStr(f.first); } return s+")"; };
  em.usePoly(a->n); em.usePoly(b->n); R d=rSub(a,b); std::string as; bool lin=false; std::ostringstream o; std::vector<std::string> mv;
  if(d->n->isZero()){ as="(distinct (* "+pStr(a->n)+" "+den(b)+") (* "+pStr(b->n)+" "+den(a)+"))"; at=em.atomsUsed; atomClosure(at); o<<"(set-logic QF_NRA)\n"; for(int v:at) o<<"(declare-fun "<<PS.atoms[v].name<<" () Real)\n"; for(int v:at){ auto&A=PS.atoms[v]; if(A.sq) o<<"(assert (= (* "<<A.name<<" "<<A.name<<") "<<pStr(A.sq)<<"))\n"; } o<<"(assert "<<as<<")\n"; }
  else { if(!d->d.empty()) return false; o<<"(set-logic QF_LRA)\n"; mpq_class slack=0; std::string s=linAbs(d->n,o,slack,nullptr,tol); mpq_class t=qd(tol)-slack; if(sgn(t)<=0) return false; t=qd(t.get_d()*(1-1e-12)); o<<"(assert (or (> "<<s<<" "<<qStr(t)<<") (< "<<s<<" "<<qStr(-t)<<")))\n"; }
  static std::unordered_map<std::string,int> cache; std::string q=o.str(); auto it=cache.find(q); if(it!=cache.end()) return it->second==UNSAT; Res r=runZ3(q,2,mv,nullptr); cache[q]=r; if(r==SAT&&d->n->isZero()) errors_("normal form and solver disagree"); return r==UNSAT; }
static void nearCheck(const Val&a,const Val&b,double tol,const std::string& id){
  if(a.k==Val::Undef||b.k==Val::Undef){ reached[id]++; st.obligations++; event("uninit:"+id,"assertion on an uninitialised value"); }
  if(a.k==Val::Fp&&b.k==Val::Fp){ reached[id]++; st.obligations++; st.concrete++; long double d=fabsl(a.f-b.f); bool ok=(std::isinf(a.f)&&a.f==b.f)||d<=tol; if(!ok) event("assert:"+id,"values "+hexd17(a.f)+" and "+hexd17(b.f)+" differ by more than "+hexd17(tol)); return; }
  if(IEEE){ N x=a.k==Val::Fp?nF(a.f,S_F64):a.n(), y=b.k==Val::Fp?nF(b.f,S_F64):b.n(); N d=nMk(N_FABS,x->sort,{nMk(N_FSUB,x->sort,{x,y})}); obligation(id,{nNot(nMk(N_FLE,S_BOOL,{d,nF(tol,x->sort)}))},"near"); return; }
  if((a.k==Val::Fp&&!std::isfinite(a.f))||(b.k==Val::Fp&&!std::isfinite(b.f))){ obligation(id,{nBool(true)},"non-finite value compared with a finite one"); return; }
  R d=rSub(toR(a),toR(b)); auto bad=[&](double t){ R q=rConstD(t); return nOr(rCmp(rSub(d,q),REL_GT),rCmp(rSub(rNeg(d),q),REL_GT)); };
  if(samples.size()<4) samples.push_back(id+": |"+rfText(d)+"| <= "+hexd17(tol)+"  ["+std::to_string(PC.size())+" path conditions]");
  size_t fl0=foldLog.size(); N b0=bad(tol); if(isFalse(b0)&&solverConfirm(toR(a),toR(b),tol)){ foldLog.resize(fl0); st.obligations++; reached[id]++; st.bySolver++; return; }
  obligation(id,{bad(std::max(0.1,tol*1000)),bad(std::max(1e-4,tol*1000)),bad(tol*1000),bad(tol)},"|"+rfText(d)+"| <= "+hexd17(tol)); }

static bool extCall(Function*F,const std::string& n,const std::string& d,std::vector<Val>& a,Type*T,Val& r,CallBase*CB){
  auto C=[&](int i){ return cint(a[i],"argument"); };
  auto D=[&](int i)->double{ if(a[i].k!=Val::Fp) throw Unsupported("symbolic bound"); return (double)a[i].f; };
  // ---- harness API
  if(n.rfind("vp_",0)==0){
    if(n=="vp_sym"){ r=symInput(cstr(C(0)),D(1),D(2),false); return true; }
    if(n=="vp_symi"){ r=symInput(cstr(C(0))+"_"+std::to_string((int64_t)sx(C(1),32)),D(2),D(3),false); return true; }
    if(n=="vp_symij"){ r=symInput(cstr(C(0))+"_"+std::to_string((int64_t)sx(C(1),32))+"_"+std::to_string((int64_t)sx(C(2),32)),D(3),D(4),false); return true; }
    if(n=="vp_symf"){ r=symInput(cstr(C(0)),D(1),D(2),true); return true; }
    if(n=="vp_int"){ std::string nm=cstr(C(0)); int64_t lo=C(1),hi=C(2); Input i; i.name=nm; i.kind=1; i.ilo=lo; i.ihi=hi; if(concreteMode){ r=Val::I(strtoll(concreteIn[nm].c_str(),0,10)); inputs.push_back(i); return true; } auto it=inputIx.find(nm); if(it!=inputIx.end()){ r=Val::B(inputs[it->second].node); return true; } i.node=nVar("in_"+safe(nm),64); inputIx[nm]=inputs.size(); inputs.push_back(i); pcAdd(nICmp(N_SLE,nBV(lo,64),i.node)); pcAdd(nICmp(N_SLE,i.node,nBV(hi,64))); r=Val::B(i.node); return true; }
    if(n=="vp_pick"){ std::string nm=cstr(C(0)); int64_t lo=C(1),hi=C(2); Input i; i.name=nm; i.kind=3; if(concreteMode){ i.pick=strtoll(concreteIn[nm].c_str(),0,10); } else if(decPos<prefix.size()){ i.pick=prefix[decPos].v; cur.push_back(prefix[decPos]); decPos++; } else { i.pick=lo; for(int64_t k=hi;k>lo;k--){ auto alt=cur; alt.push_back({true,true,k,"pick"}); work.push_back(alt); st.forks++; } Decision dd{true,lo<hi,lo,"pick"}; cur.push_back(dd); prefix.push_back(dd); decPos++; } inputIx[nm]=inputs.size(); inputs.push_back(i); r=Val::I(i.pick); return true; }
    if(n=="vp_assume"){ const Val&c=a[0]; if(c.k==Val::Undef) event("uninit","assumption on an uninitialised value"); if(c.k==Val::Int){ if(!(c.u&1)) throw PathEnd{"infeasible","assume"}; return true; } N q=c.n(); if(q->sort!=S_BOOL) q=nNot(nICmp(N_EQ,q,nBV(0,q->sort))); if(isFalse(q)) throw PathEnd{"infeasible","assume"}; if(!PCset.count(q)){ if(decPos>=prefix.size()&&solve(PC,{q},tBranch)==UNSAT) throw PathEnd{"infeasible","assume"}; pcAdd(q); } return true; }
    if(n=="vp_assert"){ std::string id=cstr(C(1)); const Val&c=a[0]; if(c.k==Val::Undef){ reached[id]++; st.obligations++; event("uninit:"+id,"assertion on an uninitialised value"); } if(c.k==Val::Int){ reached[id]++; st.obligations++; st.concrete++; if(!(c.u&1)) event("assert:"+id,"assertion is false"); return true; } N q=c.n(); if(q->sort!=S_BOOL) q=nNot(nICmp(N_EQ,q,nBV(0,q->sort))); obligation(id,{nNot(q)},"assertion"); return true; }
    if(n=="vp_near"){ nearCheck(a[0],a[1],D(2),cstr(C(3))); return true; }
    if(n=="vp_exit_begin"){ exitExpect.on=true; exitExpect.id=cstr(C(0)); exitExpect.code=(int)sx(C(1),32); return true; }
    if(n=="vp_exit_end"){ reached[exitExpect.id]++; st.obligations++; std::string id=exitExpect.id; exitExpect.on=false; event("noexit:"+id,"the call returned although the process had to terminate"); }
    if(n=="vp_exit_clear"){ exitExpect.on=false; return true; }
    if(n=="vp_uf1"||n=="vp_uf2"){ std::string f=cstr(C(0)); std::vector<R> ar; for(size_t i=1;i<a.size();i++) ar.push_back(toR(a[i])); r=vR(ufApp(f,ar)); return true; }
    if(n=="vp_is_engine"){ r=Val::I(1); return true; }
    if(n=="vp_log"){ if(verbose){ fprintf(stderr,"log %s ",cstr(C(0)).c_str()); if(a[1].k==Val::Fp) fprintf(stderr,"%.17Lg\n",a[1].f); else if(a[1].k==Val::Real) fprintf(stderr,"%s\n",rfText(a[1].r()).c_str()); else fprintf(stderr,"?\n"); } return true; }
    if(n=="vp_fork_bool"){ r=Val::I(truth(a[0])); return true; }
    if(n=="vp_near_out"){ return true; }
    return false; }
  // ---- memory
  if(n=="_Znwm"||n=="_Znam"||n=="malloc"||n=="_ZnwmSt11align_val_t"||n=="_ZnwmRKSt9nothrow_t"){ uint64_t sz=C(0); if(sz>(1ull<<28)){ throwType("_ZTISt9bad_alloc"); return true; } r=Val::I(newObj(sz,'h')); return true; }
  if(n=="calloc"){ uint64_t sz=C(0)*C(1); r=Val::I(newObj(sz,'h')); memset(objs.back()->s.data(),1,sz); return true; }
  if(n=="aligned_alloc"){ r=Val::I(newObj(C(1),'h')); return true; }
  if(n=="posix_memalign"){ uint64_t p=newObj(C(2),'h'); storeVal(C(0),Val::I(p),Type::getInt64Ty(ctx)); r=Val::I(0); return true; }
  if(n=="realloc"){ uint64_t o=C(0),sz=C(1); uint64_t p=newObj(sz,'h'); if(o){ Obj*q=objs[(o>>32)-1]; memCopy(p,o,std::min<uint64_t>(sz,q->size)); objs[(o>>32)-1]->alive=false; } r=Val::I(p); return true; }
  if(n=="_ZdlPv"||n=="_ZdlPvm"||n=="_ZdaPv"||n=="_ZdaPvm"||n=="free"||n=="_ZdlPvSt11align_val_t"||n=="_ZdlPvmSt11align_val_t"){ uint64_t p=C(0); if(!p) return true; uint32_t off; uint64_t id=p>>32; if(id==0||id>objs.size()||objs[id-1]->kind!='h') event("memory","invalid free"); if(!objs[id-1]->alive) event("memory","double free"); Obj*o=find(p,0,off,true); if(off!=0) event("memory","free of an interior pointer"); o->alive=false; return true; }
  if(n=="strlen"){ r=Val::I(cstr(C(0)).size()); return true; }
  if(n=="memcpy"||n=="memmove"){ memCopy(C(0),C(1),C(2)); r=a[0]; return true; }
  if(n=="memset"){ uint64_t sz=C(2); if(sz){ uint32_t off; Obj*o=find(C(0),sz,off,true); clearCells(o,off,sz); memset(&o->d[off],(int)C(1),sz); memset(&o->s[off],1,sz);} r=a[0]; return true; }
  if(n=="memcmp"||n=="bcmp"){ uint64_t m=C(2); for(uint64_t i=0;i<m;i++){ Val x=loadVal(C(0)+i,Type::getInt8Ty(ctx)),y=loadVal(C(1)+i,Type::getInt8Ty(ctx)); int p=cint(x,"byte"),q=cint(y,"byte"); if(p!=q){ r=Val::I((uint32_t)(p<q?-1:1)); return true; } } r=Val::I(0); return true; }
  if(n=="strcmp"){ std::string p=cstr(C(0)),q=cstr(C(1)); r=Val::I((uint32_t)(p<q?-1:p>q?1:0)); return true; }
  if(n=="memchr"){ uint64_t m=C(2); for(uint64_t i=0;i<m;i++) if(cint(loadVal(C(0)+i,Type::getInt8Ty(ctx)),"byte")==(C(1)&255)){ r=Val::I(C(0)+i); return true; } r=Val::I(0); return true; }
  // ---- C++ runtime
  if(n=="__cxa_allocate_exception"){ r=Val::I(newObj(std::max<uint64_t>(C(0),1),'h')); return true; }
  if(n=="__cxa_free_exception") return true;
  if(n=="__cxa_throw"){ exnObj=C(0); exnType=gnm(C(1)); unwinding=true; return true; }
  if(n=="__cxa_begin_catch"){ caught.push_back({exnObj,exnType}); r=a[0]; return true; }
  if(n=="__cxa_end_catch"){ if(!caught.empty()) caught.pop_back(); return true; }
  if(n=="__cxa_get_exception_ptr"){ r=a[0]; return true; }
  if(n=="__cxa_rethrow"){ if(caught.empty()) event("abort","rethrow without exception"); exnObj=caught.back().first; exnType=caught.back().second; unwinding=true; return true; }
  if(n=="__cxa_guard_acquire"){ Val v=loadVal(C(0),Type::getInt8Ty(ctx)); r=Val::I(v.k==Val::Int&&v.u==0); return true; }
  if(n=="__cxa_guard_release"){ storeVal(C(0),Val::I(1),Type::getInt8Ty(ctx)); return true; } if(n=="__cxa_guard_abort") return true;
  if(n=="__cxa_atexit"||n=="atexit"||n=="__cxa_thread_atexit"){ r=Val::I(0); return true; }
  if(n=="__cxa_pure_virtual"){ doAbort("pure virtual call"); return true; }
  if(n=="_ZSt9terminatev"){ doAbort("std::terminate"); return true; }
  if(n=="__cxa_bad_cast"||n=="__cxa_throw_bad_array_new_length"){ throwType(n=="__cxa_bad_cast"?"_ZTISt8bad_cast":"_ZTISt20bad_array_new_length"); return true; }
  if(n=="__gxx_personality_v0") return true;
  if(n=="__dynamic_cast"){ // (sub, src ti, dst ti, hint): single inheritance at offset 0
    uint64_t p=C(0); if(!p){ r=Val::I(0); return true; } uint64_t vt=cint(loadVal(p,Type::getInt64Ty(ctx)),"vtable"); uint64_t ti=cint(loadVal(vt-8,Type::getInt64Ty(ctx)),"typeinfo"); int64_t top=(int64_t)cint(loadVal(vt-16,Type::getInt64Ty(ctx)),"offset"); r=Val::I(derives(gnm(ti),gnm(C(2)))?p+top:0); return true; }
  if(n=="exit"||n=="_exit"||n=="quick_exit"){ doExit(sx(C(0),32)); return true; } if(n=="abort"){ doAbort("abort"); return true; }
  if(n=="__assert_fail"){ doAbort("assertion failed: "+cstr(C(0))); return true; }
  if(n=="printf"||n=="puts"||n=="putchar"||n=="fprintf"||n=="fflush"||n=="fputs"||n=="fwrite"||n=="fputc"){ r=Val::I(0); return true; }
  if(n=="__errno_location"){ static uint64_t e=0; if(!e||(e>>32)>objs.size()){ e=newObj(4,'g'); memset(objs.back()->s.data(),1,4);} r=Val::I(e); return true; }
  if(n.rfind("_ZSt20__throw_out_of_range",0)==0||n.rfind("_ZSt24__throw_out_of_range_fmt",0)==0){ throwType("_ZTISt12out_of_range"); return true; }
  if(n.rfind("_ZSt20__throw_length_error",0)==0){ throwType("_ZTISt12length_error"); return true; } if(n.rfind("_ZSt17__throw_bad_alloc",0)==0){ throwType("_ZTISt9bad_alloc"); return true; } if(n.rfind("_ZSt28__throw_bad_array_new_length",0)==0){ throwType("_ZTISt20bad_array_new_length"); return true; } if(n.rfind("_ZSt19__throw_logic_error",0)==0){ throwType("_ZTISt11logic_error"); return true; } if(n.rfind("_ZSt24__throw_invalid_argument",0)==0){ throwType("_ZTISt16invalid_argument"); return true; } if(n.rfind("_ZSt25__throw_bad_function_call",0)==0){ throwType("_ZTISt17bad_function_call"); return true; } if(n.rfind("_ZSt21__throw_runtime_error",0)==0){ throwType("_ZTISt13runtime_error"); return true; } if(n.rfind("_ZSt20__throw_domain_error",0)==0){ throwType("_ZTISt12domain_error"); return true; } if(n.rfind("_ZSt16__throw_bad_cast",0)==0){ throwType("_ZTISt8bad_cast"); return true; }
  { static const char*ex[]={"std::exception","std::out_of_range","std::length_error","std::logic_error","std::runtime_error","std::invalid_argument","std::domain_error","std::overflow_error","std::underflow_error","std::range_error","std::bad_alloc"}; for(auto e:ex) if(d.rfind(std::string(e)+"::",0)==0){ if(d.find("what")!=std::string::npos){ static uint64_t em=0; em=newObj(1,'h'); uint8_t z=0; storeBytes(em,&z,1); r=Val::I(em); } return true; } }
  if(isFn(d,"std::ios_base::")||isFn(d,"std::locale::")) { if(!T->isVoidTy()) r=T->isPointerTy()?Val::I(a.empty()?0:a[0].u):Val::I(0); return true; }
  if(d.find("std::basic_ostream<")!=std::string::npos||d.find("std::ostream")!=std::string::npos||d.find("Eigen::operator<<")!=std::string::npos||d.find("std::endl")!=std::string::npos){ if(T->isPointerTy()) r=a[0]; else if(!T->isVoidTy()) r=Val::I(0); return true; }
  // ---- boost special functions as uninterpreted symbols
  if(d.find("boost::math::")!=std::string::npos){ struct { const char*f; const char*u; } tb[]={{"cyl_bessel_j<","J"},{"cyl_neumann<","Y"},{"cyl_bessel_i<","I"},{"cyl_bessel_k<","K"},{"cyl_hankel_1<","H1"},{"cyl_hankel_2<","H2"},{"expint<","EI"},{"tgamma<","TG"}}; if(d.find("boost::math::tgamma<")!=std::string::npos&&!a.empty()&&a[0].k==Val::Fp){ stubsUsed.insert("boost::math::tgamma (libm at concrete arguments)"); r=Val::F(tgamma((double)a[0].f)); return true; } for(auto&e:tb) if(d.find(std::string("boost::math::")+e.f)!=std::string::npos){ std::vector<R> ar; for(unsigned i=0;i<a.size();i++){ Type*at=CB->getArgOperand(i)->getType(); if(at->isFloatingPointTy()) ar.push_back(toR(a[i])); else if(at->isIntegerTy()) ar.push_back(rConst(mpq_class((long)sx(C(i),at->getIntegerBitWidth())))); }
      stubsUsed.insert(std::string("boost::math::")+std::string(e.f).substr(0,strlen(e.f)-1)+" (uninterpreted)"); std::string u=e.u; if(u=="H1"||u=="H2"){ R j=ufApp("J",ar),y=ufApp("Y",ar); r=cplx(j,u=="H1"?y:rNeg(y)); return true; } if(u=="EI"&&ar.size()==2) u="EN"; r=vR(ufApp(u,ar)); return true; } return false; }
  // ---- libm
  { std::string b=n; if(b=="sincos"){ Val s=mathFn("sin",{a[0]},Type::getDoubleTy(ctx)),c=mathFn("cos",{a[0]},Type::getDoubleTy(ctx)); storeVal(C(1),s,Type::getDoubleTy(ctx)); storeVal(C(2),c,Type::getDoubleTy(ctx)); return true; }
    if(!m1.count(b)&&!m2.count(b)&&!b.empty()&&(b.back()=='f'||b.back()=='l')){ std::string c=b.substr(0,b.size()-1); if(m1.count(c)||m2.count(c)) b=c; }
    if(m1.count(b)){ r=mathFn(b,{a[0]},T); return true; } if(m2.count(b)){ r=mathFn(b,{a[0],a[1]},T); return true; } }
  if(n=="fma"||n=="fmaf"||n=="fmal"){ r=fpArith(Instruction::FAdd,fpArith(Instruction::FMul,a[0],a[1],T),a[2],T); if(a[0].k==Val::Fp&&a[1].k==Val::Fp&&a[2].k==Val::Fp&&T->isDoubleTy()) r=Val::F(fma((double)a[0].f,(double)a[1].f,(double)a[2].f)); return true; }
  if(n=="ilogb"&&a[0].k==Val::Fp){ r=Val::I((uint32_t)ilogb((double)a[0].f)); return true; }
  if(n=="__muldc3"||n=="__mulsc3"){ Type*E=Type::getDoubleTy(ctx); auto mul=[&](int i,int j){ return fpArith(Instruction::FMul,a[i],a[j],E); }; r=Val::A({fpArith(Instruction::FSub,mul(0,2),mul(1,3),E),fpArith(Instruction::FAdd,mul(0,3),mul(1,2),E)}); return true; }
  if(n=="__divdc3"||n=="__divsc3"){ Type*E=Type::getDoubleTy(ctx); auto op=[&](unsigned o,Val x,Val y){ return fpArith(o,x,y,E); }; Val dn=op(Instruction::FAdd,op(Instruction::FMul,a[2],a[2]),op(Instruction::FMul,a[3],a[3])); Val re=op(Instruction::FAdd,op(Instruction::FMul,a[0],a[2]),op(Instruction::FMul,a[1],a[3])),im=op(Instruction::FSub,op(Instruction::FMul,a[1],a[2]),op(Instruction::FMul,a[0],a[3])); r=Val::A({op(Instruction::FDiv,re,dn),op(Instruction::FDiv,im,dn)}); return true; }
  Type*E=Type::getDoubleTy(ctx);
  if(n=="cabs"){ r=mathFn("hypot",{a[0],a[1]},E); return true; } if(n=="carg"){ r=mathFn("atan2",{a[1],a[0]},E); return true; }
  if(n=="cexp"){ Val e=mathFn("exp",{a[0]},E); r=Val::A({fpArith(Instruction::FMul,e,mathFn("cos",{a[1]},E),E),fpArith(Instruction::FMul,e,mathFn("sin",{a[1]},E),E)}); return true; }
  if(n=="lround"||n=="llround"||n=="lrint"||n=="llrint"){ Val v=mathFn(n.find("rint")!=std::string::npos?"rint":"round",{a[0]},E); r=castOp(Instruction::FPToSI,v,E,T); return true; }
  if(n=="ldexp"||n=="scalbn"||n=="ldexpl"){ r=fpArith(Instruction::FMul,a[0],Val::F(ldexpl(1,sx(C(1),32))),T); return true; }
  if(n=="frexp"){ if(a[0].k!=Val::Fp) throw Unsupported("frexp"); int e; double m=frexp((double)a[0].f,&e); storeVal(C(1),Val::I((uint32_t)e),Type::getInt32Ty(ctx)); r=Val::F(m); return true; }
  if(n=="modf"){ Val t=mathFn("trunc",{a[0]},E); storeVal(C(1),t,E); r=fpArith(Instruction::FSub,a[0],t,E); return true; }
  return false; }

// ------------------------------------------------------------------------------------------------ driver
static std::string js(const std::string& s){ std::string r="\""; for(char c:s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if(c=='\n') r+="\\n"; else if((unsigned char)c<32) r+=' '; else r+=c; } return r+"\""; }
static int validationsLeft=3;
static void pathViolation(const PathEnd& e){ // an event that is itself a violation on this path: find inputs of the path and replay
  size_t c=e.kind.find(':'); std::string id=c==std::string::npos?e.kind:e.kind.substr(c+1), kind=c==std::string::npos?e.kind:e.kind.substr(0,c);
  if(PC.empty()&&inputs.empty()){ if(tryReplay(id,kind,e.detail,nullptr,nullptr)) return; }
  Model m; Res r=PC.empty()?SAT:solve(PC,{},tAssert,&m,false); if(r==UNSAT){ st.infeasible++; return; }
  if(r==SAT&&tryReplay(id,kind,e.detail,&m,nullptr)) return; std::map<std::string,long double> num; for(int k=0;k<4;k++) if(sampleFor(nBool(true),num,500)&&tryReplay(id,kind,e.detail,nullptr,&num)) return;
  if(r==UNKNOWN&&solve(PC,{},tAssert,nullptr,false,true)==UNSAT){ st.infeasible++; return; }
  st.undecided++; undecidedMsgs.push_back(id+": "+kind+" event not reproduced natively ("+e.detail+")"); }
static void validate(){ if(replayBin.empty()||validationsLeft<=0||concreteMode) return; Model m; Res r=PC.empty()?SAT:solve(PC,{},2,&m,false); std::map<std::string,long double> num; bool have=false; if(r!=UNSAT&&PC.size()<400&&sampleFor(nBool(true),num,60)) have=true; if(r!=SAT&&!have) return; validationsLeft--;
  std::string fn=writeInputs(have?nullptr:&m,have?&num:nullptr,candNo++); std::string out; int rc=runReplay(fn,out); if(rc==0){ st.validated++; unlink(fn.c_str()); } else if(rc==77||rc==76){ unlink(fn.c_str()); } else { st.validMismatch++; violations.push_back({"native","native","the native run of a witness of a proved path fails",fn,out.substr(0,1500),true}); } }
static int runCase(){
  Function*E=mod->getFunction("vpcase_"+caseName); if(!E){ fprintf(stderr,"no case %s\n",caseName.c_str()); return 3; }
  initGlobals();
  if(auto*G=mod->getNamedGlobal("llvm.global_ctors")) if(auto*A=dyn_cast<ConstantArray>(G->getInitializer())) for(auto&o:A->operands()){ auto*S=cast<ConstantStruct>(o); if(auto*CF=dyn_cast<Function>(S->getOperand(1)->stripPointerCasts())){ std::vector<Val> no; callFn(CF,no); } }
  baseObjs=objs.size(); initDone=true; work.push_back({}); bool stop=false;
  while(!work.empty()&&!stop){ prefix=work.back(); work.pop_back(); cur.clear(); decPos=0; PC.clear(); PCset.clear(); inputs.clear(); inputIx.clear(); callStack.clear(); unwinding=false; caught.clear(); instCount=0; depth=0; exitExpect=ExitExpect(); resetMemory();
    if((long)st.paths>=maxPaths){ st.undecided++; undecidedMsgs.push_back("path bound reached"); break; }
    st.paths++;
    try { std::vector<Val> a; if(E->arg_size()) a.push_back(Val::I((uint32_t)caseArg)); callFn(E,a); if(unwinding) throw PathEnd{"throw","uncaught exception "+dem(exnType.substr(0,4)=="_ZTI"?exnType:exnType)}; validate(); }
    catch(PathEnd&e){ if(verbose) fprintf(stderr,"path end: %s %s\n",e.kind.c_str(),e.detail.c_str());
      if(e.kind=="done") validate(); else if(e.kind=="infeasible") st.infeasible++; else if(e.kind=="violated") stop=true; else if(e.kind=="budget"){ st.undecided++; undecidedMsgs.push_back(e.detail); stop=true; if(e.detail.find("instruction")!=std::string::npos){ st.undecided--; undecidedMsgs.pop_back(); pathViolation({"hang",e.detail}); } } else if(e.kind=="unknown"){ st.undecided++; undecidedMsgs.push_back(e.detail); } else { try{ pathViolation(e); } catch(Unsupported&u){ errors.push_back(u.what()); } catch(PathEnd&e2){ st.undecided++; undecidedMsgs.push_back(e2.detail); stop=true; } } }
    catch(Unsupported&u){ errors.push_back(std::string(u.what())+" ["+where()+"]"); if(verbose) fprintf(stderr,"unsupported: %s\n",u.what()); if(errors.size()>3) stop=true; }
    st.inst+=instCount; if(!violations.empty()) stop=true; }
  return 0; }
// comparisons folded from variable ranges: the solver decides each of them again (batched, one fresh variable per monomial)
static void confirmFolds(){ if(IEEE||!violations.empty()) return; size_t i=0; while(i<foldLog.size()){ bool rounded=false; std::ostringstream decl,dis; std::set<MonoId> ms; size_t terms=0,j=i; dis<<"(assert (or false";
    for(;j<foldLog.size()&&j<i+200&&terms<20000;j++){ auto&f=foldLog[j]; Iv iv=ivPoly(f.p); terms+=f.p->t.size();
      if(iv.lo&&sgn(iv.l)>0){ mpq_class sl=0; std::string s=linAbs(f.p,decl,sl,&ms); rounded=true; dis<<" (<= "<<s<<" "<<qStr(sl)<<")"; continue; } if(iv.hi&&sgn(iv.h)<0){ mpq_class sl=0; std::string s=linAbs(f.p,decl,sl,&ms); rounded=true; dis<<" (>= "<<s<<" "<<qStr(-sl)<<")"; continue; }
      std::string s="(+ 0.0"; for(auto&t:f.p->t){ if(t.first==0){ s+=" "+qStr(t.second); continue; } std::string nm="m"+std::to_string(t.first); if(ms.insert(t.first).second){ Iv v=ivMono(t.first); decl<<"(declare-fun "<<nm<<" () Real)\n"; if(v.lo) decl<<"(assert (>= "<<nm<<" "<<qStr(v.l)<<"))\n"; if(v.hi) decl<<"(assert (<= "<<nm<<" "<<qStr(v.h)<<"))\n"; } s+=" (* "+qStr(t.second)+" "+nm+")"; } s+=")";
      std::string c=std::string("(")+(f.r==REL_GT?">":f.r==REL_GE?">=":f.r==REL_EQ?"=":"distinct")+" "+s+" 0.0)"; dis<<" "<<(f.v?"(not "+c+")":c); }
    dis<<"))\n"; Res r=runZ3("(set-logic QF_LRA)\n"+decl.str()+dis.str(),10,{},nullptr); if(r==SAT&&!rounded) errors_("range folding and solver disagree"); if(r==UNSAT) st.folds+=j-i; i=j; } }
static void report(){ std::ostringstream o; o<<"{\"case\":"<<js(caseName)<<",\"arg\":"<<caseArg<<",\"paths\":"<<st.paths<<",\"infeasible\":"<<st.infeasible<<",\"instructions\":"<<st.inst<<",\"decisions\":"<<st.decisions<<",\"forks\":"<<st.forks<<",\"queries\":"<<st.queries<<",\"sat\":"<<st.qsat<<",\"unsat\":"<<st.qunsat<<",\"unknown\":"<<st.qunknown<<",\"solver_s\":"<<st.solverS<<",\"obligations\":"<<st.obligations<<",\"by_normal_form\":"<<st.byNormalForm<<",\"by_solver\":"<<st.bySolver<<",\"concrete\":"<<st.concrete<<",\"relaxed\":"<<st.relaxed<<",\"undecided\":"<<st.undecided<<",\"folds\":"<<st.folds<<",\"replays\":"<<st.replays<<",\"validated\":"<<st.validated<<",\"mode\":"<<js(IEEE?"ieee":"real")<<",\"wall_s\":"<<since(tStart);
  auto arr=[&](const char*k,const std::vector<std::string>& v){ o<<",\""<<k<<"\":["; bool f=true; for(auto&s:v){ o<<(f?"":",")<<js(s); f=false; } o<<"]"; };
  arr("functions",{funcsExecuted.begin(),funcsExecuted.end()}); arr("stubs",{stubsUsed.begin(),stubsUsed.end()}); arr("undecided_msgs",undecidedMsgs); arr("errors",errors); arr("samples",samples);
  o<<",\"reached\":{"; bool f=true; for(auto&p:reached){ o<<(f?"":",")<<js(p.first)<<":"<<p.second; f=false; } o<<"},\"violations\":["; f=true; for(auto&v:violations){ o<<(f?"":",")<<"{\"id\":"<<js(v.id)<<",\"kind\":"<<js(v.kind)<<",\"detail\":"<<js(v.detail)<<",\"inputs\":"<<js(v.file)<<",\"confirmed\":"<<(v.confirmed?"true":"false")<<",\"native\":"<<js(v.replayOut)<<"}"; f=false; } o<<"]}";
  if(outFile.empty()) std::cout<<o.str()<<"\n"; else { std::ofstream w(outFile); w<<o.str()<<"\n"; } }
static int rcMain=0; static void* mainThread(void*){ try{ rcMain=runCase(); confirmFolds(); } catch(Unsupported&u){ errors.push_back(u.what()); } catch(PathEnd&e){ errors.push_back("init: "+e.kind+" "+e.detail); } return nullptr; }
int main(int argc,char**argv){ prctl(PR_SET_PDEATHSIG,SIGKILL); signal(SIGPIPE,SIG_IGN); std::string bc; bool list=false;
  for(int i=1;i<argc;i++){ std::string a=argv[i]; auto nx=[&]{ return std::string(argv[++i]); }; if(a=="--case") caseName=nx(); else if(a=="--arg") caseArg=std::stol(nx()); else if(a=="--ieee") IEEE=true; else if(a=="--replay") replayBin=nx(); else if(a=="--replayvg") replayVg=nx(); else if(a=="--out") outFile=nx(); else if(a=="--work") workDir=nx(); else if(a=="--time") tTotal=std::stod(nx()); else if(a=="--tassert") tAssert=std::stod(nx()); else if(a=="--tbranch") tBranch=std::stod(nx()); else if(a=="--paths") maxPaths=std::stol(nx()); else if(a=="--seed") seed=std::stoul(nx()); else if(a=="-v") verbose=true; else if(a=="--list") list=true; else if(a=="--validate") validationsLeft=std::stoi(nx()); else if(a=="--concrete"){ concreteMode=true; std::ifstream f(nx()); std::string l; while(std::getline(f,l)){ std::istringstream s(l); std::string n,k,v; s>>n>>k>>v; concreteIn[n]=v; } } else bc=a; }
  tStart=Clock::now(); rng.seed(seed); SMDiagnostic err; mod=parseIRFile(bc,err,ctx); if(!mod){ fprintf(stderr,"cannot read %s\n",bc.c_str()); return 3; } DL=&mod->getDataLayout();
  if(list){ for(auto&F:*mod) if(!F.isDeclaration()&&F.getName().starts_with("vpcase_")){ std::string n=F.getName().str().substr(7); int k=-1; if(auto*G=mod->getNamedGlobal("vpcasen_"+n)) k=cast<ConstantInt>(G->getInitializer())->getSExtValue(); int mode=0; if(auto*G=mod->getNamedGlobal("vpcasemode_"+n)) mode=cast<ConstantInt>(G->getInitializer())->getSExtValue(); printf("%s %d %d\n",n.c_str(),k,mode); } return 0; }
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at,(size_t)2<<30); pthread_t th; pthread_create(&th,&at,mainThread,nullptr); pthread_join(th,nullptr);
  report(); zp.stop(); fflush(nullptr); _exit(rcMain); }
