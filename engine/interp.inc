// ------------------------------------------------------------------------------------------------ memory
static std::vector<Obj*> objs; static size_t baseObjs=0; static std::map<size_t,Obj*> pristine; static const uint64_t OFF0=0x100000;
static LLVMContext ctx; static std::unique_ptr<Module> mod; static const DataLayout* DL;
static std::unordered_map<const GlobalValue*,uint64_t> gaddr; static std::unordered_map<uint64_t,std::string> gnameAt;
static std::vector<std::string> callStack;
static bool initDone=false;
static uint64_t newObj(uint32_t size,char kind,const std::string& name=""){ Obj*o=new Obj; o->size=size; o->d.assign(size,0); o->s.assign(size,0); o->kind=kind; o->name=name; objs.push_back(o); return ((uint64_t)objs.size()<<32)|OFF0; }
static std::string where(){ std::string s; for(size_t i=callStack.size();i-->0&&callStack.size()-i<7;) s+=(s.empty()?"":" < ")+callStack[i]; return s; }
[[noreturn]] static void event(const std::string& kind,const std::string& d){ throw PathEnd{kind,d+" in "+where()}; }
static Obj* find(uint64_t a,uint32_t n,uint32_t& off,bool write){ uint64_t id=a>>32; if(id==0||id>objs.size()) event("memory",a<4096?"null pointer access":"wild pointer access"); Obj*o=objs[id-1]; int64_t of=(int64_t)(a&0xffffffffull)-(int64_t)OFF0; if(!o->alive) event("memory","use of freed or out-of-scope memory"); if(of<0||(uint64_t)of+n>o->size) event("memory","out-of-bounds access (offset "+std::to_string(of)+", size "+std::to_string(n)+", object "+std::to_string(o->size)+" bytes)"); off=of;
  if(write&&initDone&&id-1<baseObjs&&!pristine.count(id-1)){ pristine[id-1]=new Obj(*o); } return o; }
static void resetMemory(){ for(size_t i=baseObjs;i<objs.size();i++) delete objs[i]; objs.resize(baseObjs); for(auto&p:pristine){ delete objs[p.first]; objs[p.first]=p.second; } pristine.clear(); }
static void clearCells(Obj*o,uint32_t off,uint32_t n){ if(o->cells.empty()) return; auto it=o->cells.lower_bound(off>=16?off-16:0); while(it!=o->cells.end()&&it->first<off+n){ if(it->first+it->second.first>off){ for(uint32_t i=0;i<it->second.first;i++) o->s[it->first+i]=0; it=o->cells.erase(it); } else ++it; } }
static void storeBytes(uint64_t a,const void*src,uint32_t n){ uint32_t off; Obj*o=find(a,n,off,true); clearCells(o,off,n); memcpy(&o->d[off],src,n); memset(&o->s[off],1,n); }
static void storeVal(uint64_t a,const Val&v,Type*T);
static Val loadVal(uint64_t a,Type*T);
static uint32_t tsize(Type*T){ return DL->getTypeStoreSize(T); }
static void storeVal(uint64_t a,const Val&v,Type*T){
  if(v.k==Val::Agg){ if(auto*S=dyn_cast<StructType>(T)){ auto*L=DL->getStructLayout(S); for(unsigned i=0;i<S->getNumElements();i++) storeVal(a+L->getElementOffset(i),(*v.a)[i],S->getElementType(i)); return; } Type*E=isa<ArrayType>(T)?T->getArrayElementType():cast<FixedVectorType>(T)->getElementType(); uint64_t sz=DL->getTypeAllocSize(E); for(size_t i=0;i<v.a->size();i++) storeVal(a+i*sz,(*v.a)[i],E); return; }
  uint32_t n=tsize(T); if(n==0) return;
  if(v.k==Val::Undef){ uint32_t off; Obj*o=find(a,n,off,true); clearCells(o,off,n); memset(&o->s[off],0,n); return; }
  if(v.k==Val::Int){ uint64_t u=v.u; if(n<=8) storeBytes(a,&u,n); else { uint8_t b[16]={0}; memcpy(b,&u,8); storeBytes(a,b,n); } return; }
  if(v.k==Val::Fp){ if(T->isDoubleTy()){ double d=v.f; storeBytes(a,&d,8);} else if(T->isFloatTy()){ float d=v.f; storeBytes(a,&d,4);} else if(T->isX86_FP80Ty()){ long double d=v.f; storeBytes(a,&d,10);} else throw Unsupported("fp store"); return; }
  if(v.k==Val::FpBits&&v.u==2){ uint32_t off; Obj*o=find(a,n,off,true); clearCells(o,off,n); memset(&o->s[off],0,n); for(size_t i=0;i+2<v.a->size();i+=3){ uint32_t at=(*v.a)[i].u, w=(*v.a)[i+1].u; const Val&e=(*v.a)[i+2]; if(e.k==Val::Int){ o->d[off+at]=e.u; o->s[off+at]=1; } else { memset(&o->s[off+at],2,w); o->cells[off+at]={w,e}; } } return; }
  uint32_t off; Obj*o=find(a,n,off,true); clearCells(o,off,n); memset(&o->s[off],2,n); o->cells[off]={n,v}; }
static N nodeOf(const Val&v,unsigned w);
static Val loadVal(uint64_t a,Type*T){
  if(auto*S=dyn_cast<StructType>(T)){ std::vector<Val> r; auto*L=DL->getStructLayout(S); for(unsigned i=0;i<S->getNumElements();i++) r.push_back(loadVal(a+L->getElementOffset(i),S->getElementType(i))); return Val::A(r); }
  if(T->isArrayTy()||T->isVectorTy()){ Type*E=T->isArrayTy()?T->getArrayElementType():cast<FixedVectorType>(T)->getElementType(); uint64_t nn=T->isArrayTy()?T->getArrayNumElements():cast<FixedVectorType>(T)->getNumElements(), sz=DL->getTypeAllocSize(E); std::vector<Val> r; for(uint64_t i=0;i<nn;i++) r.push_back(loadVal(a+i*sz,E)); return Val::A(r); }
  uint32_t n=tsize(T),off; Obj*o=find(a,n,off,false); if(n==0) return Val();
  const uint8_t*s=&o->s[off]; bool sym=false,un=false,con=false; for(uint32_t i=0;i<n;i++){ if(s[i]==2) sym=true; else if(s[i]==1) con=true; else un=true; }
  if(sym){ auto it=o->cells.find(off); if(it!=o->cells.end()&&it->second.first==n){ Val v=it->second.second; if(T->isFloatingPointTy()){ if(v.k==Val::FpBits){ Val r; if(v.u==0){ r.k=Val::Real; } else r.k=Val::Nd; r.p=v.p; return r; } return v; }
      if(v.k==Val::Real){ Val r; r.k=Val::FpBits; r.u=0; r.p=v.p; return r; } if(v.k==Val::Nd&&(v.n()->sort==S_F64||v.n()->sort==S_F32)){ Val r; r.k=Val::FpBits; r.u=1; r.p=v.p; return r; }
      if(v.k==Val::Nd&&v.n()->sort==S_BOOL&&T->getIntegerBitWidth()!=1) return Val::B(nToBV(v.n(),T->getIntegerBitWidth())); if(v.k==Val::Nd&&T->isIntegerTy(1)&&v.n()->sort!=S_BOOL) return Val::B(nNot(nICmp(N_EQ,nExtract(v.n(),0,1),nBV(0,1)))); return v; }
    // an integer load that spans several whole cells (a struct of floats copied as one word): a bundle that can only be stored again
    if(T->isIntegerTy()&&n<=16){ bool fp=false,whole=true; std::vector<Val> bd; for(uint32_t i=0;i<n;){ if(s[i]==2){ auto c=o->cells.find(off+i); if(c==o->cells.end()||off+i+c->second.first>off+n){ whole=false; break; } const Val&cv=c->second.second; if(cv.k==Val::Real||cv.k==Val::FpBits||(cv.k==Val::Nd&&cv.n()->sort>=1000)) fp=true; bd.push_back(Val::I(i)); bd.push_back(Val::I(c->second.first)); bd.push_back(cv); i+=c->second.first; } else { if(s[i]==1){ bd.push_back(Val::I(i)); bd.push_back(Val::I(1)); bd.push_back(Val::I(o->d[off+i])); } i++; } }
      if(whole&&fp){ Val r; r.k=Val::FpBits; r.u=2; r.a=std::make_shared<std::vector<Val>>(std::move(bd)); return r; } }
    // assemble from bytes (bit-vector cells only)
    if(T->isIntegerTy()){ N acc=nullptr; for(uint32_t i=0;i<n;i++){ N b; if(s[i]==1) b=nBV(o->d[off+i],8); else if(s[i]==0) b=nBV(0,8); else { auto c=o->cells.upper_bound(off+i); --c; const Val&cv=c->second.second; if(cv.k!=Val::Nd||cv.n()->sort>=1000) throw Unsupported("partial access to a symbolic floating-point value in "+where()); N cn=cv.n(); if(cn->sort==S_BOOL) cn=nToBV(cn,8); b=nExtract(cn,(off+i-c->first)*8,8); } acc=acc?nConcat(b,acc):b; } if(T->getIntegerBitWidth()==1) return Val::B(nNot(nICmp(N_EQ,nExtract(acc,0,1),nBV(0,1)))); return isC(acc)?Val::I(acc->c):Val::B(acc); }
    throw Unsupported("partial access to a symbolic value in "+where()); }
  if(un&&!con) return Val();
  uint8_t b[16]={0}; for(uint32_t i=0;i<n&&i<16;i++) b[i]=s[i]?o->d[off+i]:0;
  if(T->isDoubleTy()){ double d; memcpy(&d,b,8); return Val::F(d);} if(T->isFloatTy()){ float d; memcpy(&d,b,4); return Val::F(d);} if(T->isX86_FP80Ty()){ long double d=0; memcpy(&d,b,10); return Val::F(d);}
  uint64_t u=0; memcpy(&u,b,8); if(T->isIntegerTy()) u&=maskOf(T->getIntegerBitWidth()); return Val::I(u); }
static void memCopy(uint64_t d,uint64_t s,uint64_t n){ if(!n) return; uint32_t so,dof; Obj*S=find(s,n,so,false); Obj*D=find(d,n,dof,true); S=objs[(s>>32)-1];
  std::vector<uint8_t> bd(S->d.begin()+so,S->d.begin()+so+n), bs(S->s.begin()+so,S->s.begin()+so+n); std::vector<std::pair<uint32_t,std::pair<uint32_t,Val>>> cs; if(!S->cells.empty()) for(auto it=S->cells.lower_bound(so>=16?so-16:0);it!=S->cells.end()&&it->first<so+n;++it){ if(it->first>=so&&it->first+it->second.first<=so+n) cs.push_back({it->first-so,it->second}); else if(it->first+it->second.first>so) throw Unsupported("memcpy splits a symbolic value"); }
  clearCells(D,dof,n); memcpy(&D->d[dof],bd.data(),n); memcpy(&D->s[dof],bs.data(),n); for(auto&c:cs) D->cells[dof+c.first]=c.second; }
static std::string cstr(uint64_t a){ std::string r; for(;;a++){ uint32_t off; Obj*o=find(a,1,off,false); if(o->s[off]!=1) return r; if(!o->d[off]) return r; r+=(char)o->d[off]; } }

// ------------------------------------------------------------------------------------------------ constants and globals
static uint64_t addrOf(const GlobalValue*g);
static Val constVal(const Constant*c);
static uint64_t gepOffset(const GEPOperator*G){ APInt o(64,0); if(!G->accumulateConstantOffset(*DL,o)) throw Unsupported("constant gep"); return o.getSExtValue(); }
static long double apf(const APFloat&f,Type*T){ if(T->isDoubleTy()) return f.convertToDouble(); if(T->isFloatTy()) return f.convertToFloat(); APInt b=f.bitcastToAPInt(); long double r=0; memcpy(&r,b.getRawData(),10); return r; }
static Val constVal(const Constant*c){ Type*T=c->getType();
  if(isa<UndefValue>(c)&&!T->isAggregateType()&&!T->isVectorTy()) return Val();
  if(isa<UndefValue>(c)||isa<ConstantAggregateZero>(c)){ std::vector<Val> v; unsigned n=T->isStructTy()?T->getStructNumElements():T->isArrayTy()?T->getArrayNumElements():cast<FixedVectorType>(T)->getNumElements(); for(unsigned i=0;i<n;i++) v.push_back(constVal(c->getAggregateElement(i))); return Val::A(v); }
  if(auto*i=dyn_cast<ConstantInt>(c)){ if(i->getBitWidth()>64) { return Val::I(i->getValue().extractBitsAsZExtValue(64,0)); } return Val::I(i->getZExtValue()); }
  if(auto*f=dyn_cast<ConstantFP>(c)) return Val::F(apf(f->getValueAPF(),T));
  if(isa<ConstantPointerNull>(c)) return Val::I(0);
  if(auto*g=dyn_cast<GlobalValue>(c)) return Val::I(addrOf(g));
  if(auto*e=dyn_cast<ConstantExpr>(c)){ switch(e->getOpcode()){ case Instruction::GetElementPtr: { Val b=constVal(cast<Constant>(e->getOperand(0))); return Val::I(b.u+gepOffset(cast<GEPOperator>(e))); } case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return constVal(e->getOperand(0)); case Instruction::Sub: return Val::I(constVal(e->getOperand(0)).u-constVal(e->getOperand(1)).u); case Instruction::Add: return Val::I(constVal(e->getOperand(0)).u+constVal(e->getOperand(1)).u); case Instruction::Trunc: return Val::I(constVal(e->getOperand(0)).u&maskOf(T->getIntegerBitWidth())); default: throw Unsupported("constant expression"); } }
  if(isa<ConstantDataSequential>(c)||isa<ConstantAggregate>(c)){ std::vector<Val> v; unsigned n=T->isStructTy()?T->getStructNumElements():T->isArrayTy()?T->getArrayNumElements():cast<FixedVectorType>(T)->getNumElements(); for(unsigned i=0;i<n;i++) v.push_back(constVal(c->getAggregateElement(i))); return Val::A(v); }
  throw Unsupported("constant kind"); }
static uint64_t addrOf(const GlobalValue*g){ if(auto*al=dyn_cast<GlobalAlias>(g)) return constVal(al->getAliasee()).u; auto it=gaddr.find(g); if(it!=gaddr.end()) return it->second;
  if(auto*F=dyn_cast<Function>(g)){ uint64_t a=newObj(1,'f',F->getName().str()); objs.back()->fn=const_cast<Function*>(F); gaddr[g]=a; return a; }
  auto*V=cast<GlobalVariable>(g); uint32_t sz=V->isDeclaration()?512:DL->getTypeAllocSize(V->getValueType()); uint64_t a=newObj(sz,'g',V->getName().str()); gaddr[g]=a; gnameAt[a]=V->getName().str();
  if(V->isDeclaration()){ memset(objs.back()->s.data(),1,sz); if(V->getName()=="__libc_single_threaded") objs.back()->d[0]=1; }
  return a; }
static void initGlobals(){ for(auto&F:*mod) addrOf(&F); for(auto&G:mod->globals()) addrOf(&G); for(auto&G:mod->globals()) if(!G.isDeclaration()&&G.hasInitializer()&&!G.getName().starts_with("llvm.")){ uint64_t a=addrOf(&G); auto*I=G.getInitializer(); if(isa<UndefValue>(I)) continue; if(isa<ConstantAggregateZero>(I)){ Obj*o=objs[(a>>32)-1]; memset(o->s.data(),1,o->size); continue; } storeVal(a,constVal(I),G.getValueType()); } }

// ------------------------------------------------------------------------------------------------ function preparation
struct Op { int slot=-1; Val c; };
struct In { Instruction*I; unsigned opc; std::vector<Op> o; int dst=-1; Type*T=nullptr; int64_t goff=0; std::vector<std::pair<int,int64_t>> gidx; std::vector<unsigned> gw; int bb0=-1,bb1=-1; Function*callee=nullptr; unsigned w=0; };
struct PhiMove { int dst; std::vector<Op> bySrc; };
struct Blk { std::vector<In> ins; std::vector<PhiMove> phis; std::map<int,int> predIx; std::vector<int> preds; };
struct Fn { Function*F; std::vector<Blk> b; int slots=0; std::string dem; bool isLib=false; int intercept=-1; };
static std::unordered_map<Function*,Fn*> fns; static std::unordered_map<std::string,std::string> demCache;
static std::string dem(const std::string& s){ auto it=demCache.find(s); if(it!=demCache.end()) return it->second; std::string r=llvm::demangle(s); demCache[s]=r; return r; }
static Fn* prep(Function*F){ auto it=fns.find(F); if(it!=fns.end()) return it->second; Fn*f=new Fn; fns[F]=f; f->F=F; f->dem=dem(F->getName().str());
  f->isLib=f->dem.find("mathutils::")!=std::string::npos;
  std::unordered_map<const Value*,int> slot; std::unordered_map<const BasicBlock*,int> bix; for(auto&A:F->args()) slot[&A]=f->slots++; int bi=0; for(auto&B:*F){ bix[&B]=bi++; for(auto&I:B) if(!I.getType()->isVoidTy()) slot[&I]=f->slots++; }
  auto mkop=[&](Value*v){ Op o; if(auto*c=dyn_cast<Constant>(v)) o.c=constVal(c); else if(isa<MetadataAsValue>(v)||isa<InlineAsm>(v)||isa<BasicBlock>(v)) o.c=Val(); else o.slot=slot.at(v); return o; };
  f->b.resize(bi); for(auto&B:*F){ Blk&b=f->b[bix[&B]]; std::map<const BasicBlock*,int> pm; 
    for(auto&I:B){ if(auto*P=dyn_cast<PHINode>(&I)){ PhiMove m; m.dst=slot[P]; if(b.preds.empty()){ for(unsigned i=0;i<P->getNumIncomingValues();i++){ int pi=bix[P->getIncomingBlock(i)]; if(!b.predIx.count(pi)){ b.predIx[pi]=b.preds.size(); b.preds.push_back(pi);} } } m.bySrc.resize(b.preds.size()); for(unsigned i=0;i<P->getNumIncomingValues();i++) m.bySrc[b.predIx[bix[P->getIncomingBlock(i)]]]=mkop(P->getIncomingValue(i)); b.phis.push_back(m); continue; }
      if(isa<DbgInfoIntrinsic>(&I)) continue;
      In x; x.I=&I; x.opc=I.getOpcode(); x.T=I.getType(); if(!I.getType()->isVoidTy()) x.dst=slot[&I]; if(x.T->isIntegerTy()) x.w=x.T->getIntegerBitWidth(); else if(x.T->isPointerTy()) x.w=64;
      if(auto*CB=dyn_cast<CallBase>(&I)){ for(auto&A:CB->args()) x.o.push_back(mkop(A)); Value*cv=CB->getCalledOperand()->stripPointerCasts(); if(auto*cf=dyn_cast<Function>(cv)) x.callee=cf; else if(auto*ga=dyn_cast<GlobalAlias>(cv)) x.callee=dyn_cast<Function>(ga->getAliaseeObject()); else x.o.push_back(mkop(CB->getCalledOperand())); if(auto*IV=dyn_cast<InvokeInst>(&I)){ x.bb0=bix[IV->getNormalDest()]; x.bb1=bix[IV->getUnwindDest()]; } }
      else if(auto*BR=dyn_cast<BranchInst>(&I)){ if(BR->isConditional()){ x.o.push_back(mkop(BR->getCondition())); x.bb0=bix[BR->getSuccessor(0)]; x.bb1=bix[BR->getSuccessor(1)]; } else x.bb0=bix[BR->getSuccessor(0)]; }
      else if(auto*SW=dyn_cast<SwitchInst>(&I)){ x.o.push_back(mkop(SW->getCondition())); x.bb0=bix[SW->getDefaultDest()]; for(auto&c:SW->cases()) x.gidx.push_back({bix[c.getCaseSuccessor()],(int64_t)c.getCaseValue()->getZExtValue()}); }
      else if(auto*G=dyn_cast<GetElementPtrInst>(&I)){ x.o.push_back(mkop(G->getPointerOperand())); int64_t off=0; for(auto gi=gep_type_begin(G);gi!=gep_type_end(G);++gi){ Value*iv=gi.getOperand(); if(StructType*S=gi.getStructTypeOrNull()){ off+=DL->getStructLayout(S)->getElementOffset(cast<ConstantInt>(iv)->getZExtValue()); continue; } int64_t sz=DL->getTypeAllocSize(gi.getIndexedType()); if(auto*ci=dyn_cast<ConstantInt>(iv)) off+=ci->getSExtValue()*sz; else { x.gidx.push_back({(int)x.o.size(),sz}); x.gw.push_back(iv->getType()->getIntegerBitWidth()); x.o.push_back(mkop(iv)); } } x.goff=off; }
      else for(auto&U:I.operands()) x.o.push_back(mkop(U));
      b.ins.push_back(std::move(x)); } }
  return f; }

// ------------------------------------------------------------------------------------------------ arithmetic
static N nodeOf(const Val&v,unsigned w){ if(v.k==Val::Int) return w==1?nBool(v.u&1):nBV(v.u,w); if(v.k==Val::Nd) return v.n(); if(v.k==Val::Undef) return w==1?nBool(false):nBV(0,w); throw Unsupported("integer view of a symbolic floating-point value in "+where()); }
static Val fromNode(N n){ if(isC(n)){ if(n->sort==S_F64||n->sort==S_F32) return Val::F(nFval(n)); return Val::I(n->c); } return Val::B(n); }
static uint16_t fsort(Type*T){ if(T->isFloatTy()) return S_F32; if(T->isDoubleTy()) return S_F64; throw Unsupported("long double in ieee mode"); }
static N fnode(const Val&v,Type*T){ if(v.k==Val::Fp) return nF(v.f,fsort(T)); if(v.k==Val::Nd) return v.n(); throw Unsupported("fp node"); }
static bool truth(const Val&v){ if(v.k==Val::Int) return v.u&1; if(v.k==Val::Nd) return decide(v.n()); if(v.k==Val::Undef) event("uninit","branch on an uninitialised value"); throw Unsupported("condition"); }
static uint64_t cint(const Val&v,const char*why){ if(v.k==Val::Int) return v.u; if(v.k==Val::Undef) event("uninit",std::string("uninitialised value used as ")+why); if(v.k==Val::Nd) return concretizeBV(v.n(),why); throw Unsupported(std::string("symbolic floating-point bits used as ")+why+" in "+where()); }
static long double rnd(long double x,Type*T){ if(T->isDoubleTy()) return (double)x; if(T->isFloatTy()) return (float)x; return x; }
static Val fpArith(unsigned opc,const Val&a,const Val&b,Type*T); static Val mathFn(const std::string& f,std::vector<Val> a,Type*T);
static Val fpNeg(const Val&a,Type*T){ if(a.k==Val::Undef) return a; if(a.k==Val::Fp) return Val::F(-a.f); if(a.k==Val::Real) return Val::S(rNeg(a.r())); return fromNode(nMk(N_FNEG,a.n()->sort,{a.n()})); }
static Val fpArith(unsigned opc,const Val&a,const Val&b,Type*T){
  if(a.k==Val::Undef||b.k==Val::Undef) return Val();
  if(a.k==Val::Fp&&b.k==Val::Fp){ if(T->isDoubleTy()){ double x=a.f,y=b.f,r; switch(opc){ case Instruction::FAdd:r=x+y;break; case Instruction::FSub:r=x-y;break; case Instruction::FMul:r=x*y;break; case Instruction::FDiv:r=x/y;break; case Instruction::FRem:r=fmod(x,y);break; default: throw Unsupported("fp op"); } return Val::F(r); }
    if(T->isFloatTy()){ float x=a.f,y=b.f,r; switch(opc){ case Instruction::FAdd:r=x+y;break; case Instruction::FSub:r=x-y;break; case Instruction::FMul:r=x*y;break; case Instruction::FDiv:r=x/y;break; case Instruction::FRem:r=fmodf(x,y);break; default: throw Unsupported("fp op"); } return Val::F(r); }
    long double x=a.f,y=b.f,r; switch(opc){ case Instruction::FAdd:r=x+y;break; case Instruction::FSub:r=x-y;break; case Instruction::FMul:r=x*y;break; case Instruction::FDiv:r=x/y;break; default: throw Unsupported("fp op"); } return Val::F(r); }
  if(IEEE){ N x=fnode(a,T),y=fnode(b,T); NOp o=opc==Instruction::FAdd?N_FADD:opc==Instruction::FSub?N_FSUB:opc==Instruction::FMul?N_FMUL:N_FDIV; if(opc==Instruction::FRem) return mathFn("fmod",{a,b},T); return Val::B(nMk(o,x->sort,{x,y})); }
  // real mode; handle infinities / NaN on the concrete side
  for(int s=0;s<2;s++){ const Val&c=s?b:a; const Val&o=s?a:b; if(c.k==Val::Fp&&!std::isfinite(c.f)){ if(std::isnan(c.f)) return c; switch(opc){ case Instruction::FAdd: return c; case Instruction::FSub: return s?Val::F(-c.f):c; case Instruction::FMul: if(decide(rCmp(toR(o),REL_EQ))) return Val::F(NAN); return Val::F(decide(rCmp(toR(o),REL_GT))?c.f:-c.f); case Instruction::FDiv: if(s) return Val::F(0); return Val::F(decide(rCmp(toR(o),REL_GE))?c.f:-c.f); default: throw Unsupported("fp op"); } } }
  if(opc==Instruction::FMul&&((a.k==Val::Fp&&a.f==0)||(b.k==Val::Fp&&b.f==0))) return Val::F(0);
  R x=toR(a),y=toR(b);
  switch(opc){ case Instruction::FAdd: return vR(rAdd(x,y)); case Instruction::FSub: return vR(rSub(x,y)); case Instruction::FMul: return vR(rMul(x,y));
    case Instruction::FDiv: { if(y->isConst()){ if(sgn(y->n->cst())==0){ if(decide(rCmp(x,REL_EQ))) return Val::F(NAN); return Val::F(decide(rCmp(x,REL_GT))?INFINITY:-INFINITY); } }
      else if(decide(rCmp(y,REL_EQ))){ if(decide(rCmp(x,REL_EQ))) return Val::F(NAN); return Val::F(decide(rCmp(x,REL_GT))?INFINITY:-INFINITY); }
      return vR(rDiv(x,y)); }
    case Instruction::FRem: return mathFn("fmod",{a,b},T);
    default: throw Unsupported("fp op in real mode"); } }
static N fpCmpN(unsigned pred,const Val&a,const Val&b,Type*T){ // ordered comparison on symbolic values
  if(IEEE){ N x=fnode(a,T),y=fnode(b,T); N un=nOr(nMk(N_FISNAN,S_BOOL,{x}),nMk(N_FISNAN,S_BOOL,{y})); auto C=[&](NOp o,N p,N q){ return nMk(o,S_BOOL,{p,q}); }; 
    switch(pred){ case CmpInst::FCMP_OEQ: return C(N_FEQ,x,y); case CmpInst::FCMP_OGT: return C(N_FLT,y,x); case CmpInst::FCMP_OGE: return C(N_FLE,y,x); case CmpInst::FCMP_OLT: return C(N_FLT,x,y); case CmpInst::FCMP_OLE: return C(N_FLE,x,y); case CmpInst::FCMP_ONE: return nAnd(nNot(un),nNot(C(N_FEQ,x,y))); case CmpInst::FCMP_ORD: return nNot(un); case CmpInst::FCMP_UNO: return un; case CmpInst::FCMP_UEQ: return nOr(un,C(N_FEQ,x,y)); case CmpInst::FCMP_UGT: return nNot(C(N_FLE,x,y)); case CmpInst::FCMP_UGE: return nNot(C(N_FLT,x,y)); case CmpInst::FCMP_ULT: return nNot(C(N_FLE,y,x)); case CmpInst::FCMP_ULE: return nNot(C(N_FLT,y,x)); case CmpInst::FCMP_UNE: return nNot(C(N_FEQ,x,y)); } throw Unsupported("fcmp"); }
  for(int s=0;s<2;s++){ const Val&c=s?b:a; if(c.k==Val::Fp&&!std::isfinite(c.f)){ if(std::isnan(c.f)) return nBool(CmpInst::isUnordered((CmpInst::Predicate)pred)); double l=s?0:(double)c.f, r=s?(double)c.f:0; switch(pred&7){ case 1: return nBool(false); case 2: return nBool(l>r); case 3: return nBool(l>r); case 4: return nBool(l<r); case 5: return nBool(l<r); case 6: return nBool(true); case 7: return nBool(pred==CmpInst::FCMP_ORD); default: return nBool(pred==CmpInst::FCMP_UNO?false:pred==CmpInst::FCMP_TRUE); } } }
  R d=rSub(toR(a),toR(b)); switch(pred){ case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return rCmp(d,REL_EQ); case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return rCmp(d,REL_NE); case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return rCmp(d,REL_GT); case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return rCmp(d,REL_GE); case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return rCmp(rNeg(d),REL_GT); case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return rCmp(rNeg(d),REL_GE); case CmpInst::FCMP_ORD: case CmpInst::FCMP_TRUE: return nBool(true); default: return nBool(false); } }
static Val fcmp(unsigned pred,const Val&a,const Val&b,Type*T){ if(a.k==Val::Undef||b.k==Val::Undef) return Val(); if(a.k==Val::Fp&&b.k==Val::Fp){ long double x=a.f,y=b.f; bool u=std::isnan(x)||std::isnan(y),r; switch(pred){ case CmpInst::FCMP_FALSE:r=false;break; case CmpInst::FCMP_TRUE:r=true;break; case CmpInst::FCMP_ORD:r=!u;break; case CmpInst::FCMP_UNO:r=u;break; default: { bool un=CmpInst::isUnordered((CmpInst::Predicate)pred); if(u) r=un; else switch(pred&7){ case 1:r=x==y;break; case 2:r=x>y;break; case 3:r=x>=y;break; case 4:r=x<y;break; case 5:r=x<=y;break; default:r=x!=y; } } } return Val::I(r); } return fromNode(fpCmpN(pred,a,b,T)); }
static Val intBin(unsigned opc,const Val&a,const Val&b,unsigned w,Instruction*I){
  if((a.k==Val::FpBits&&a.u==2)||(b.k==Val::FpBits&&b.u==2)) throw Unsupported("arithmetic on the bits of several floating-point values in "+where());
  if(a.k==Val::FpBits||b.k==Val::FpBits){ const Val&f=a.k==Val::FpBits?a:b; const Val&c=a.k==Val::FpBits?b:a; if(c.k==Val::Int&&w==64){ Val r; r.k=f.u?Val::Nd:Val::Real; r.p=f.p; auto back=[&](Val v){ if(v.k==Val::Fp){ double d=v.f; uint64_t u; memcpy(&u,&d,8); return Val::I(u);} Val q; q.k=Val::FpBits; q.u=v.k==Val::Nd; q.p=v.p; return q; };
      if(opc==Instruction::Xor&&c.u==0x8000000000000000ull) return back(fpNeg(r,Type::getDoubleTy(ctx)));
      if(opc==Instruction::And&&c.u==0x7fffffffffffffffull){ if(f.u) return back(fromNode(nMk(N_FABS,r.n()->sort,{r.n()}))); return back(decide(rCmp(r.r(),REL_GE))?r:fpNeg(r,nullptr)); }
      if((opc==Instruction::And&&c.u==0x8000000000000000ull)){ bool neg=f.u?decide(nMk(N_FISNEG,S_BOOL,{r.n()})):!decide(rCmp(r.r(),REL_GE)); return Val::I(neg?c.u:0); }
      if(opc==Instruction::LShr&&c.u==63){ bool neg=f.u?decide(nMk(N_FISNEG,S_BOOL,{r.n()})):!decide(rCmp(r.r(),REL_GE)); return Val::I(neg?1:0); }
      if(opc==Instruction::Or&&c.u==0) return f; } throw Unsupported("bit operation on a symbolic floating-point value in "+where()); }
  if(a.k==Val::Undef||b.k==Val::Undef){ const Val&o=a.k==Val::Undef?b:a; if(o.k==Val::Int){ if(opc==Instruction::And&&o.u==0) return o; if(opc==Instruction::Or&&o.u==maskOf(w)) return o; if(opc==Instruction::Mul&&o.u==0) return o; } return Val(); }
  if(opc==Instruction::UDiv||opc==Instruction::SDiv||opc==Instruction::URem||opc==Instruction::SRem){ Val z=b.k==Val::Int?Val::I((b.u&maskOf(w))==0):fromNode(nICmp(N_EQ,nodeOf(b,w),nBV(0,w))); if(truth(z)) event("ub","integer division by zero"); 
    if((opc==Instruction::SDiv||opc==Instruction::SRem)&&b.k==Val::Int&&sx(b.u,w)==-1){ Val m=a.k==Val::Int?Val::I((a.u&maskOf(w))==(1ull<<(w-1))):fromNode(nICmp(N_EQ,nodeOf(a,w),nBV(1ull<<(w-1),w))); if(truth(m)) event("ub","integer division overflow"); } }
  NOp o; switch(opc){ case Instruction::Add:o=N_ADD;break; case Instruction::Sub:o=N_SUB;break; case Instruction::Mul:o=N_MUL;break; case Instruction::UDiv:o=N_UDIV;break; case Instruction::SDiv:o=N_SDIV;break; case Instruction::URem:o=N_UREM;break; case Instruction::SRem:o=N_SREM;break; case Instruction::And:o=N_BVAND;break; case Instruction::Or:o=N_BVOR;break; case Instruction::Xor:o=N_BVXOR;break; case Instruction::Shl:o=N_SHL;break; case Instruction::LShr:o=N_LSHR;break; case Instruction::AShr:o=N_ASHR;break; default: throw Unsupported("int op"); }
  if(a.k==Val::Int&&b.k==Val::Int){ 
    if(initDone&&I&&(opc==Instruction::Add||opc==Instruction::Sub||opc==Instruction::Mul)&&cast<OverflowingBinaryOperator>(I)->hasNoSignedWrap()&&w<=64&&w>=8){ __int128 x=sx(a.u,w),y=sx(b.u,w),r=opc==Instruction::Add?x+y:opc==Instruction::Sub?x-y:x*y; if(r!=(__int128)sx((uint64_t)r,w)) event("ub","signed integer overflow"); }
    uint64_t r; if(w>64) throw Unsupported("wide integer"); if(!bvFold(o,w,a.u&maskOf(w),b.u&maskOf(w),r)) throw Unsupported("int op"); return Val::I(r); }
  N x=nodeOf(a,w),y=nodeOf(b,w);
  if(w==1){ switch(o){ case N_BVAND: return fromNode(nAnd(x,y)); case N_BVOR: return fromNode(nOr(x,y)); case N_BVXOR: case N_ADD: case N_SUB: return fromNode(nBxor(x,y)); case N_MUL: return fromNode(nAnd(x,y)); default: throw Unsupported("i1 op"); } }
  return fromNode(nBin(o,x,y)); }
static Val icmp(unsigned pred,const Val&a,const Val&b,unsigned w){
  if(a.k==Val::Undef||b.k==Val::Undef) return Val();
  if((a.k==Val::FpBits&&a.u==2)||(b.k==Val::FpBits&&b.u==2)) throw Unsupported("comparison of the bits of several floating-point values in "+where());
  if(a.k==Val::FpBits&&b.k==Val::Int&&w==64){ Val r; r.k=a.u?Val::Nd:Val::Real; r.p=a.p; if((pred==CmpInst::ICMP_SLT&&b.u==0)||(pred==CmpInst::ICMP_SGT&&b.u==~0ull)){ N ng=a.u?nMk(N_FISNEG,S_BOOL,{r.n()}):nNot(rCmp(r.r(),REL_GE)); return fromNode(pred==CmpInst::ICMP_SLT?ng:nNot(ng)); } if((pred==CmpInst::ICMP_EQ||pred==CmpInst::ICMP_NE)&&b.u==0&&!a.u){ N e=rCmp(r.r(),REL_EQ); return fromNode(pred==CmpInst::ICMP_EQ?e:nNot(e)); } }
  if(a.k==Val::FpBits&&b.k==Val::FpBits&&a.p==b.p){ return Val::I(pred==CmpInst::ICMP_EQ||pred==CmpInst::ICMP_SLE||pred==CmpInst::ICMP_SGE||pred==CmpInst::ICMP_ULE||pred==CmpInst::ICMP_UGE); }
  if(a.k==Val::Int&&b.k==Val::Int){ uint64_t x=a.u&maskOf(w),y=b.u&maskOf(w); int64_t p=sx(x,w),q=sx(y,w); bool r; switch(pred){ case CmpInst::ICMP_EQ:r=x==y;break; case CmpInst::ICMP_NE:r=x!=y;break; case CmpInst::ICMP_UGT:r=x>y;break; case CmpInst::ICMP_UGE:r=x>=y;break; case CmpInst::ICMP_ULT:r=x<y;break; case CmpInst::ICMP_ULE:r=x<=y;break; case CmpInst::ICMP_SGT:r=p>q;break; case CmpInst::ICMP_SGE:r=p>=q;break; case CmpInst::ICMP_SLT:r=p<q;break; default:r=p<=q; } return Val::I(r); }
  N x=nodeOf(a,w),y=nodeOf(b,w); if(w==1){ if(pred==CmpInst::ICMP_EQ) return fromNode(nNot(nBxor(x,y))); if(pred==CmpInst::ICMP_NE) return fromNode(nBxor(x,y)); x=nToBV(x,1); y=nToBV(y,1); }
  switch(pred){ case CmpInst::ICMP_EQ: return fromNode(nICmp(N_EQ,x,y)); case CmpInst::ICMP_NE: return fromNode(nNot(nICmp(N_EQ,x,y))); case CmpInst::ICMP_UGT: return fromNode(nICmp(N_ULT,y,x)); case CmpInst::ICMP_UGE: return fromNode(nICmp(N_ULE,y,x)); case CmpInst::ICMP_ULT: return fromNode(nICmp(N_ULT,x,y)); case CmpInst::ICMP_ULE: return fromNode(nICmp(N_ULE,x,y)); case CmpInst::ICMP_SGT: return fromNode(nICmp(N_SLT,y,x)); case CmpInst::ICMP_SGE: return fromNode(nICmp(N_SLE,y,x)); case CmpInst::ICMP_SLT: return fromNode(nICmp(N_SLT,x,y)); default: return fromNode(nICmp(N_SLE,x,y)); } }

// ------------------------------------------------------------------------------------------------ libm on symbolic values
static Val fabsV(const Val&a,Type*T){ if(a.k==Val::Fp) return Val::F(fabsl(a.f)); if(a.k==Val::Undef) return a; if(a.k==Val::Real) return decide(rCmp(a.r(),REL_GE))?a:Val::S(rNeg(a.r())); return fromNode(nMk(N_FABS,a.n()->sort,{a.n()})); }
static Val floorV(R x,int mode){ // 0 floor 1 ceil 2 trunc 3 round(half away) 4 rint
  if(mode==3){ R h=rConst(mpq_class(1,2)); return decide(rCmp(x,REL_GE))?floorV(rAdd(x,h),0):floorV(rSub(x,h),1); }
  if(mode==4){ Val f=floorV(rAdd(x,rConst(mpq_class(1,2))),0); R d=rSub(toR(f),x); if(decide(rCmp(rSub(d,rConst(mpq_class(1,2))),REL_EQ))&&std::fmod((double)f.f,2)!=0) return Val::F(f.f-1); return f; }
  if(mode==2) return decide(rCmp(x,REL_GE))?floorV(x,0):floorV(x,1);
  if(mode==1){ Val f=floorV(rNeg(x),0); return Val::F(-f.f); }
  return Val::F((long double)floorReal(x)); }
static N ieeeFresh(const std::string& nm,N key,uint16_t sort){ return nVar("u_"+nm+"_"+std::to_string(key->id),sort); }
static Val mathFn(const std::string& f,std::vector<Val> a,Type*T){
  for(auto&v:a) if(v.k==Val::Undef) return Val();
  bool allC=true; for(auto&v:a) if(v.k!=Val::Fp&&v.k!=Val::Int) allC=false;
  if(allC){ bool ld=T->isX86_FP80Ty(), fl=T->isFloatTy(); auto D=[&](int i){ return (double)a[i].f; };
#define M1(n) if(f==#n) return Val::F(ld?n##l(a[0].f):fl?n##f((float)a[0].f):n(D(0)));
#define M2(n) if(f==#n) return Val::F(ld?n##l(a[0].f,a[1].f):fl?n##f((float)a[0].f,(float)a[1].f):n(D(0),D(1)));
    M1(sin) M1(cos) M1(tan) M1(asin) M1(acos) M1(atan) M1(exp) M1(log) M1(log10) M1(log2) M1(sqrt) M1(fabs) M1(floor) M1(ceil) M1(trunc) M1(round) M1(rint) M1(nearbyint) M1(sinh) M1(cosh) M1(tanh) M1(exp2) M1(expm1) M1(log1p) M1(cbrt) M1(tgamma) M1(lgamma) M1(asinh) M1(acosh) M1(atanh) M1(logb)
    M2(atan2) M2(pow) M2(fmod) M2(hypot) M2(copysign) M2(fmin) M2(fmax) M2(remainder) M2(fdim) M2(nextafter) if(f=="drem") return Val::F(remainder(D(0),D(1)));
    if(f=="exp10") return Val::F(pow(10.0,D(0)));
    throw Unsupported("math function "+f); }
  if(IEEE){ Type*DT=T; N x=fnode(a[0],DT); uint16_t so=x->sort; stubsUsed.insert(f+" (IEEE contract)"); auto isnan=[&](N n){ return nMk(N_FISNAN,S_BOOL,{n}); }; auto isinf=[&](N n){ return nMk(N_FISINF,S_BOOL,{n}); };
    if(f=="fabs") return fabsV(a[0],T); if(f=="sqrt") return fromNode(nMk(N_FSQRT,so,{x}));
    if(f=="floor"||f=="ceil"||f=="trunc"||f=="rint"||f=="nearbyint"||f=="round") return fromNode(nMk(N_FRTI,so,{x},f=="floor"?0:f=="ceil"?1:f=="trunc"?2:f=="round"?4:3));
    if(f=="fmin"||f=="fmax"){ N y=fnode(a[1],DT); if(decide(isnan(x))) return a[1]; if(decide(isnan(y))) return a[0]; bool lt=decide(nMk(N_FLT,S_BOOL,{x,y})); return (lt==(f=="fmin"))?a[0]:a[1]; }
    if(f=="copysign"){ N y=fnode(a[1],DT); N ax=nMk(N_FABS,so,{x}); return fromNode(decide(nMk(N_FISNEG,S_BOOL,{y}))?nMk(N_FNEG,so,{ax}):ax); }
    if(f=="fmod"){ N y=fnode(a[1],DT); if(decide(nOr(nOr(isnan(x),isnan(y)),nOr(isinf(x),nMk(N_FEQ,S_BOOL,{y,nF(0,so)}))))) return Val::F(NAN);
      N ax=nMk(N_FABS,so,{x}), ay=isC(y)?nF(std::fabs(nFval(y)),so):nMk(N_FABS,so,{y}); if(decide(nMk(N_FLT,S_BOOL,{ax,ay}))) return fromNode(x);
      N r=nVar("u_fmod_"+std::to_string(x->id)+"_"+std::to_string(y->id),so); N ar=nMk(N_FABS,so,{r}); pcAdd(nMk(N_FLT,S_BOOL,{ar,ay})); pcAdd(nMk(N_FLE,S_BOOL,{ar,ax})); pcAdd(nNot(isnan(r))); pcAdd(nOr(nMk(N_FEQ,S_BOOL,{r,nF(0,so)}),nNot(nBxor(nMk(N_FISNEG,S_BOOL,{r}),nMk(N_FISNEG,S_BOOL,{x}))))); if(isC(y)&&so==S_F64&&std::isfinite(nFval(y))&&nFval(y)!=0){ double g=std::ldexp(1.0,std::ilogb(nFval(y))-52); pcAdd(nOr(nMk(N_FEQ,S_BOOL,{r,nF(0,so)}),nMk(N_FLE,S_BOOL,{nF(g,so),ar}))); /* |x|>=|y|: both are multiples of ulp(y) */ } return fromNode(r); }
    if(f=="fdim"){ N y=fnode(a[1],DT); if(decide(nOr(isnan(x),isnan(y)))) return Val::F(NAN); if(decide(nMk(N_FLE,S_BOOL,{x,y}))) return Val::F(0); return fpArith(Instruction::FSub,a[0],a[1],T); }
    if(f=="remainder"||f=="drem"){ N y=fnode(a[1],DT); if(!isC(y)||!std::isfinite(nFval(y))||nFval(y)==0) throw Unsupported("remainder by a symbolic divisor in ieee mode"); if(decide(nOr(isnan(x),isinf(x)))) return Val::F(NAN); double h=std::fabs(nFval(y))/2; N ax=nMk(N_FABS,so,{x}); if(decide(nMk(N_FLT,S_BOOL,{ax,nF(h,so)}))) return fromNode(x);
      N r=nVar("u_rem_"+std::to_string(x->id)+"_"+std::to_string(y->id),so); N ar=nMk(N_FABS,so,{r}); pcAdd(nMk(N_FLE,S_BOOL,{ar,nF(h,so)})); pcAdd(nMk(N_FLE,S_BOOL,{ar,ax})); pcAdd(nOr(nNot(nMk(N_FEQ,S_BOOL,{r,nF(0,so)})),nNot(nBxor(nMk(N_FISNEG,S_BOOL,{r}),nMk(N_FISNEG,S_BOOL,{x}))))); return fromNode(r); }
    auto ranged=[&](double lo,double hi){ N r=ieeeFresh(f,x,so); pcAdd(nMk(N_FLE,S_BOOL,{nF(lo,so),r})); pcAdd(nMk(N_FLE,S_BOOL,{r,nF(hi,so)})); return fromNode(r); };
    if(f=="sin"||f=="cos"){ if(decide(nOr(isnan(x),isinf(x)))) return Val::F(NAN); return ranged(-1,1); }
    if(f=="asin"||f=="acos"){ if(!decide(nAnd(nMk(N_FLE,S_BOOL,{nF(-1,so),x}),nMk(N_FLE,S_BOOL,{x,nF(1,so)})))) return Val::F(NAN); return f=="asin"?ranged(-PI_D/2,PI_D/2):ranged(0,PI_D); }
    if(f=="atan"){ if(decide(isnan(x))) return Val::F(NAN); return ranged(-PI_D/2,PI_D/2); }
    if(f=="atan2"){ N y=fnode(a[1],DT); if(decide(nOr(isnan(x),isnan(y)))) return Val::F(NAN); N r=nVar("u_atan2_"+std::to_string(x->id)+"_"+std::to_string(y->id),so); pcAdd(nMk(N_FLE,S_BOOL,{nF(-PI_D,so),r})); pcAdd(nMk(N_FLE,S_BOOL,{r,nF(PI_D,so)})); return fromNode(r); }
    throw Unsupported("math function "+f+" in ieee mode"); }
  for(auto&v:a) if(v.k==Val::Fp&&!std::isfinite(v.f)){ if(std::isnan(v.f)&&f!="fmin"&&f!="fmax") return v; if(f=="fmax"||f=="fmin"){ const Val&o=(&v==&a[0])?a[1]:a[0]; if(std::isnan(v.f)) return o; return ((v.f>0)==(f=="fmax"))?v:o; } if(f=="copysign"&&&v==&a[1]) { Val ab=fabsV(a[0],T); return v.f<0?fpNeg(ab,T):ab; } throw Unsupported("non-finite argument to "+f); }
  R x=toR(a[0]); stubsUsed.insert(f+" (exact real)");
  if(f=="fabs") return fabsV(a[0],T); if(f=="sqrt") return vSqrt(x);
  if(f=="sin") return vR(cosSin(x).second); if(f=="cos") return vR(cosSin(x).first);
  if(f=="tan"){ auto cs=cosSin(x); if(decide(rCmp(cs.first,REL_EQ))) return Val::F(INFINITY); return vR(rDiv(cs.second,cs.first)); }
  if(f=="atan2") return vAtan2(x,toR(a[1]));
  if(f=="asin"||f=="acos"){ R one=rConst(1); if(decide(nOr(rCmp(rSub(x,one),REL_GT),rCmp(rSub(rNeg(x),one),REL_GT)))) return Val::F(NAN); R s2=rSub(one,rMul(x,x)); Val q=vSqrt(s2); R qr=toR(q); return f=="asin"?mkAngle("asin:"+std::to_string(x->id)+":"+std::to_string(qr->id),x,qr,-PI_D/2,PI_D/2):mkAngle("acos:"+std::to_string(x->id)+":"+std::to_string(qr->id),qr,x,0,PI_D); }
  if(f=="atan"){ R r=toR(vSqrt(rAdd(rConst(1),rMul(x,x)))); return mkAngle("atan:"+std::to_string(x->id),rDiv(x,r),rDiv(rConst(1),r),-PI_D/2,PI_D/2); }
  if(f=="exp") return vR(rExp(x)); if(f=="exp2"||f=="exp10") return vR(rExp(rMul(x,rConstD(f=="exp2"?M_LN2:M_LN10))));
  if(f=="log"||f=="log10"||f=="log2"){ if(!decide(rCmp(x,REL_GT))) return Val::F(decide(rCmp(x,REL_EQ))?-INFINITY:NAN); R l=rLog(x); return vR(f=="log"?l:rMul(l,rConstD(1/(f=="log10"?M_LN10:M_LN2)))); }
  if(f=="floor") return floorV(x,0); if(f=="ceil") return floorV(x,1); if(f=="trunc") return floorV(x,2); if(f=="round") return floorV(x,3); if(f=="rint"||f=="nearbyint") return floorV(x,4);
  if(f=="fmin"||f=="fmax"){ R y=toR(a[1]); bool lt=decide(rCmp(rSub(y,x),REL_GT)); return (lt==(f=="fmin"))?a[0]:a[1]; }
  if(f=="remainder"||f=="drem"){ R y=toR(a[1]); if(decide(rCmp(y,REL_EQ))) return Val::F(NAN); Val k=floorV(rDiv(x,y),4); return vR(rSub(x,rMul(toR(k),y))); }
  if(f=="fdim"){ R y=toR(a[1]); return decide(rCmp(rSub(x,y),REL_GT))?vR(rSub(x,y)):Val::F(0); }
  if(f=="expm1") return vR(rSub(rExp(x),rConst(1))); if(f=="log1p") return mathFn("log",{vR(rAdd(x,rConst(1)))},T);
  if(f=="asinh") return mathFn("log",{vR(rAdd(x,toR(vSqrt(rAdd(rMul(x,x),rConst(1))))))},T);
  if(f=="nextafter"||f=="logb") throw Unsupported(f+" of a symbolic value");
  if(f=="hypot"){ R y=toR(a[1]); return vSqrt(rAdd(rMul(x,x),rMul(y,y))); }
  if(f=="copysign"){ Val ab=fabsV(a[0],T); bool neg=a[1].k==Val::Fp?std::signbit(a[1].f):!decide(rCmp(toR(a[1]),REL_GE)); return neg?fpNeg(ab,T):ab; }
  if(f=="fmod"){ R y=toR(a[1]); if(decide(rCmp(y,REL_EQ))) return Val::F(NAN); Val k=floorV(rDiv(x,y),2); return vR(rSub(x,rMul(toR(k),y))); }
  if(f=="pow"){ R y=toR(a[1]); if(y->isConst()){ mpq_class q=y->n->cst(); if(q.get_den()==1&&abs(q)<=64){ long n=q.get_num().get_si(); R r=rConst(1); for(long i=0;i<std::labs(n);i++) r=rMul(r,x); if(n<0){ if(decide(rCmp(x,REL_EQ))) return Val::F(INFINITY); r=rDiv(rConst(1),r); } return vR(r); } if(q==mpq_class(1,2)) return vSqrt(x); if(q.get_den()==2&&abs(q)<=32){ Val s=vSqrt(x); if(s.k==Val::Fp&&std::isnan(s.f)) return s; return mathFn("pow",{s,Val::F(mpq_class(q*2).get_d())},T); } }
    if(!decide(rCmp(x,REL_GT))) throw Unsupported("pow of a non-positive symbolic base"); R l=x->isConst()?rConstD(std::log(x->n->cst().get_d())):rLog(x); return vR(rExp(rMul(y,l))); }
  if(f=="sinh"||f=="cosh"||f=="tanh"){ R e=rExp(x), i=rDiv(rConst(1),e); R s=rMul(rSub(e,i),rConst(mpq_class(1,2))),c=rMul(rAdd(e,i),rConst(mpq_class(1,2))); return vR(f=="sinh"?s:f=="cosh"?c:rDiv(s,c)); }
  return vR(ufApp(f,{x})); }

// ------------------------------------------------------------------------------------------------ assertions
static std::string hexd(double d){ char b[64]; snprintf(b,sizeof b,"%a",d); return b; }
static std::string hexd17(double d){ char b[64]; snprintf(b,sizeof b,"%.17g",d); return b; }
static std::string writeInputs(const Model*m,const std::map<std::string,long double>*num,int k){ std::string fn=workDir+"/"+caseName+(caseArg>=0?"_"+std::to_string(caseArg):"")+"_"+std::to_string(getpid())+"_"+std::to_string(k)+".in"; std::ofstream o(fn);
  for(auto&i:inputs){ o<<i.name<<" "; if(i.kind==3) o<<"i "<<i.pick; else if(i.kind==1){ uint64_t v=i.ilo; if(m){ auto it=m->bv.find(i.node->name); if(it!=m->bv.end()) v=it->second; } o<<"i "<<sx(v,i.node->sort); } else { double v; auto nm=i.kind==0?PS.atoms[i.atom].name:i.node->name; bool have=false; if(i.kind==0){ if(m){ auto it=m->real.find(nm); if(it!=m->real.end()){ v=it->second.get_d(); have=true; } } if(!have&&num){ auto it=num->find(nm); if(it!=num->end()){ v=it->second; have=true; } } if(!have) v=i.lo+(i.hi-i.lo)*0.37; if(v<i.lo) v=i.lo; if(v>i.hi) v=i.hi; } else { v=i.lo; if(m){ auto it=m->bv.find(nm); if(it!=m->bv.end()){ if(i.node->sort==S_F64) memcpy(&v,&it->second,8); else { uint32_t b=it->second; float f; memcpy(&f,&b,4); v=f; } } } } o<<"d "<<hexd(v)<<" # "<<hexd17(v); } o<<"\n"; }
  return fn; }
static int runReplay(const std::string& fn,std::string& out,bool vg=false){ st.replays++; std::string cmd=std::string("timeout 60 ")+(vg?replayVg:replayBin)+" "+caseName+" "+std::to_string(caseArg)+" "+fn+" 2>&1"; FILE*p=popen(cmd.c_str(),"r"); if(!p) return -1; char b[4096]; out.clear(); size_t n; while((n=fread(b,1,sizeof b,p))>0) if(out.size()<20000) out.append(b,n); int r=pclose(p); return WIFEXITED(r)?WEXITSTATUS(r):128+WTERMSIG(r); }
static int candNo=0;
// outcome of the native run: 0 pass, 77 assumption not met, anything else: a failure reproduced
static bool tryReplay(const std::string& id,const std::string& kind,const std::string& detail,const Model*m,const std::map<std::string,long double>*num){
  std::string fn=writeInputs(m,num,candNo++); if(replayBin.empty()){ violations.push_back({id,kind,detail,fn,"",false}); return true; }
  std::string out; int rc=runReplay(fn,out); if(rc==0&&kind=="uninit"&&!replayVg.empty()) rc=runReplay(fn,out,true); if(verbose) fprintf(stderr,"replay %s rc=%d %s\n",fn.c_str(),rc,out.substr(0,300).c_str());
  if(rc!=0&&rc!=77&&rc!=76){ violations.push_back({id,kind,detail,fn,out.substr(0,1500),true}); return true; } unlink(fn.c_str()); return false; }
static bool sampleFor(N goal,std::map<std::string,long double>& res,int tries){ std::vector<N> pc=slice(PC,{goal}); for(int t=0;t<tries;t++){ NumEval e; for(auto&i:inputs) if(i.kind==0){ long double u=(long double)(rng()>>11)/9007199254740992.0L; int md=t%4; if(md==3&&(rng()&1)) u=(rng()&1)?0.0L:1.0L; double v=(double)(i.lo+(i.hi-i.lo)*u); if(md==2) v=std::round(v*4)/4; if(v<i.lo) v=i.lo; if(v>i.hi) v=i.hi; e.in[PS.atoms[i.atom].name]=v; } try{ bool ok=true; for(auto c:PC) if(!e.b(c)){ ok=false; break; } if(ok&&e.b(goal)){ res=e.in; return true; } } catch(Unsupported&){ return false; } } return false; }
// bad: negated assertion (with variants of decreasing margin). returns true when a violation has been confirmed
static void obligation(const std::string& id,std::vector<N> bads,const std::string& what){
  st.obligations++; reached[id]++;
  N bad=bads.back();
  if(isFalse(bad)){ st.byNormalForm++; if(st.byNormalForm%500==1) solve({},{bad},5); return; }
  timeCheck();
  Res r=isTrue(bad)?SAT:solve(PC,{bad},tAssert,nullptr,true,false);
  if(r==UNSAT){ st.bySolver++; return; }
  bool conf=false; std::map<std::string,long double> num;
  if(r==UNKNOWN){ for(auto b:bads){ if(sampleFor(b,num,400)){ conf=tryReplay(id,"assertion",what,nullptr,&num); if(conf) break; } } }
  if(!conf&&r==UNKNOWN){ r=solve(PC,{bad},tAssert,nullptr,true,true); if(r==UNSAT){ st.bySolver++; return; } }
  if(!conf){ for(auto b:bads){ if(isFalse(b)) continue; Model m; Res q=solve(PC,{b},tAssert,&m,false); if(q==SAT&&tryReplay(id,"assertion",what,&m,nullptr)){ conf=true; break; } 
      for(int k=0;k<3&&!conf;k++) if(sampleFor(b,num,300)) conf=tryReplay(id,"assertion",what,nullptr,&num); if(conf) break; } }
  if(conf) throw PathEnd{"violated",id};
  if(r==SAT&&!isTrue(bad)){ st.undecided++; undecidedMsgs.push_back(id+": solver model did not reproduce natively ("+what+")"); }
  else if(isTrue(bad)){ // must be unreachable or undecidable
    Res q=solve(PC,{},tAssert,nullptr,false,true); if(q==UNSAT) throw PathEnd{"infeasible",""}; st.undecided++; undecidedMsgs.push_back(id+": fails on a path whose feasibility is not reproduced ("+what+")"); throw PathEnd{"unknown",id}; }
  else { st.undecided++; undecidedMsgs.push_back(id+": undecided by the solvers ("+what+")"); }
  pcAdd(nNot(bad)); }

static std::string rfText(R r){ std::string s=pStr(r->n); if(s.size()>160) s=s.substr(0,160)+"..."; return r->d.empty()?s:s+" / (..)"; }
struct ExitExpect { bool on=false; int code=0; std::string id; } exitExpect;
static const int VP_ABORT=-1000;

// ------------------------------------------------------------------------------------------------ calls
static bool unwinding=false; static uint64_t exnObj=0; static std::string exnType; static std::vector<std::pair<uint64_t,std::string>> caught; static uint64_t instCount=0; static int depth=0;
static Val callFn(Function*F,std::vector<Val>& args);
static bool extCall(Function*F,const std::string& name,const std::string& dm,std::vector<Val>& a,Type*RT,Val& ret,CallBase*CB);
static std::map<std::string,int> tiId; static int typeId(const std::string& n){ auto it=tiId.find(n); if(it!=tiId.end()) return it->second; int k=tiId.size()+1; tiId[n]=k; return k; }
static const std::map<std::string,std::string> stdBase={{"_ZTISt11logic_error","_ZTISt9exception"},{"_ZTISt12out_of_range","_ZTISt11logic_error"},{"_ZTISt12length_error","_ZTISt11logic_error"},{"_ZTISt16invalid_argument","_ZTISt11logic_error"},{"_ZTISt12domain_error","_ZTISt11logic_error"},{"_ZTISt13runtime_error","_ZTISt9exception"},{"_ZTISt14overflow_error","_ZTISt13runtime_error"},{"_ZTISt15underflow_error","_ZTISt13runtime_error"},{"_ZTISt11range_error","_ZTISt13runtime_error"},{"_ZTISt9bad_alloc","_ZTISt9exception"},{"_ZTISt20bad_array_new_length","_ZTISt9bad_alloc"},{"_ZTISt8bad_cast","_ZTISt9exception"},{"_ZTISt17bad_function_call","_ZTISt9exception"}};
static bool derives(const std::string& t,const std::string& b){ if(t==b) return true; auto it=stdBase.find(t); if(it!=stdBase.end()) return derives(it->second,b); // user class: read typeinfo {vt,name,base,...}
  if(auto*G=mod->getNamedGlobal(t)) if(!G->isDeclaration()) if(auto*S=dyn_cast<ConstantStruct>(G->getInitializer())) for(unsigned i=2;i<S->getNumOperands();i++) if(auto*B=dyn_cast<GlobalVariable>(S->getOperand(i)->stripPointerCasts())) if(derives(B->getName().str(),b)) return true; return false; }
static void throwType(const std::string& ti){ exnObj=newObj(64,'h',"exception"); memset(objs.back()->s.data(),1,64); exnType=ti; unwinding=true; }
static std::string gnm(uint64_t a){ auto it=gnameAt.find(a); return it==gnameAt.end()?"":it->second; }
static Val undefOf(Type*T){ if(T->isStructTy()||T->isArrayTy()){ std::vector<Val> v; unsigned n=T->isStructTy()?T->getStructNumElements():T->getArrayNumElements(); for(unsigned i=0;i<n;i++) v.push_back(undefOf(T->isStructTy()?T->getStructElementType(i):T->getArrayElementType())); return Val::A(v);} if(auto*V=dyn_cast<FixedVectorType>(T)){ std::vector<Val> v(V->getNumElements()); return Val::A(v);} return Val(); }

static Val bitcast(const Val&v,Type*S,Type*D){ if(S==D||v.k==Val::Undef) return v; if(v.k==Val::Agg||D->isVectorTy()||(v.k==Val::FpBits&&v.u==2)){ uint64_t t=newObj(64,'s'); storeVal(t,v,S); Val r=loadVal(t,D); return r; } if(S->isFloatingPointTy()&&D->isIntegerTy()){ if(v.k==Val::Fp){ uint64_t u=0; if(S->isDoubleTy()){ double d=v.f; memcpy(&u,&d,8);} else { float d=v.f; memcpy(&u,&d,4);} return Val::I(u);} Val r; r.k=Val::FpBits; r.u=v.k==Val::Nd; r.p=v.p; return r; } if(S->isIntegerTy()&&D->isFloatingPointTy()){ if(v.k==Val::Int){ if(D->isDoubleTy()){ double d; memcpy(&d,&v.u,8); return Val::F(d);} float f; uint32_t b=v.u; memcpy(&f,&b,4); return Val::F(f);} if(v.k==Val::FpBits){ Val r; r.k=v.u?Val::Nd:Val::Real; r.p=v.p; return r; } throw Unsupported("bitcast of symbolic integer"); } return v; }

static Val castOp(unsigned opc,const Val&v,Type*S,Type*D){
  if(v.k==Val::Agg&&opc!=Instruction::BitCast){ std::vector<Val> r; for(auto&e:*v.a) r.push_back(castOp(opc,e,cast<VectorType>(S)->getElementType(),cast<VectorType>(D)->getElementType())); return Val::A(r); }
  if(v.k==Val::Undef&&opc!=Instruction::BitCast) return v; unsigned sw=S->isIntegerTy()?S->getIntegerBitWidth():64, dw=D->isIntegerTy()?D->getIntegerBitWidth():64;
  switch(opc){
    case Instruction::BitCast: case Instruction::AddrSpaceCast: return bitcast(v,S,D);
    case Instruction::PtrToInt: case Instruction::IntToPtr: return v;
    case Instruction::Trunc: if(v.k==Val::Int) return Val::I(v.u&maskOf(dw)); if(v.k==Val::FpBits) throw Unsupported("truncation of floating-point bits"); if(dw==1) return fromNode(nICmp(N_EQ,nExtract(v.n(),0,1),nBV(1,1))); return fromNode(nExtract(v.n(),0,dw));
    case Instruction::ZExt: if(v.k==Val::Int) return Val::I(v.u&maskOf(sw)); if(v.k==Val::FpBits) throw Unsupported("zext of fp bits"); if(sw==1) return fromNode(nToBV(v.n(),dw)); return fromNode(nZext(v.n(),dw));
    case Instruction::SExt: if(v.k==Val::Int) return Val::I((uint64_t)sx(v.u,sw)&maskOf(dw)); if(sw==1) return fromNode(nIte(v.n(),nBV(maskOf(dw),dw),nBV(0,dw))); return fromNode(nSext(v.n(),dw));
    case Instruction::FPExt: if(v.k==Val::Nd) return fromNode(nMk(N_FCAST,fsort(D),{v.n()})); return v;
    case Instruction::FPTrunc: if(v.k==Val::Fp) return Val::F(rnd(v.f,D)); if(v.k==Val::Nd) return fromNode(nMk(N_FCAST,fsort(D),{v.n()})); return v;
    case Instruction::SIToFP: case Instruction::UIToFP: { if(v.k==Val::Int){ if(opc==Instruction::SIToFP){ int64_t x=sx(v.u,sw); return Val::F(D->isDoubleTy()?(long double)(double)x:D->isFloatTy()?(long double)(float)x:(long double)x);} uint64_t x=v.u&maskOf(sw); return Val::F(D->isDoubleTy()?(long double)(double)x:D->isFloatTy()?(long double)(float)x:(long double)x); }
      if(IEEE||true){ if(IEEE){ N n=v.n(); if(n->sort==S_BOOL) n=nToBV(n,8); return fromNode(nMk(opc==Instruction::SIToFP?N_SITOFP:N_UITOFP,fsort(D),{n})); } uint64_t x=v.n()->sort==S_BOOL?(uint64_t)truth(v):concretizeBV(v.n(),"int to fp"); return Val::F(opc==Instruction::SIToFP?(long double)(double)sx(x,sw):(long double)(double)x); } }
    case Instruction::FPToSI: case Instruction::FPToUI: { if(v.k==Val::Fp){ if(std::isnan(v.f)||v.f>=18446744073709551616.0L||v.f<-9223372036854775808.0L) event("ub","floating-point to integer conversion out of range"); long double t=truncl(v.f); if(opc==Instruction::FPToSI){ if(dw<64&&(t>=ldexpl(1,dw-1)||t<-ldexpl(1,dw-1))) event("ub","floating-point to integer conversion out of range"); return Val::I((uint64_t)(int64_t)t&maskOf(dw)); } if(t<0) event("ub","negative floating-point to unsigned conversion"); return Val::I((uint64_t)t&maskOf(dw)); }
      if(v.k==Val::Nd) return fromNode(nMk(opc==Instruction::FPToSI?N_FPTOSI:N_FPTOUI,dw,{v.n()})); Val f=floorV(v.r(),2); if(opc==Instruction::FPToUI&&f.f<0) event("ub","negative floating-point to unsigned conversion"); return Val::I((uint64_t)(int64_t)f.f&maskOf(dw)); }
    default: throw Unsupported("cast"); } }

static Val intrinsic(In&x,std::vector<Val>&a,CallBase*CB){ auto id=x.callee->getIntrinsicID(); Type*T=x.T; StringRef nm=x.callee->getName();
  if(T->isVectorTy()&&!a.empty()&&a[0].k==Val::Agg){ std::vector<Val> r; In y=x; y.T=cast<VectorType>(T)->getElementType(); for(size_t i=0;i<a[0].a->size();i++){ std::vector<Val> b; for(auto&v:a) b.push_back(v.k==Val::Agg?(*v.a)[i]:v); r.push_back(intrinsic(y,b,CB)); } return Val::A(r); }
  switch(id){
    case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove: memCopy(cint(a[0],"address"),cint(a[1],"address"),cint(a[2],"size")); return Val();
    case Intrinsic::memset: case Intrinsic::memset_inline: { uint64_t n=cint(a[2],"size"); if(!n) return Val(); uint32_t off; uint64_t p=cint(a[0],"address"); Obj*o=find(p,n,off,true); clearCells(o,off,n); if(a[1].k==Val::Undef) memset(&o->s[off],0,n); else { memset(&o->d[off],(int)cint(a[1],"memset value"),n); memset(&o->s[off],1,n);} return Val(); }
    case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::stackrestore: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::var_annotation: return Val();
    case Intrinsic::stacksave: return Val::I(0);
    case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::threadlocal_address: case Intrinsic::ssa_copy: return a[0];
    case Intrinsic::trap: event("abort","trap"); 
    case Intrinsic::is_constant: return Val::I(0); case Intrinsic::objectsize: return Val::I(cint(a[1],"x")?0:~0ull);
    case Intrinsic::eh_typeid_for: return Val::I(typeId(a[0].u==0?"":gnm(a[0].u)));
    case Intrinsic::fabs: return mathFn("fabs",{a[0]},T); case Intrinsic::sqrt: return mathFn("sqrt",{a[0]},T); case Intrinsic::sin: return mathFn("sin",{a[0]},T); case Intrinsic::cos: return mathFn("cos",{a[0]},T); case Intrinsic::exp: return mathFn("exp",{a[0]},T); case Intrinsic::exp2: return mathFn("exp2",{a[0]},T); case Intrinsic::exp10: return mathFn("exp10",{a[0]},T); case Intrinsic::log: return mathFn("log",{a[0]},T); case Intrinsic::log10: return mathFn("log10",{a[0]},T); case Intrinsic::log2: return mathFn("log2",{a[0]},T); case Intrinsic::floor: return mathFn("floor",{a[0]},T); case Intrinsic::ceil: return mathFn("ceil",{a[0]},T); case Intrinsic::trunc: return mathFn("trunc",{a[0]},T); case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: return mathFn("rint",{a[0]},T); case Intrinsic::round: return mathFn("round",{a[0]},T);
    case Intrinsic::pow: return mathFn("pow",{a[0],a[1]},T); case Intrinsic::powi: { int64_t n=sx(cint(a[1],"exponent"),32); return mathFn("pow",{a[0],Val::F(n)},T); }
    case Intrinsic::copysign: return mathFn("copysign",{a[0],a[1]},T); case Intrinsic::minnum: case Intrinsic::minimum: return mathFn("fmin",{a[0],a[1]},T); case Intrinsic::maxnum: case Intrinsic::maximum: return mathFn("fmax",{a[0],a[1]},T);
    case Intrinsic::fma: if(a[0].k==Val::Fp&&a[1].k==Val::Fp&&a[2].k==Val::Fp&&T->isDoubleTy()) return Val::F(fma((double)a[0].f,(double)a[1].f,(double)a[2].f)); [[fallthrough]];
    case Intrinsic::fmuladd: return fpArith(Instruction::FAdd,fpArith(Instruction::FMul,a[0],a[1],T),a[2],T);
    case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: { unsigned w=a[0].k==Val::Nd?a[0].n()->sort:T->getStructElementType(0)->getIntegerBitWidth(); uint64_t p=cint(a[0],"overflow op"),q=cint(a[1],"overflow op"); bool s=id==Intrinsic::smul_with_overflow||id==Intrinsic::sadd_with_overflow||id==Intrinsic::ssub_with_overflow; __int128 X=s?(__int128)sx(p,w):(__int128)p,Y=s?(__int128)sx(q,w):(__int128)q,Z=(id==Intrinsic::umul_with_overflow||id==Intrinsic::smul_with_overflow)?X*Y:(id==Intrinsic::uadd_with_overflow||id==Intrinsic::sadd_with_overflow)?X+Y:X-Y; uint64_t r=(uint64_t)Z&maskOf(w); bool ov=s?Z!=(__int128)sx(r,w):(Z<0||Z!=(__int128)r); return Val::A({Val::I(r),Val::I(ov)}); }
    case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: { unsigned w=x.w?x.w:T->getIntegerBitWidth(); unsigned pr=id==Intrinsic::smax?CmpInst::ICMP_SGT:id==Intrinsic::smin?CmpInst::ICMP_SLT:id==Intrinsic::umax?CmpInst::ICMP_UGT:CmpInst::ICMP_ULT; return truth(icmp(pr,a[0],a[1],w))?a[0]:a[1]; }
    case Intrinsic::abs: { unsigned w=T->getIntegerBitWidth(); if(truth(icmp(CmpInst::ICMP_SLT,a[0],Val::I(0),w))) return intBin(Instruction::Sub,Val::I(0),a[0],w,nullptr); return a[0]; }
    case Intrinsic::ctlz: { uint64_t v=cint(a[0],"ctlz"); unsigned w=T->getIntegerBitWidth(); unsigned n=0; while(n<w&&!((v>>(w-1-n))&1)) n++; return Val::I(n); }
    case Intrinsic::cttz: { uint64_t v=cint(a[0],"cttz"); unsigned w=T->getIntegerBitWidth(); unsigned n=0; while(n<w&&!((v>>n)&1)) n++; return Val::I(n); }
    case Intrinsic::ctpop: return Val::I(__builtin_popcountll(cint(a[0],"ctpop")));
    case Intrinsic::fshl: case Intrinsic::fshr: { unsigned w=T->getIntegerBitWidth(); uint64_t h=cint(a[0],"x"),l=cint(a[1],"x"),s=cint(a[2],"x")%w; if(s==0) return id==Intrinsic::fshl?a[0]:a[1]; if(id==Intrinsic::fshr) s=w-s; return Val::I(((h<<s)|(l>>(w-s)))&maskOf(w)); }
    case Intrinsic::usub_sat: { uint64_t p=cint(a[0],"x"),q=cint(a[1],"x"); return Val::I(p>q?p-q:0); }
    case Intrinsic::ldexp: { int64_t e=sx(cint(a[1],"exponent"),32); return fpArith(Instruction::FMul,a[0],Val::F(ldexpl(1,e)),T); }
    case Intrinsic::is_fpclass: { uint64_t m=cint(a[1],"class"); const Val&v=a[0]; if(v.k==Val::Undef) return v; if(v.k==Val::Fp){ double d=v.f; unsigned c=std::isnan(d)?0x3:std::isinf(d)?(d<0?0x4:0x200):d==0?(std::signbit(d)?0x20:0x40):(d<0?0x8|0x10:0x80|0x100); return Val::I((m&c)!=0); }
      if(v.k==Val::Real){ uint64_t fin=m&0x1f8; if(!fin) return Val::I(0); if(fin==0x1f8) return Val::I(1); N r=nBool(false); if(m&0x18) r=nOr(r,nNot(rCmp(v.r(),REL_GE))); if(m&0x180) r=nOr(r,rCmp(v.r(),REL_GT)); if(m&0x60) r=nOr(r,rCmp(v.r(),REL_EQ)); return fromNode(r); }
      N n=v.n(); N r=nBool(false); N neg=nMk(N_FISNEG,S_BOOL,{n}),inf=nMk(N_FISINF,S_BOOL,{n}),nan=nMk(N_FISNAN,S_BOOL,{n}),z=nMk(N_FEQ,S_BOOL,{n,nF(0,n->sort)}); N fin=nAnd(nAnd(nNot(inf),nNot(nan)),nNot(z)); if(m&3) r=nOr(r,nan); if(m&4) r=nOr(r,nAnd(inf,neg)); if(m&0x200) r=nOr(r,nAnd(inf,nNot(neg))); if(m&0x20) r=nOr(r,nAnd(z,neg)); if(m&0x40) r=nOr(r,nAnd(z,nNot(neg))); if(m&0x18) r=nOr(r,nAnd(fin,neg)); if(m&0x180) r=nOr(r,nAnd(fin,nNot(neg))); return fromNode(r); }
    case Intrinsic::vector_reduce_fadd: { Val s=a[0]; for(auto&e:*a[1].a) s=fpArith(Instruction::FAdd,s,e,T); return s; }
    default: break; }
  if(nm.starts_with("llvm.dbg")||nm.starts_with("llvm.lifetime")) return Val();
  throw Unsupported("intrinsic "+nm.str()); }

static Val selectV(const Val&c,const Val&a,const Val&b,Type*T){
  if(c.k==Val::Int) return (c.u&1)?a:b; if(c.k==Val::Agg){ std::vector<Val> r; for(size_t i=0;i<c.a->size();i++) r.push_back(selectV((*c.a)[i],(*a.a)[i],(*b.a)[i],cast<VectorType>(T)->getElementType())); return Val::A(r); }
  if(c.k==Val::Nd&&T->isIntegerTy()&&(a.k==Val::Int||a.k==Val::Nd)&&(b.k==Val::Int||b.k==Val::Nd)){ unsigned w=T->getIntegerBitWidth(); return fromNode(nIte(c.n(),nodeOf(a,w),nodeOf(b,w))); }
  if(c.k==Val::Undef){ if(a.k==b.k&&a.k==Val::Int&&a.u==b.u) return a; if(a.k==Val::Undef||b.k==Val::Undef) return Val(); }
  return truth(c)?a:b; }

static std::unordered_map<Function*,int> interceptKind;   // 0 none 1 intercepted
static bool mustIntercept(Function*F,const std::string& d){ auto it=interceptKind.find(F); if(it!=interceptKind.end()) return it->second; bool r=false;
  if(d.find("std::basic_ostream<")==0||d.find("std::ostream")==0){ r=true; }
  if(d.find("basic_ostream<char, std::char_traits<char>>& ")==0||d.find("std::basic_ostream<char, std::char_traits<char>>& ")==0) r=true;
  if(d.find("std::__ostream_insert")!=std::string::npos||d.find("std::endl<")!=std::string::npos||d.find("Eigen::operator<<")!=std::string::npos||d.find("std::ostream& ")==0) r=true;
  if(d.find("boost::math::")!=std::string::npos){ static const char*fs[]={"cyl_bessel_j","cyl_neumann","cyl_bessel_i","cyl_bessel_k","cyl_hankel_1","cyl_hankel_2","expint","sph_bessel","tgamma","lgamma","erf","erfc"}; int depth=0; for(size_t p=0;p<d.size();p++){ char c=d[p]; if(c=='('&&depth==0) break; if(c=='<') depth++; else if(c=='>') depth--; else if(depth==0&&c=='b'&&(p==0||d[p-1]==' ')&&d.compare(p,13,"boost::math::")==0) for(auto f:fs){ size_t n=strlen(f); if(d.compare(p+13,n,f)==0&&d[p+13+n]=='<') r=true; } } } // the function itself, not its return type or a template argument
  interceptKind[F]=r; return r; }

static Val execFn(Fn*f,std::vector<Val>& args){
  if(++depth>3000) throw Unsupported("call depth"); Val retv; std::vector<Val> s(f->slots); for(size_t i=0;i<args.size()&&i<f->F->arg_size();i++) s[i]=args[i];
  std::vector<uint64_t> allocas; int bb=0,pred=-1; callStack.push_back(f->dem.substr(0,120)); if(f->isLib) funcsExecuted.insert(f->dem);
  auto fin=[&](){ for(auto a:allocas) objs[(a>>32)-1]->alive=false; for(auto a:allocas){ Obj*o=objs[(a>>32)-1]; std::vector<uint8_t>().swap(o->d); std::vector<uint8_t>().swap(o->s); o->cells.clear(); } callStack.pop_back(); depth--; };
  std::vector<Val> tmp; std::vector<Val> ca;
  for(;;){ Blk&b=f->b[bb];
    if(!b.phis.empty()){ int pi=b.predIx[pred]; tmp.clear(); for(auto&p:b.phis){ Op&o=p.bySrc[pi]; tmp.push_back(o.slot>=0?s[o.slot]:o.c); } for(size_t i=0;i<b.phis.size();i++) s[b.phis[i].dst]=tmp[i]; }
    int next=-1;
    for(auto&x:b.ins){
      if(++instCount>instLimit) throw PathEnd{"budget","instruction budget exhausted in "+where()};
      auto V=[&](int i)->const Val&{ Op&o=x.o[i]; return o.slot>=0?s[o.slot]:o.c; };
      switch(x.opc){
        case Instruction::Ret: if(!x.o.empty()) retv=V(0); fin(); return retv;
        case Instruction::Br: if(x.o.empty()) next=x.bb0; else next=truth(V(0))?x.bb0:x.bb1; break;
        case Instruction::Switch: { const Val&v=V(0); unsigned w=x.I->getOperand(0)->getType()->getIntegerBitWidth(); next=x.bb0; if(v.k==Val::Undef) event("uninit","switch on an uninitialised value"); if(v.k==Val::Int){ for(auto&c:x.gidx) if((uint64_t)c.second==(v.u&maskOf(w))){ next=c.first; break; } } else for(auto&c:x.gidx) if(decide(nICmp(N_EQ,nodeOf(v,w),nBV(c.second,w)))){ next=c.first; break; } break; }
        case Instruction::Unreachable: event("ub","unreachable code executed (undefined behaviour, e.g. a missing return)"); break;
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
          if(V(0).k==Val::Agg){ std::vector<Val> r; unsigned w=cast<VectorType>(x.T)->getElementType()->getIntegerBitWidth(); for(size_t i=0;i<V(0).a->size();i++) r.push_back(intBin(x.opc,(*V(0).a)[i],(*V(1).a)[i],w,nullptr)); s[x.dst]=Val::A(r); } else s[x.dst]=intBin(x.opc,V(0),V(1),x.w,x.I); break;
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
          if(V(0).k==Val::Agg){ std::vector<Val> r; for(size_t i=0;i<V(0).a->size();i++) r.push_back(fpArith(x.opc,(*V(0).a)[i],(*V(1).a)[i],cast<VectorType>(x.T)->getElementType())); s[x.dst]=Val::A(r); } else s[x.dst]=fpArith(x.opc,V(0),V(1),x.T); break;
        case Instruction::FNeg: if(V(0).k==Val::Agg){ std::vector<Val> r; for(auto&e:*V(0).a) r.push_back(fpNeg(e,nullptr)); s[x.dst]=Val::A(r);} else s[x.dst]=fpNeg(V(0),x.T); break;
        case Instruction::ICmp: { Type*T=x.I->getOperand(0)->getType(); auto pr=cast<ICmpInst>(x.I)->getPredicate(); if(T->isVectorTy()){ std::vector<Val> r; Type*E=cast<VectorType>(T)->getElementType(); unsigned w=E->isPointerTy()?64:E->getIntegerBitWidth(); for(size_t i=0;i<V(0).a->size();i++) r.push_back(icmp(pr,(*V(0).a)[i],(*V(1).a)[i],w)); s[x.dst]=Val::A(r);} else s[x.dst]=icmp(pr,V(0),V(1),T->isPointerTy()?64:T->getIntegerBitWidth()); break; }
        case Instruction::FCmp: { Type*T=x.I->getOperand(0)->getType(); auto pr=cast<FCmpInst>(x.I)->getPredicate(); if(T->isVectorTy()){ std::vector<Val> r; for(size_t i=0;i<V(0).a->size();i++) r.push_back(fcmp(pr,(*V(0).a)[i],(*V(1).a)[i],cast<VectorType>(T)->getElementType())); s[x.dst]=Val::A(r);} else s[x.dst]=fcmp(pr,V(0),V(1),T); break; }
        case Instruction::Select: s[x.dst]=selectV(V(0),V(1),V(2),x.T); break;
        case Instruction::Alloca: { auto*A=cast<AllocaInst>(x.I); uint64_t n=DL->getTypeAllocSize(A->getAllocatedType()); if(A->isArrayAllocation()) n*=cint(V(0),"alloca size"); uint64_t a=newObj(n,'s'); allocas.push_back(a); s[x.dst]=Val::I(a); break; }
        case Instruction::Load: { const Val&p=V(0); s[x.dst]=loadVal(cint(p,"address"),x.T); break; }
        case Instruction::Store: storeVal(cint(V(1),"address"),V(0),x.I->getOperand(0)->getType()); break;
        case Instruction::GetElementPtr: { const Val&p=V(0); if(p.k==Val::Undef) { s[x.dst]=Val(); break; } uint64_t a=cint(p,"address")+x.goff; for(size_t gi=0;gi<x.gidx.size();gi++){ auto&g=x.gidx[gi]; a+=(uint64_t)(sx(cint(V(g.first),"index"),x.gw[gi])*g.second); } s[x.dst]=Val::I(a); break; }
        case Instruction::ExtractValue: { Val v=V(0); for(unsigned ix:cast<ExtractValueInst>(x.I)->indices()){ Val t=v.k==Val::Agg?(*v.a)[ix]:Val(); v=t; } s[x.dst]=v; break; }
        case Instruction::InsertValue: { auto*IV=cast<InsertValueInst>(x.I); Val v=V(0).k==Val::Undef?undefOf(x.T):V(0); std::function<Val(Val,unsigned)> ins=[&](Val t,unsigned d)->Val{ if(d==IV->getNumIndices()) return V(1); std::vector<Val> e=*t.a; e[IV->getIndices()[d]]=ins(e[IV->getIndices()[d]],d+1); return Val::A(e); }; s[x.dst]=ins(v,0); break; }
        case Instruction::ExtractElement: s[x.dst]=V(0).k==Val::Agg?(*V(0).a)[cint(V(1),"index")]:Val(); break;
        case Instruction::InsertElement: { Val v=V(0).k==Val::Undef?undefOf(x.T):V(0); std::vector<Val> e=*v.a; e[cint(V(2),"index")]=V(1); s[x.dst]=Val::A(e); break; }
        case Instruction::ShuffleVector: { auto*SV=cast<ShuffleVectorInst>(x.I); Val p=V(0).k==Val::Undef?undefOf(x.I->getOperand(0)->getType()):V(0), q=V(1).k==Val::Undef?undefOf(x.I->getOperand(1)->getType()):V(1); std::vector<Val> e; int n=p.a->size(); for(int m:SV->getShuffleMask()) e.push_back(m<0?Val():m<n?(*p.a)[m]:(*q.a)[m-n]); s[x.dst]=Val::A(e); break; }
        case Instruction::Freeze: { Val v=V(0); if(v.k==Val::Undef) v=x.T->isFloatingPointTy()?Val::F(0):Val::I(0); s[x.dst]=v; break; }
        case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: s[x.dst]=castOp(x.opc,V(0),x.I->getOperand(0)->getType(),x.T); break;
        case Instruction::Fence: break;
        case Instruction::AtomicRMW: { auto*A=cast<AtomicRMWInst>(x.I); uint64_t p=cint(V(0),"address"); Val o=loadVal(p,x.T); Val n; switch(A->getOperation()){ case AtomicRMWInst::Add:n=intBin(Instruction::Add,o,V(1),x.w,nullptr);break; case AtomicRMWInst::Sub:n=intBin(Instruction::Sub,o,V(1),x.w,nullptr);break; case AtomicRMWInst::Xchg:n=V(1);break; default: throw Unsupported("atomicrmw"); } storeVal(p,n,x.T); s[x.dst]=o; break; }
        case Instruction::AtomicCmpXchg: { uint64_t p=cint(V(0),"address"); Type*T=x.I->getOperand(1)->getType(); Val o=loadVal(p,T); bool eq=truth(icmp(CmpInst::ICMP_EQ,o,V(1),T->isPointerTy()?64:T->getIntegerBitWidth())); if(eq) storeVal(p,V(2),T); s[x.dst]=Val::A({o,Val::I(eq)}); break; }
        case Instruction::Call: case Instruction::Invoke: { auto*CB=cast<CallBase>(x.I); ca.clear(); std::vector<Val> a; unsigned na=CB->arg_size(); a.reserve(na); for(unsigned i=0;i<na;i++) a.push_back(V(i));
          // byval arguments
          for(unsigned i=0;i<na;i++) if(CB->isByValArgument(i)){ uint64_t n=DL->getTypeAllocSize(CB->getParamByValType(i)); uint64_t c=newObj(n,'s'); allocas.push_back(c); memCopy(c,cint(a[i],"address"),n); a[i]=Val::I(c); }
          Function*F=x.callee; if(!F){ if(CB->isInlineAsm()){ if(x.dst>=0) s[x.dst]=undefOf(x.T); if(x.opc==Instruction::Invoke) next=x.bb0; break; } uint64_t p=cint(V(na),"function pointer"); uint64_t id=p>>32; if(id==0||id>objs.size()||!objs[id-1]->fn||(p&0xffffffff)!=OFF0) event("memory","call through an invalid function pointer"); F=objs[id-1]->fn; }
          Val r; if(F->isIntrinsic()){ In y=x; y.callee=F; r=intrinsic(y,a,CB); } else { Val er; const std::string nm=F->getName().str(); 
            Fn*pf=nullptr; bool inter=false; if(!F->isDeclaration()){ pf=prep(F); inter=mustIntercept(F,pf->dem); }
            if(pf&&!inter) r=execFn(pf,a); else { if(!extCall(F,nm,pf?pf->dem:dem(nm),a,CB->getType(),er,CB)){ if(!initDone&&dem(nm).find("boost::math::")!=std::string::npos) er=x.T->isFloatingPointTy()?Val::F(0):x.T->isVoidTy()?Val():Val::I(0); /* boost table warm-up in static initialisers: result unused */ else throw Unsupported("external function "+dem(nm)+" called from "+where()); } r=er; } }
          if(unwinding){ if(x.opc==Instruction::Invoke){ next=x.bb1; unwinding=false; } else { fin(); return Val(); } } else { if(x.dst>=0) s[x.dst]=r; if(x.opc==Instruction::Invoke) next=x.bb0; }
          break; }
        case Instruction::LandingPad: { auto*L=cast<LandingPadInst>(x.I); int sel=-1; for(unsigned i=0;i<L->getNumClauses()&&sel<0;i++) if(L->isCatch(i)){ Constant*c=cast<Constant>(L->getClause(i)->stripPointerCasts()); if(isa<ConstantPointerNull>(c)) sel=typeId(""); else if(derives(exnType,c->getName().str())) sel=typeId(c->getName().str()); } else { // filter: treat as no match when empty
              }
          if(sel<0){ if(L->isCleanup()) sel=0; else { unwinding=true; fin(); return Val(); } } s[x.dst]=Val::A({Val::I(exnObj),Val::I(sel)}); break; }
        case Instruction::Resume: unwinding=true; fin(); return Val();
        case Instruction::VAArg: default: throw Unsupported(std::string("instruction ")+x.I->getOpcodeName());
      }
      if(next>=0) break;
    }
    pred=bb; bb=next; if(bb<0) throw Unsupported("no successor"); } }
static Val callFn(Function*F,std::vector<Val>& a){ return execFn(prep(F),a); }

#include "externs.inc"
