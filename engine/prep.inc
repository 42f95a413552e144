// constants, globals and function preparation
static int regionForFill=0;
static Val evalConst(const Constant*c);
static u64 funcAddr(Function*F);
static FInfo*finfo(Function*F);

static Val evalCE(const ConstantExpr*ce){
  switch(ce->getOpcode()){
  case Instruction::GetElementPtr: { auto*g=cast<GEPOperator>(ce); APInt off(64,0); Val b=evalConst(cast<Constant>(g->getPointerOperand())); if(!g->accumulateConstantOffset(*DL,off)) abort(); return V(b.c+off.getSExtValue()); }
  case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: { Val v=evalConst(ce->getOperand(0)); unsigned w=tyBits(ce->getType()); if(w<64&&w) v.c&=(u64)maskw(w); return v; }
  case Instruction::Trunc: { Val v=evalConst(ce->getOperand(0)); v.c&=(u64)maskw(tyBits(ce->getType())); return v; }
  case Instruction::Add: return V(evalConst(ce->getOperand(0)).c+evalConst(ce->getOperand(1)).c);
  case Instruction::Sub: return V(evalConst(ce->getOperand(0)).c-evalConst(ce->getOperand(1)).c);
  case Instruction::ICmp: { u64 a=evalConst(ce->getOperand(0)).c,b=evalConst(ce->getOperand(1)).c; switch(ce->getPredicate()){ case CmpInst::ICMP_EQ: return V(a==b); case CmpInst::ICMP_NE: return V(a!=b); case CmpInst::ICMP_ULT: return V(a<b); case CmpInst::ICMP_UGT: return V(a>b); default: break; } }
  default: errs()<<"constexpr "<<*ce<<"\n"; abort(); } }
static Val zeroOf(Type*t){ if(tyBits(t)) { return tyBits(t)>64?Val{mkc(0,tyBits(t)),0}:V(0); } Agg*g=new Agg; if(auto*st=dyn_cast<StructType>(t)) for(auto*e:st->elements()) g->v.push_back(zeroOf(e)); else if(auto*at=dyn_cast<ArrayType>(t)) for(u64 i=0;i<at->getNumElements();i++) g->v.push_back(zeroOf(at->getElementType())); else if(auto*vt=dyn_cast<FixedVectorType>(t)) for(u64 i=0;i<vt->getNumElements();i++) g->v.push_back(zeroOf(vt->getElementType())); return V((u64)g); }
static Val fpBits(const APFloat&f){ APInt b=f.bitcastToAPInt(); if(b.getBitWidth()<=64) return V(b.getZExtValue()); return VE(mkc(((u128)b.getRawData()[1]<<64)|b.getRawData()[0],b.getBitWidth())); }
static Val evalConst(const Constant*c){
  if(auto*ci=dyn_cast<ConstantInt>(c)){ if(ci->getBitWidth()<=64) return V(ci->getZExtValue()); auto&a=ci->getValue(); return Val{mkc(((u128)a.getRawData()[1]<<64)|a.getRawData()[0],ci->getBitWidth()),0}; }
  if(auto*cf=dyn_cast<ConstantFP>(c)) return fpBits(cf->getValueAPF());
  if(isa<ConstantPointerNull>(c)) return V(0);
  if(isa<UndefValue>(c)||isa<ConstantAggregateZero>(c)||isa<ConstantTokenNone>(c)) return zeroOf(c->getType());
  if(auto*f=dyn_cast<Function>(c)) return V(f->isDeclaration()&&f->hasExternalWeakLinkage()?0:funcAddr(const_cast<Function*>(f)));
  if(auto*g=dyn_cast<GlobalVariable>(c)){ auto it=gaddr.find(g); if(it==gaddr.end()){ if(g->isThreadLocal()) return V(0); abort(); } return V(it->second); }
  if(auto*a=dyn_cast<GlobalAlias>(c)) return evalConst(a->getAliasee());
  if(auto*ce=dyn_cast<ConstantExpr>(c)) return evalCE(ce);
  if(auto*cd=dyn_cast<ConstantDataSequential>(c)){ Agg*g=new Agg; for(unsigned i=0;i<cd->getNumElements();i++) g->v.push_back(evalConst(cd->getElementAsConstant(i))); return V((u64)g); }
  if(auto*ca=dyn_cast<ConstantAggregate>(c)){ Agg*g=new Agg; for(unsigned i=0;i<ca->getNumOperands();i++) g->v.push_back(evalConst(ca->getOperand(i))); return V((u64)g); }
  if(auto*de=dyn_cast<DSOLocalEquivalent>(c)) return evalConst(de->getGlobalValue());
  errs()<<"const "<<*c<<"\n"; abort(); }
static void fillInit(Obj*o,u64 off,const Constant*c){
  Type*t=c->getType();
  if(isa<ConstantAggregateZero>(c)||isa<UndefValue>(c)||isa<ConstantPointerNull>(c)) return;
  if(auto*cd=dyn_cast<ConstantDataSequential>(c)){ StringRef r=cd->getRawDataValues(); memcpy(&o->d[off],r.data(),r.size()); return; }
  if(auto*st=dyn_cast<StructType>(t)){ auto*sl=DL->getStructLayout(st); for(unsigned i=0;i<st->getNumElements();i++) fillInit(o,off+sl->getElementOffset(i),c->getAggregateElement(i)); return; }
  if(auto*at=dyn_cast<ArrayType>(t)){ u64 es=DL->getTypeAllocSize(at->getElementType()); for(u64 i=0;i<at->getNumElements();i++) fillInit(o,off+es*i,c->getAggregateElement(i)); return; }
  if(auto*vt=dyn_cast<FixedVectorType>(t)){ u64 es=DL->getTypeStoreSize(vt->getElementType()); for(u64 i=0;i<vt->getNumElements();i++) fillInit(o,off+es*i,c->getAggregateElement(i)); return; }
  Val v=evalConst(c); wrObj(o,off,tyBytes(t),tyBits(t)<=64?v:v); }

static u64 nextFn=((u64)R_FUNC<<40)+16;
static u64 funcAddr(Function*F){ FInfo*f=finfo(F); return f->addr; }
static FInfo*finfo(Function*F){ auto it=finfos.find(F); if(it!=finfos.end()) return it->second; FInfo*f=new FInfo; f->F=F; f->name=F->getName().str(); f->addr=nextFn; nextFn+=16; faddr.push_back(f);
  f->rt=StringRef(f->name).starts_with("sx_")||StringRef(f->name).starts_with("eo_")||StringRef(f->name).starts_with("rt_"); finfos[F]=f; return f; }
static FInfo*fnAt(u64 a){ if(regOf(a)!=R_FUNC||(a&15)) return 0; u64 i=(a-(((u64)R_FUNC<<40)+16))/16; return i<faddr.size()?faddr[i]:0; }

static int constIdx(Constant*c){ auto it=cidx.find(c); if(it!=cidx.end()) return it->second; cpool.push_back(evalConst(c)); int r=-(int)cpool.size(); cidx[c]=r; return r; }

#include "intr.inc"

static void prepare(FInfo*f){
  if(f->prepared) return; f->prepared=true; Function*F=f->F; 
  std::map<Value*,int> slot; int n=0; for(auto&a:F->args()) slot[&a]=n++; f->nargs=n;
  for(auto&B:*F) for(auto&I:B) if(!I.getType()->isVoidTy()) slot[&I]=n++;
  f->nslots=n;
  auto opi=[&](Value*v)->int{ if(auto*c=dyn_cast<Constant>(v)){ return constIdx(c); } auto it=slot.find(v); if(it!=slot.end()) return it->second; return INT32_MIN; };
  int bi=0; for(auto&B:*F) f->bbidx[&B]=bi++;
  f->bbstart.resize(bi);
  auto edge=[&](BasicBlock*from,BasicBlock*to){ Edge e; e.bb=f->bbidx[to]; for(auto&P:to->phis()) e.cp.push_back({slot[&P],opi(P.getIncomingValueForBlock(from))}); return e; };
  for(auto&B:*F){ f->bbstart[f->bbidx[&B]]=f->code.size();
    for(auto&I:B){ if(isa<PHINode>(I)) continue; if(isa<DbgInfoIntrinsic>(I)) continue;
      Ins s; s.I=&I; s.op=I.getOpcode(); s.dst=I.getType()->isVoidTy()?-1:slot[&I]; s.w=tyBits(I.getType()); 
      switch(I.getOpcode()){
      case Instruction::Br: { auto&b=cast<BranchInst>(I); if(b.isConditional()){ s.ops.push_back(opi(b.getCondition())); s.e.push_back(edge(&B,b.getSuccessor(0))); s.e.push_back(edge(&B,b.getSuccessor(1))); } else s.e.push_back(edge(&B,b.getSuccessor(0))); break; }
      case Instruction::Switch: { auto&w=cast<SwitchInst>(I); s.ops.push_back(opi(w.getCondition())); s.aw=tyBits(w.getCondition()->getType()); std::map<BasicBlock*,int> ei; auto ge=[&](BasicBlock*t){ auto it=ei.find(t); if(it!=ei.end()) return it->second; s.e.push_back(edge(&B,t)); return ei[t]=(int)s.e.size()-1; }; ge(w.getDefaultDest()); for(auto&c:w.cases()) s.cases.push_back({c.getCaseValue()->getZExtValue(),ge(c.getCaseSuccessor())}); break; }
      case Instruction::GetElementPtr: { auto&g=cast<GetElementPtrInst>(I); s.ops.push_back(opi(g.getPointerOperand())); u64 k=0;
        for(auto gi=gep_type_begin(g),ge=gep_type_end(g);gi!=ge;++gi){ Value*ix=gi.getOperand(); if(StructType*st=gi.getStructTypeOrNull()){ k+=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); } else { u64 es=DL->getTypeAllocSize(gi.getIndexedType()); if(auto*ci=dyn_cast<ConstantInt>(ix)) k+=ci->getSExtValue()*es; else { s.idx.push_back({opi(ix),es}); s.ops.push_back(opi(ix)); s.cases.push_back({tyBits(ix->getType()),0}); } } }
        s.aux=k; break; }
      case Instruction::Call: case Instruction::Invoke: { auto&c=cast<CallBase>(I); for(auto&a:c.args()) s.ops.push_back(a->getType()->isMetadataTy()?INT32_MIN:opi(a.get()));
        if(auto*iv=dyn_cast<InvokeInst>(&I)){ s.e.push_back(edge(&B,iv->getNormalDest())); s.e.push_back(edge(&B,iv->getUnwindDest())); }
        Value*cv=c.getCalledOperand()->stripPointerCasts(); if(auto*al=dyn_cast<GlobalAlias>(cv)) cv=al->getAliaseeObject();
        if(auto*fn=dyn_cast<Function>(cv)){ s.callee=finfo(fn); s.intr=intrOf(s.callee,c); }
        else if(c.isInlineAsm()){ s.intr=IN_ASM; std::string a=cast<InlineAsm>(c.getCalledOperand())->getAsmString(); bool ok=true; { std::string t; for(char ch:a) if(!isspace((unsigned char)ch)&&ch!=';') t+=ch; static const std::set<std::string> nop={"","mfence","sfence","lfence","pause","nop","rep","repnop","lock","dmbish","lock;addl$$0,0(%%esp)"}; ok=nop.count(t)||t.find("fence")!=std::string::npos; } s.aux=ok; }
        else { s.intr=IN_INDIRECT; s.ops.push_back(opi(c.getCalledOperand())); }
        break; }
      case Instruction::Alloca: { auto&a=cast<AllocaInst>(I); s.ops.push_back(opi(a.getArraySize())); s.aux=DL->getTypeAllocSize(a.getAllocatedType()); s.aw=a.getAlign().value(); break; }
      case Instruction::ICmp: case Instruction::FCmp: { s.ops.push_back(opi(I.getOperand(0))); s.ops.push_back(opi(I.getOperand(1))); s.aux=cast<CmpInst>(I).getPredicate(); s.aw=tyBits(I.getOperand(0)->getType()); break; }
      default: for(auto&o:I.operands()) if(!isa<BasicBlock>(o.get())) s.ops.push_back(opi(o.get())); if(I.getNumOperands()) s.aw=tyBits(I.getOperand(0)->getType()); break; }
      f->code.push_back(std::move(s)); } }
}

// live slots before instruction pc
static const std::vector<u8>&liveAt(FInfo*f,int pc){
  Ins&q=f->code[pc]; if(q.haslive) return q.live;
  int nb=f->bbstart.size();
  auto bend=[&](int b){ return b+1<nb?f->bbstart[b+1]:(int)f->code.size(); };
  auto back=[&](std::vector<u8>&L,Ins&s){ if(s.dst>=0) L[s.dst]=0; for(int o:s.ops) if(o>=0) L[o]=1; };
  auto outOf=[&](int b,std::vector<u8>&L){ std::fill(L.begin(),L.end(),0); Ins&t=f->code[bend(b)-1]; for(auto&e:t.e){ std::vector<u8> li=f->livein[e.bb]; for(auto&c:e.cp) li[c.first]=0; for(auto&c:e.cp) if(c.second>=0) li[c.second]=1; for(int i=0;i<f->nslots;i++) L[i]|=li[i]; } };
  if(f->livein.empty()){ f->livein.assign(nb,std::vector<u8>(f->nslots,0)); bool ch=true; std::vector<u8> L(f->nslots); while(ch){ ch=false; for(int b=nb-1;b>=0;b--){ outOf(b,L); for(int i=bend(b)-1;i>=f->bbstart[b];i--) back(L,f->code[i]); if(L!=f->livein[b]){ f->livein[b]=L; ch=true; } } } }
  int b=0; while(b+1<nb&&f->bbstart[b+1]<=pc) b++;
  std::vector<u8> L(f->nslots); outOf(b,L); for(int i=bend(b)-1;i>=pc;i--) back(L,f->code[i]);
  q.live=L; q.haslive=true; return q.live; }

static void initGlobals(State&S){
  u64 nc=((u64)R_CONST<<40)+64,ng=((u64)R_GLOB<<40)+64;
  std::vector<std::pair<const GlobalVariable*,Obj*>> todo;
  for(auto&g:M->globals()){ if(g.isThreadLocal()){ tlsidx[&g]=tlsvars.size(); tlsvars.push_back(&g); continue; }
    if(g.getName().starts_with("llvm.")) continue;
    u64 sz=g.getValueType()->isSized()?(u64)DL->getTypeAllocSize(g.getValueType()):64; if(!g.hasInitializer()&&sz<256) sz=256;
    u64 al=std::max<u64>(8,g.getAlign()?g.getAlign()->value():8);
    bool cst=g.isConstant()&&g.hasInitializer(); u64&nx=cst?nc:ng; u64 base=(nx+al-1)&~(al-1); nx=(base+sz+48)&~15ull;
    Obj*o=new Obj; o->size=sz; o->base=base; o->kind=cst?K_CONST:K_GLOBAL; o->d.assign(sz,0); gaddr[&g]=base;
    if(cst) constObjs.push_back(OR(o)); else S.reg[R_GLOB].push_back(OR(o));
    if(g.hasInitializer()) todo.push_back({&g,o}); }
  for(auto&t:todo) fillInit(t.second,0,t.first->getInitializer());
}
