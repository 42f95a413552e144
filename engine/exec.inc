// instruction execution
static Val getOp(Frame&F,int i){ return i>=0?F.r[i]:cpool[-i-1]; }
static inline void setDst(Frame&F,Ins&s,const Val&v){ if(s.dst>=0) F.r[s.dst]=v; }

static void popFrame(State&S,Thread&T){ Frame&F=T.st.back(); auto&v=S.reg[R_STACK+ (&T-&S.th[0])]; while(!v.empty()&&v.back()->base>=F.sp) v.pop_back(); T.stacknext=F.sp; T.st.pop_back(); }

static void enter(State&S,Thread&T,FInfo*f,const std::vector<Val>&args,CallBase*cb){
  prepare(f); f->executed=true; if(T.st.size()>400) err(S,"recursion","call stack deeper than 400 frames");
  Frame F; F.f=f; F.pc=f->bbstart[0]; F.r.resize(f->nslots,V(0)); F.sp=T.stacknext;
  unsigned tid=&T-&S.th[0];
  for(int i=0;i<f->nargs&&i<(int)args.size();i++){ F.r[i]=args[i];
    if(f->F->hasParamAttribute(i,Attribute::ByVal)){ Type*t=f->F->getParamByValType(i); u64 sz=DL->getTypeAllocSize(t); u64 a=allocObj(S,R_STACK+tid,T.stacknext,sz,16,K_STACK,0); copyMem(S,V(a),args[i],sz); F.r[i]=V(a); } }
  for(size_t i=f->nargs;i<args.size();i++) F.va.push_back(args[i]);
  T.st.push_back(std::move(F)); }

static void jump(Frame&F,const Edge&e){ if(!e.cp.empty()){ if(e.cp.size()==1){ F.r[e.cp[0].first]=getOp(F,e.cp[0].second); } else { Val tmp[64]; std::vector<Val> big; Val*t=tmp; if(e.cp.size()>64){ big.resize(e.cp.size()); t=big.data(); } for(size_t i=0;i<e.cp.size();i++) t[i]=getOp(F,e.cp[i].second); for(size_t i=0;i<e.cp.size();i++) F.r[e.cp[i].first]=t[i]; } }
  F.pc=F.f->bbstart[e.bb]; }
static void advance(Frame&F){ Ins&s=F.f->code[F.pc]; if(s.op==Instruction::Invoke) jump(F,s.e[0]); else F.pc++; }

// ---- scheduling -----------------------------------------------------------
static u64 objHash(State&S,Obj*o){ bool ign=false; for(auto&r:S.hashIgnore) if(r.first<o->base+o->size&&o->base<r.first+r.second) ign=true;
  if(o->hv&&!ign) return o->h; u64 h=hcomb(o->base,o->size*2+o->freed); if(!o->freed){ if(ign){ for(u32 i=0;i<o->size;i++){ bool sk=false; for(auto&r:S.hashIgnore) if(o->base+i>=r.first&&o->base+i<r.first+r.second) sk=true; if(!sk) h=hcomb(h,o->d[i]^(o->s.empty()||!o->s[i]?0:o->s[i]->hash)); } return h; }
    size_t n=o->size; const u8*p=o->d.data(); size_t i=0; for(;i+8<=n;i+=8){ u64 x; memcpy(&x,p+i,8); h=hcomb(h,x); } for(;i<n;i++) h=hcomb(h,p[i]); if(!o->s.empty()) for(i=0;i<n;i++) if(o->s[i]) h=hcomb(h,o->s[i]->hash+i); }
  o->h=h; o->hv=true; return h; }
static u64 valH(const Val&v){ return v.e?v.e->hash:mix64(v.c+99); }
static u64 aggH(Type*t,const Val&v){ if(tyBits(t)) return valH(v); Agg*g=(Agg*)v.c; if(!g) return 5; u64 h=7; if(auto*st=dyn_cast<StructType>(t)){ for(unsigned i=0;i<g->v.size();i++) h=hcomb(h,aggH(st->getElementType(i),g->v[i])); } return h; }
static u64 stateHash(State&S){ u64 h=S.pcHash; h=hcomb(h,S.cur); h=hcomb(h,S.preempt); h=hcomb(h,S.in.size()); h=hcomb(h,S.misc);
  for(int r=R_GLOB;r<NREG;r++){ if(S.reg[r].empty()) continue; for(auto&o:S.reg[r]) h+=mix64(objHash(S,o.p)); }
  for(auto&T:S.th){ h=hcomb(h,T.status); h=hcomb(h,T.bptr); h=hcomb(h,T.noyield); h=hcomb(h,T.wokeByTimeout); for(auto&F:T.st){ h=hcomb(h,F.f->addr); h=hcomb(h,F.pc); const auto&L=liveAt(F.f,F.pc); for(int i=0;i<F.f->nslots;i++) if(L[i]){ h=hcomb(h,valH(F.r[i])); } } for(auto&c:T.caught) h=hcomb(h,c.exc); }
  for(size_t i=0;i<S.obs.size();i++) h=hcomb(h,valH(S.obs[i]));
  return h; }
static bool vtInsert(u64 h){ if(!h)h=1; u64 i=h%VTN; for(;;){ u64 x=__atomic_load_n(&VT[i],__ATOMIC_RELAXED); if(x==h) return false; if(!x){ u64 z=0; if(__atomic_compare_exchange_n(&VT[i],&z,h,false,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST)){ __atomic_add_fetch(&SH->vt_used,1,__ATOMIC_RELAXED); return true; } if(z==h) return false; } i=(i+1)%VTN; } }

static bool runnable(State&S,int t){ Thread&T=S.th[t]; if(T.status==T_RUN) return true; if(T.status==T_BLOCK){ Obj*o=findObj(S,T.bptr); if(!o||o->freed){ int c=S.cur; S.cur=t; err(S,"use-after-free","thread blocked on freed memory"); S.cur=c; } Val v=rdObj(o,T.bptr-o->base,4); if(v.e) incomplete(S,"symbolic block word"); return (u32)v.c!=T.bval; } return false; }
static void switchTo(State&S,int t){ Thread&C=S.th[S.cur]; if(t!=S.cur) { S.sched.push_back({S.cur,C.events}); ST.trans++; } S.cur=t; Thread&T=S.th[t]; T.status=T_RUN; }
// why: 1 = current thread blocked/finished/sleeping, 0 = preemption point, 2 = explicit yield
static void schedule(State&S,int why){
  std::vector<int> en,sl; for(int t=0;t<(int)S.th.size();t++){ if(runnable(S,t)) en.push_back(t); else if(S.th[t].status==T_SLEEP) sl.push_back(t); }
  if(why==0){
    if(en.size()+sl.size()<2) return; if(S.preempt<=0&&preemptBound>=0) return;
    if(dedupe){ ST.states++; if(!vtInsert(stateHash(S))){ term(4); } }
    for(int t:en) if(t!=S.cur){ State*n=forkState(S); if(preemptBound>=0) n->preempt--; switchTo(*n,t); }
    for(int t:sl){ State*n=forkState(S); if(preemptBound>=0) n->preempt--; switchTo(*n,t); }
    return; }
  if(why==2){ // voluntary: current stays enabled, others preferred
    std::vector<int> o; for(int t:en) if(t!=S.cur) o.push_back(t);
    if(S.schedMode==0){ if(o.empty()) return; int b=-1; for(int t:o) if(t>S.cur){ b=t; break; } if(b<0) b=o[0]; switchTo(S,b); return; }
    if(dedupe){ ST.states++; if(!vtInsert(hcomb(stateHash(S),3))) term(4); }
    for(int t:o){ State*n=forkState(S); switchTo(*n,t); } return; }
  // current cannot continue
  if(en.empty()){
    std::vector<int> timed; for(int t=0;t<(int)S.th.size();t++) if(S.th[t].status==T_BLOCK&&S.th[t].timedok) timed.push_back(t);
    if(sl.empty()&&timed.empty()){ bool alldone=true; for(auto&T:S.th) if(T.status!=T_DONE) alldone=false; if(alldone) term(0);
      std::string m="deadlock: no thread can run;"; for(size_t t=0;t<S.th.size();t++) if(S.th[t].status==T_BLOCK){ int c=S.cur; S.cur=t; m+=" thread "+std::to_string(t)+" blocked in:\n"+stackOf(S); S.cur=c; }
      int c=S.cur; for(size_t t=0;t<S.th.size();t++) if(S.th[t].status==T_BLOCK){ S.cur=t; break; } report(S,"deadlock",m,S.model); S.cur=c; term(2); }
    // idle: time passes
    if(++S.idle>S.idleLimit) { std::string m="no progress: after "+std::to_string(S.idle)+" idle rounds some thread is still waiting;"; for(size_t t=0;t<S.th.size();t++) if(S.th[t].status==T_BLOCK||S.th[t].status==T_SLEEP){ int c=S.cur; S.cur=t; m+=" thread "+std::to_string(t)+" waits in:\n"+stackOf(S); S.cur=c; } int c=S.cur; for(size_t t=0;t<S.th.size();t++) if(S.th[t].status!=T_DONE){ S.cur=t; if(S.th[t].status==T_BLOCK) break; } report(S,"stuck",m,S.model); S.cur=c; term(2); }
    en=sl; for(int t:timed){ en.push_back(t); }
    std::sort(en.begin(),en.end());
    if(S.schedMode==0){ // everybody sleeping wakes
      for(int t:sl) S.th[t].status=T_RUN;
      // timed waiters time out only when nobody sleeps, or round robin
      int b=-1; for(int t:en) if(t>S.cur){ b=t; break; } if(b<0) b=en[0]; if(S.th[b].status==T_BLOCK) S.th[b].wokeByTimeout=true; switchTo(S,b); return; }
    if(dedupe){ ST.states++; if(!vtInsert(hcomb(stateHash(S),11+S.idle*0))){ // state repeats although only time passed
        u64 hh=stateHash(S); if(hh==S.lastIdleHash){ int c=S.cur; for(size_t t=0;t<S.th.size();t++) if(S.th[t].status!=T_DONE){ S.cur=t; if(S.th[t].status==T_BLOCK) break; } report(S,"stuck","no progress: waiting threads return to the same state forever\n",S.model); S.cur=c; term(2); } term(4); }
      S.lastIdleHash=stateHash(S); }
    for(int t:sl) S.th[t].status=T_RUN;
    for(size_t i=1;i<en.size();i++){ State*n=forkState(S); if(n->th[en[i]].status==T_BLOCK) n->th[en[i]].wokeByTimeout=true; switchTo(*n,en[i]); }
    if(S.th[en[0]].status==T_BLOCK) S.th[en[0]].wokeByTimeout=true; switchTo(S,en[0]); return; }
  if(S.schedMode==0){ int b=-1; for(int t:en) if(t>S.cur){ b=t; break; } if(b<0) b=en[0]; switchTo(S,b); return; }
  if(dedupe){ ST.states++; if(!vtInsert(hcomb(stateHash(S),5))) term(4); }
  for(size_t i=1;i<en.size();i++){ State*n=forkState(S); switchTo(*n,en[i]); }
  switchTo(S,en[0]); }

// ---- exceptions -----------------------------------------------------------
static std::map<u64,int> typeIds; static int typeId(u64 ti){ auto it=typeIds.find(ti); if(it!=typeIds.end()) return it->second; int n=(int)typeIds.size()+1; typeIds[ti]=n; return n; }
static std::map<u64,std::string> gnames;
static u64 rd64(State&S,u64 a){ Obj*o=findObj(S,a); if(!o||a-o->base+8>o->size) return 0; Val v=rdObj(o,a-o->base,8); return v.e?0:v.c; }
static bool tiMatch(State&S,u64 thrown,u64 want,int d=0){ if(thrown==want) return true; if(!thrown||d>8) return false;
  static std::map<std::string,const char*> par={ {"_ZTISt13runtime_error","_ZTISt9exception"},{"_ZTISt11logic_error","_ZTISt9exception"},{"_ZTISt12out_of_range","_ZTISt11logic_error"},{"_ZTISt12length_error","_ZTISt11logic_error"},{"_ZTISt16invalid_argument","_ZTISt11logic_error"},{"_ZTISt9bad_alloc","_ZTISt9exception"},{"_ZTISt8bad_cast","_ZTISt9exception"},{"_ZTISt12system_error","_ZTISt13runtime_error"},{"_ZTISt14overflow_error","_ZTISt13runtime_error"},{"_ZTISt17bad_function_call","_ZTISt9exception"} };
  auto g=gnames.find(thrown); if(g!=gnames.end()){ auto p=par.find(g->second); if(p!=par.end()){ if(GlobalVariable*gv=M->getNamedGlobal(p->second)) return tiMatch(S,gaddr[gv],want,d+1); auto w=gnames.find(want); return w!=gnames.end()&&w->second==p->second; } }
  u64 vt=rd64(S,thrown); GlobalVariable*si=M->getNamedGlobal("_ZTVN10__cxxabiv120__si_class_type_infoE"),*vm=M->getNamedGlobal("_ZTVN10__cxxabiv121__vmi_class_type_infoE");
  if(si&&vt==gaddr[si]+16) return tiMatch(S,rd64(S,thrown+16),want,d+1);
  if(vm&&vt==gaddr[vm]+16){ unsigned n=rd64(S,thrown+16)>>32; for(unsigned i=0;i<n;i++) if(tiMatch(S,rd64(S,thrown+24+16*i),want,d+1)) return true; }
  return false; }
struct ExcInfo { u64 ti; u64 dtor; }; // stored at obj-32
// unwind current thread with exception object exc, starting from top frame whose pc is the call/invoke
static void unwind(State&S,u64 exc,bool fresh){
  Thread&T=S.th[S.cur]; u64 ti=rd64(S,exc-32);
  auto match=[&](Frame&F,Ins&s,int&sel,bool&cleanup)->bool{ LandingPadInst*lp=cast<InvokeInst>(s.I)->getLandingPadInst(); cleanup=lp->isCleanup(); sel=0;
    for(unsigned i=0;i<lp->getNumClauses();i++){ Constant*c=lp->getClause(i); if(lp->isCatch(i)){ u64 w=evalConst(c).c; if(!w||tiMatch(S,ti,w)){ sel=w?typeId(w):typeId(0); return true; } } else { // filter
        auto*at=cast<ArrayType>(c->getType()); bool in=false; for(u64 k=0;k<at->getNumElements();k++){ u64 w=evalConst(c->getAggregateElement(k)).c; if(tiMatch(S,ti,w)) in=true; } if(!in){ sel=-1; return true; } } }
    return false; };
  if(fresh){ bool found=false; for(int i=T.st.size()-1;i>=0&&!found;i--){ Ins&s=T.st[i].f->code[T.st[i].pc]; if(s.op==Instruction::Invoke){ int sel; bool cl; if(match(T.st[i],s,sel,cl)) found=true; } else if(T.st[i].f->F->doesNotThrow()&&i!=(int)T.st.size()-1&&0) break; }
    if(!found){ auto g=gnames.find(ti); err(S,"uncaught-exception","exception "+(g!=gnames.end()?demangle(g->second):std::string("?"))+" is not caught"); } }
  while(!T.st.empty()){ Frame&F=T.st.back(); Ins&s=F.f->code[F.pc]; if(s.op==Instruction::Invoke){ int sel; bool cl; bool m=match(F,s,sel,cl); if(m||cl){ jump(F,s.e[1]); Ins&lp=F.f->code[F.pc]; if(lp.op!=Instruction::LandingPad) abort(); Agg*g=new Agg; g->v={V(exc),V((u32)sel)}; setDst(F,lp,V((u64)g)); F.pc++; return; } }
    popFrame(S,T); }
  incomplete(S,"unwound past the thread entry"); }

static u64 heapAlloc(State&S,u64 sz,u64 al,int type,int fill){ Thread&T=S.th[S.cur]; u64 a=allocObj(S,R_HEAP+S.cur,T.heapnext,sz,al<16?16:al,K_HEAP,fill); S.reg[R_HEAP+S.cur].back()->alloctype=type; return a; }
static void heapFree(State&S,const Val&p,int type){ u64 a=concretize(S,p,64); if(!a) return; Obj*o=findObj(S,a); if(!o||o->kind!=K_HEAP) err(S,"memory","free of an address that was not allocated: "+descAddr(S,a)); if(o->freed) err(S,"double-free","double free: "+descAddr(S,a)); if(o->base!=a) err(S,"memory","free of an interior pointer: "+descAddr(S,a)); if(o->alloctype!=type) err(S,"memory","allocation/deallocation function mismatch: "+descAddr(S,a));
  o=wr(S,o); o->freed=true; std::vector<u8>().swap(o->d); std::vector<Ex>().swap(o->s); }
static const int HFILL=0xbe;

static u64 tlsAddr(State&S,const GlobalVariable*g){ Thread&T=S.th[S.cur]; int ix=tlsidx[g]; if((int)T.tls.size()<=ix) T.tls.resize(tlsvars.size(),0); if(!T.tls[ix]){ u64 sz=DL->getTypeAllocSize(g->getValueType()); if(!T.tlsbase) T.tlsbase=((u64)(R_TLS+S.cur)<<40)+64; u64 a=allocObj(S,R_TLS+S.cur,T.tlsbase,sz,16,K_TLS,0); if(g->hasInitializer()) fillInit(S.reg[R_TLS+S.cur].back().p,0,g->getInitializer()); T.tls[ix]=a; } return T.tls[ix]; }

static bool evShared(State&S,Ins&nx,Frame&F){ // is the next access relevant for interleaving?
  if(nx.op==Instruction::Call||nx.op==Instruction::Invoke){ // memcpy-like
    if(nx.intr==IN_MEMCPY||nx.intr==IN_MEMSET||nx.intr==IN_MEMCMP){ bool sh=false; Val n=getOp(F,nx.ops[2]); u64 len=n.e?(u64)evalExpr(n.e,S.model):n.c; for(int k=0;k<(nx.intr==IN_MEMSET?1:2);k++){ Val p=getOp(F,nx.ops[k]); u64 a=p.e?(u64)evalExpr(p.e,S.model):p.c; bool w=(k==0&&nx.intr!=IN_MEMCMP); for(u64 x=a&~7ull;x<a+len;x+=8){ Acc&A=accMap[x]; (w?A.w:A.r)|=1u<<S.cur; if(A.w&&((A.r|A.w)&((A.r|A.w)-1))){ if(sharedWords.insert(x).second) newShared=true; } if(sharedWords.count(x)) sh=true; } } return sh; }
    return false; }
  Val p; bool w=false; unsigned n=8;
  if(nx.op==Instruction::Load) { p=getOp(F,nx.ops[0]); n=tyBytes(nx.I->getType()); } else if(nx.op==Instruction::Store){ p=getOp(F,nx.ops[1]); w=true; n=tyBytes(cast<StoreInst>(nx.I)->getValueOperand()->getType()); } else if(nx.op==Instruction::AtomicRMW||nx.op==Instruction::AtomicCmpXchg){ p=getOp(F,nx.ops[0]); w=true; } else return false;
  u64 a=p.e?(u64)evalExpr(p.e,S.model):p.c; if(regOf(a)==R_CONST) return false; bool sh=false;
  for(u64 x=a&~7ull;x<a+n;x+=8){ Acc&A=accMap[x]; (w?A.w:A.r)|=1u<<S.cur; if(A.w&&((A.r|A.w)&((A.r|A.w)-1))){ if(sharedWords.insert(x).second) newShared=true; } if(sharedWords.count(x)) sh=true; }
  return sh; }

static Ex sdivHelper(Ex a,Ex b,EOp op){ return mkBin(op,a,b); }
static Val binop(State&S,unsigned op,const Val&a,const Val&b,unsigned w){
  if(!a.e&&!b.e&&w<=64){ u64 m=(u64)maskw(w),x=a.c,y=b.c; switch(op){
    case Instruction::Add: return V((x+y)&m); case Instruction::Sub: return V((x-y)&m); case Instruction::Mul: return V((x*y)&m);
    case Instruction::And: return V(x&y); case Instruction::Or: return V(x|y); case Instruction::Xor: return V(x^y);
    case Instruction::Shl: return V(y>=w?0:(x<<y)&m); case Instruction::LShr: return V(y>=w?0:x>>y);
    default: break; } }
  Ex x=toEx(a,w),y=toEx(b,w); EOp o;
  switch(op){ case Instruction::Add:o=E_ADD;break; case Instruction::Sub:o=E_SUB;break; case Instruction::Mul:o=E_MUL;break; case Instruction::UDiv:o=E_UDIV;break; case Instruction::SDiv:o=E_SDIV;break; case Instruction::URem:o=E_UREM;break; case Instruction::SRem:o=E_SREM;break; case Instruction::And:o=E_AND;break; case Instruction::Or:o=E_OR;break; case Instruction::Xor:o=E_XOR;break; case Instruction::Shl:o=E_SHL;break; case Instruction::LShr:o=E_LSHR;break; case Instruction::AShr:o=E_ASHR;break; default: incomplete(S,"binop"); }
  if(o==E_UDIV||o==E_SDIV||o==E_UREM||o==E_SREM){ if(isc(y)?!y->c:branch(S,mkEq(y,mkc(0,w)))) err(S,"division","division by zero"); }
  return VE(mkBin(o,x,y)); }
static Ex icmp(unsigned p,Ex a,Ex b){ switch(p){ case CmpInst::ICMP_EQ: return mkEq(a,b); case CmpInst::ICMP_NE: return mkNot(mkEq(a,b)); case CmpInst::ICMP_ULT: return mkBin(E_ULT,a,b); case CmpInst::ICMP_ULE: return mkBin(E_ULE,a,b); case CmpInst::ICMP_UGT: return mkBin(E_ULT,b,a); case CmpInst::ICMP_UGE: return mkBin(E_ULE,b,a); case CmpInst::ICMP_SLT: return mkBin(E_SLT,a,b); case CmpInst::ICMP_SLE: return mkBin(E_SLE,a,b); case CmpInst::ICMP_SGT: return mkBin(E_SLT,b,a); default: return mkBin(E_SLE,b,a); } }
static double asD(u64 c,unsigned w){ if(w==32){ float f; u32 x=c; memcpy(&f,&x,4); return f; } double d; memcpy(&d,&c,8); return d; }
static u64 fromD(double d,unsigned w){ if(w==32){ float f=(float)d; u32 x; memcpy(&x,&f,4); return x; } u64 c; memcpy(&c,&d,8); return c; }

static bool doCall(State&S,Thread&T,Frame&F,Ins&s);

static inline void step(State&S){
  Thread&T=S.th[S.cur]; Frame&F=T.st.back(); Ins&s=F.f->code[F.pc]; S.steps++; ST.insts++;
  switch(s.op){
  case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
    if(!s.w){ // vector
      auto*vt=dyn_cast<FixedVectorType>(s.I->getType()); if(!vt) incomplete(S,"vector op"); Agg*a=(Agg*)getOp(F,s.ops[0]).c,*b=(Agg*)getOp(F,s.ops[1]).c; Agg*g=new Agg; for(size_t i=0;i<a->v.size();i++) g->v.push_back(binop(S,s.op,a->v[i],b->v[i],tyBits(vt->getElementType()))); setDst(F,s,V((u64)g)); F.pc++; return; }
    { Val r=binop(S,s.op,getOp(F,s.ops[0]),getOp(F,s.ops[1]),s.w); F.r[s.dst]=r; F.pc++; return; }
  case Instruction::ICmp: { if(!s.aw) incomplete(S,"vector icmp"); Val a=getOp(F,s.ops[0]),b=getOp(F,s.ops[1]); 
    if(!a.e&&!b.e){ unsigned w=s.aw; bool r; s64 x,y; x=(s64)(a.c<<(64-w))>>(64-w); y=(s64)(b.c<<(64-w))>>(64-w); switch(s.aux){ case CmpInst::ICMP_EQ: r=a.c==b.c;break; case CmpInst::ICMP_NE: r=a.c!=b.c;break; case CmpInst::ICMP_ULT: r=a.c<b.c;break; case CmpInst::ICMP_ULE: r=a.c<=b.c;break; case CmpInst::ICMP_UGT: r=a.c>b.c;break; case CmpInst::ICMP_UGE: r=a.c>=b.c;break; case CmpInst::ICMP_SLT: r=x<y;break; case CmpInst::ICMP_SLE: r=x<=y;break; case CmpInst::ICMP_SGT: r=x>y;break; default: r=x>=y; } F.r[s.dst]=V(r); }
    else F.r[s.dst]=VE(icmp(s.aux,toEx(a,s.aw),toEx(b,s.aw)));
    F.pc++; return; }
  case Instruction::Br: { if(s.ops.empty()){ jump(F,s.e[0]); return; } Val c=getOp(F,s.ops[0]); bool b=c.e?branch(S,c.e):c.c; jump(F,s.e[b?0:1]); return; }
  case Instruction::Switch: { Val c=getOp(F,s.ops[0]); u128 kv; if(c.e&&known(S,c.e,kv)) c=V((u64)kv);
    if(!c.e){ int ix=0; for(auto&k:s.cases) if(k.first==c.c){ ix=k.second; break; } jump(F,s.e[ix]); return; }
    std::vector<Ex> cond(s.e.size(),mkFalse()); Ex any=mkFalse(); for(auto&k:s.cases){ Ex q=mkEq(c.e,mkc(k.first,s.aw)); any=mkOr(any,q); cond[k.second]=mkOr(cond[k.second],q); } cond[0]=mkOr(cond[0],mkNot(any));
    std::vector<std::pair<int,Model>> fe; for(size_t i=0;i<cond.size();i++){ Model m; if(isc(cond[i])&&!cond[i]->c) continue; if(evalExpr(cond[i],S.model)) fe.push_back({(int)i,S.model}); else if(chk(S,cond[i],m)) fe.push_back({(int)i,m}); }
    if(fe.empty()) abort();
    for(size_t i=1;i<fe.size();i++){ State*n=forkState(S); n->depth++; addC(*n,cond[fe[i].first]); n->model=fe[i].second; jump(n->th[n->cur].st.back(),s.e[fe[i].first]); }
    if(fe.size()>1) addC(S,cond[fe[0].first]); S.model=fe[0].second; jump(F,s.e[fe[0].first]); return; }
  case Instruction::Load: { Val a=getOp(F,s.ops[0]); F.r[s.dst]= s.w? trunc1(loadMem(S,a,(s.w+7)/8),(s.w+7)/8,s.w) : loadTy(S,a,s.I->getType()); F.pc++; return; }
  case Instruction::Store: { storeTy(S,getOp(F,s.ops[1]),cast<StoreInst>(s.I)->getValueOperand()->getType(),getOp(F,s.ops[0])); F.pc++; return; }
  case Instruction::GetElementPtr: { Val b=getOp(F,s.ops[0]); b=addOff(b,s.aux); for(size_t i=0;i<s.idx.size();i++){ Val x=getOp(F,s.idx[i].first); unsigned w=s.cases[i].first; if(!x.e){ s64 sx=w<64?((s64)(x.c<<(64-w)))>>(64-w):(s64)x.c; b=addOff(b,(u64)sx*s.idx[i].second); } else { Ex xe=w<64?mkSExt(x.e,64):(w>64?mkExtract(x.e,0,64):x.e); b=VE(mkBin(E_ADD,toEx(b,64),mkBin(E_MUL,xe,mkc(s.idx[i].second,64)))); } } F.r[s.dst]=b; F.pc++; return; }
  case Instruction::Select: { Val c=getOp(F,s.ops[0]); if(!c.e){ F.r[s.dst]=getOp(F,s.ops[c.c?1:2]); F.pc++; return; } u128 kv; if(known(S,c.e,kv)){ F.r[s.dst]=getOp(F,s.ops[kv?1:2]); F.pc++; return; }
    Val a=getOp(F,s.ops[1]),b=getOp(F,s.ops[2]); if(!s.w||s.I->getType()->isPointerTy()){ bool x=branch(S,c.e); F.r[s.dst]=x?a:b; } else F.r[s.dst]=VE(mkIte(c.e,toEx(a,s.w),toEx(b,s.w))); F.pc++; return; }
  case Instruction::ZExt: { if(!s.w) incomplete(S,"vector zext"); Val a=getOp(F,s.ops[0]); F.r[s.dst]= (!a.e&&s.w<=64)?a:VE(mkZExt(toEx(a,s.aw),s.w)); F.pc++; return; }
  case Instruction::SExt: { Val a=getOp(F,s.ops[0]); F.r[s.dst]=VE(mkSExt(toEx(a,s.aw),s.w)); F.pc++; return; }
  case Instruction::Trunc: { Val a=getOp(F,s.ops[0]); if(!a.e) F.r[s.dst]=V(a.c&(u64)maskw(s.w)); else F.r[s.dst]=VE(mkExtract(a.e,0,s.w)); F.pc++; return; }
  case Instruction::BitCast: if(!s.w||!s.aw){ if(s.I->getType()==s.I->getOperand(0)->getType()){ setDst(F,s,getOp(F,s.ops[0])); F.pc++; return; } 
      // through memory
      u64 a=allocObj(S,R_STACK+S.cur,T.stacknext,16*((DL->getTypeStoreSize(s.I->getType())+15)/16),16,K_STACK,0); storeTy(S,V(a),s.I->getOperand(0)->getType(),getOp(F,s.ops[0])); setDst(F,s,loadTy(S,V(a),s.I->getType())); F.pc++; return; }
    F.r[s.dst]=getOp(F,s.ops[0]); F.pc++; return;
  case Instruction::Freeze: setDst(F,s,getOp(F,s.ops[0])); F.pc++; return;
  case Instruction::PtrToInt: { Val a=getOp(F,s.ops[0]); if(s.w==64) F.r[s.dst]=a; else if(s.w<64) F.r[s.dst]=a.e?VE(mkExtract(a.e,0,s.w)):V(a.c&(u64)maskw(s.w)); else F.r[s.dst]=VE(mkZExt(toEx(a,64),s.w)); F.pc++; return; }
  case Instruction::IntToPtr: { Val a=getOp(F,s.ops[0]); if(s.aw==64) F.r[s.dst]=a; else if(s.aw<64) F.r[s.dst]=VE(mkZExt(toEx(a,s.aw),64)); else F.r[s.dst]=VE(mkExtract(a.e,0,64)); F.pc++; return; }
  case Instruction::Alloca: { u64 n=concretize(S,getOp(F,s.ops[0]),64); u64 sz=s.aux*n; if(sz>(1u<<24)) err(S,"memory","huge stack allocation"); F.r[s.dst]=V(allocObj(S,R_STACK+S.cur,T.stacknext,sz,s.aw<8?8:s.aw,K_STACK,0xaa)); F.pc++; return; }
  case Instruction::ExtractValue: { auto&ev=cast<ExtractValueInst>(*s.I); Val v=getOp(F,s.ops[0]); for(unsigned i:ev.indices()) v=((Agg*)v.c)->v[i]; setDst(F,s,v); F.pc++; return; }
  case Instruction::InsertValue: { auto&iv=cast<InsertValueInst>(*s.I); Val v=getOp(F,s.ops[0]); std::vector<unsigned> ix(iv.idx_begin(),iv.idx_end()); std::function<Val(Val,size_t)> ins=[&](Val x,size_t d)->Val{ if(d==ix.size()) return getOp(F,s.ops[1]); Agg*g=new Agg(*(Agg*)x.c); g->v[ix[d]]=ins(g->v[ix[d]],d+1); return V((u64)g); }; setDst(F,s,ins(v,0)); F.pc++; return; }
  case Instruction::ExtractElement: { Val v=getOp(F,s.ops[0]),i=getOp(F,s.ops[1]); if(i.e) incomplete(S,"symbolic vector index"); setDst(F,s,((Agg*)v.c)->v[i.c]); F.pc++; return; }
  case Instruction::InsertElement: { Val v=getOp(F,s.ops[0]),x=getOp(F,s.ops[1]),i=getOp(F,s.ops[2]); if(i.e) incomplete(S,"symbolic vector index"); Agg*g=new Agg(*(Agg*)v.c); g->v[i.c]=x; setDst(F,s,V((u64)g)); F.pc++; return; }
  case Instruction::ShuffleVector: { auto&sv=cast<ShuffleVectorInst>(*s.I); Agg*a=(Agg*)getOp(F,s.ops[0]).c,*b=(Agg*)getOp(F,s.ops[1]).c; Agg*g=new Agg; size_t n=a->v.size(); for(int m:sv.getShuffleMask()) g->v.push_back(m<0?V(0):((size_t)m<n?a->v[m]:b->v[m-n])); setDst(F,s,V((u64)g)); F.pc++; return; }
  case Instruction::Ret: { Val rv=V(0); bool has=!s.ops.empty(); if(has) rv=getOp(F,s.ops[0]); popFrame(S,T); if(T.st.empty()){ T.status=T_DONE; T.events++; if(S.cur==0) term(0); schedule(S,1); return; } Frame&C=T.st.back(); Ins&ci=C.f->code[C.pc]; if(has&&ci.dst>=0) C.r[ci.dst]=rv; advance(C); return; }
  case Instruction::Unreachable: err(S,"unreachable","execution reached undefined behaviour (unreachable)");
  case Instruction::Call: case Instruction::Invoke: doCall(S,T,F,s); return;
  case Instruction::Resume: { Agg*g=(Agg*)getOp(F,s.ops[0]).c; u64 exc=g->v[0].c; popFrame(S,T); if(T.st.empty()) err(S,"uncaught-exception","resume"); unwind(S,exc,false); return; }
  case Instruction::Fence: F.pc++; return;
  case Instruction::AtomicRMW: { auto&a=cast<AtomicRMWInst>(*s.I); Val p=getOp(F,s.ops[0]),x=getOp(F,s.ops[1]); unsigned n=s.w/8; Val o=loadMem(S,p,n),r; Ex oe=toEx(o,s.w),xe=toEx(x,s.w); switch(a.getOperation()){ case AtomicRMWInst::Add: r=binop(S,Instruction::Add,o,x,s.w); break; case AtomicRMWInst::Sub: r=binop(S,Instruction::Sub,o,x,s.w); break; case AtomicRMWInst::Xchg: r=x; break; case AtomicRMWInst::And: r=binop(S,Instruction::And,o,x,s.w); break; case AtomicRMWInst::Or: r=binop(S,Instruction::Or,o,x,s.w); break; case AtomicRMWInst::Xor: r=binop(S,Instruction::Xor,o,x,s.w); break; case AtomicRMWInst::UMax: r=VE(mkIte(mkBin(E_ULT,oe,xe),xe,oe)); break; case AtomicRMWInst::UMin: r=VE(mkIte(mkBin(E_ULT,oe,xe),oe,xe)); break; default: incomplete(S,"atomicrmw"); } storeMem(S,p,n,r); F.r[s.dst]=o; F.pc++; return; }
  case Instruction::AtomicCmpXchg: { Val p=getOp(F,s.ops[0]),x=getOp(F,s.ops[1]),y=getOp(F,s.ops[2]); unsigned w=tyBits(s.I->getOperand(1)->getType()); Val o=loadMem(S,p,w/8); Ex c=mkEq(toEx(o,w),toEx(x,w)); bool eq=isc(c)?c->c!=0:branch(S,c); if(eq) storeMem(S,p,w/8,y); Agg*g=new Agg; g->v={o,V(eq)}; setDst(F,s,V((u64)g)); F.pc++; return; }
  case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: { Val a=getOp(F,s.ops[0]),b=getOp(F,s.ops[1]); if(a.e||b.e||s.w>64) incomplete(S,"symbolic floating point"); double x=asD(a.c,s.w),y=asD(b.c,s.w),r=0; switch(s.op){ case Instruction::FAdd:r=x+y;break; case Instruction::FSub:r=x-y;break; case Instruction::FMul:r=x*y;break; case Instruction::FDiv:r=x/y;break; default:r=fmod(x,y); } F.r[s.dst]=V(fromD(r,s.w)); F.pc++; return; }
  case Instruction::FNeg: { Val a=getOp(F,s.ops[0]); if(s.w>64) incomplete(S,"fp80"); F.r[s.dst]=VE(mkBin(E_XOR,toEx(a,s.w),mkc((u128)1<<(s.w-1),s.w))); F.pc++; return; }
  case Instruction::FCmp: { Val a=getOp(F,s.ops[0]),b=getOp(F,s.ops[1]); if(s.aux==CmpInst::FCMP_UNO||s.aux==CmpInst::FCMP_ORD){ // NaN test works symbolically
        auto nan=[&](const Val&v)->Ex{ unsigned mb=s.aw==64?52:23; Ex e=toEx(v,s.aw); return mkAnd(mkEq(mkExtract(e,mb,s.aw-1-mb),mkc(maskw(s.aw-1-mb),s.aw-1-mb)),mkNot(mkEq(mkExtract(e,0,mb),mkc(0,mb)))); }; if(s.aw>64) incomplete(S,"fp80"); Ex r=mkOr(nan(a),nan(b)); if(s.aux==CmpInst::FCMP_ORD) r=mkNot(r); F.r[s.dst]=VE(r); F.pc++; return; }
      if(a.e||b.e||s.aw>64||!s.aw) incomplete(S,"symbolic floating point compare"); double x=asD(a.c,s.aw),y=asD(b.c,s.aw); bool u=isnan(x)||isnan(y),r=false; switch(s.aux){ case CmpInst::FCMP_OEQ:r=x==y;break; case CmpInst::FCMP_OGT:r=x>y;break; case CmpInst::FCMP_OGE:r=x>=y;break; case CmpInst::FCMP_OLT:r=x<y;break; case CmpInst::FCMP_OLE:r=x<=y;break; case CmpInst::FCMP_ONE:r=!u&&x!=y;break; case CmpInst::FCMP_UEQ:r=u||x==y;break; case CmpInst::FCMP_UGT:r=u||x>y;break; case CmpInst::FCMP_UGE:r=u||x>=y;break; case CmpInst::FCMP_ULT:r=u||x<y;break; case CmpInst::FCMP_ULE:r=u||x<=y;break; case CmpInst::FCMP_UNE:r=u||x!=y;break; case CmpInst::FCMP_TRUE:r=true;break; default:r=false; } F.r[s.dst]=V(r); F.pc++; return; }
  case Instruction::FPExt: case Instruction::FPTrunc: { Val a=getOp(F,s.ops[0]); if(a.e||s.w>64||s.aw>64) incomplete(S,"symbolic floating point conversion"); F.r[s.dst]=V(fromD(asD(a.c,s.aw),s.w)); F.pc++; return; }
  case Instruction::SIToFP: { Val a=getOp(F,s.ops[0]); if(a.e) incomplete(S,"symbolic sitofp"); F.r[s.dst]=V(fromD((double)(s64)sextw(a.c,s.aw),s.w)); F.pc++; return; }
  case Instruction::UIToFP: { Val a=getOp(F,s.ops[0]); if(a.e) incomplete(S,"symbolic uitofp"); F.r[s.dst]=V(fromD((double)a.c,s.w)); F.pc++; return; }
  case Instruction::FPToSI: case Instruction::FPToUI: { Val a=getOp(F,s.ops[0]); if(a.e||s.aw>64) incomplete(S,"symbolic fptoi"); double d=asD(a.c,s.aw); F.r[s.dst]=V((s.op==Instruction::FPToSI?(u64)(s64)d:(u64)d)&(u64)maskw(s.w)); F.pc++; return; }
  case Instruction::LandingPad: abort();
  default: incomplete(S,std::string("instruction ")+s.I->getOpcodeName()); } }

static void callFn(State&S,Thread&T,Frame&F,Ins&s,FInfo*f){ std::vector<Val> a; auto&cb=cast<CallBase>(*s.I); for(unsigned i=0;i<cb.arg_size();i++) a.push_back(s.ops[i]==INT32_MIN?V(0):getOp(F,s.ops[i])); if(f->F->isDeclaration()){ if(unsup.insert(f->name).second) fprintf(stderr,"[symx] unresolved external: %s (%s)\n%s",f->name.c_str(),demangle(f->name).c_str(),stackOf(S).c_str()); incomplete(S,"call to unresolved external "+f->name); } enter(S,T,f,a,&cb); }

static bool doCall(State&S,Thread&T,Frame&F,Ins&s){
  int in=s.intr; auto A=[&](int i){ return getOp(F,s.ops[i]); };
  auto ret=[&](const Val&v){ setDst(F,s,v); advance(F); };
  switch(in){
  case IN_NONE: callFn(S,T,F,s,s.callee); return true;
  case IN_INDIRECT: { u64 a=concretize(S,getOp(F,s.ops.back()),64); FInfo*f=fnAt(a); if(!f) err(S,"memory","indirect call to a non-function: "+descAddr(S,a)); int k=intrOf(f,cast<CallBase>(*s.I)); if(k==IN_NONE||k==IN_UNRESOLVED){ callFn(S,T,F,s,f); return true; } if(k==IN_DELETE||k==IN_FREE){ heapFree(S,A(0),k==IN_FREE?1:2); ret(V(0)); return true; } if(k==IN_PUREVIRT) err(S,"pure-virtual","pure virtual call"); incomplete(S,"indirect call to intrinsic "+f->name); }
  case IN_UNRESOLVED: callFn(S,T,F,s,s.callee); return true;
  case IN_ASM: if(!s.aux) incomplete(S,"inline asm"); ret(V(0)); return true;
  case IN_NOP: advance(F); return true;
  case IN_NOP0: ret(V(0)); return true;
  case IN_EXPECT: ret(A(0)); return true;
  case IN_MEMCPY: { u64 n=concretize(S,A(2),64); copyMem(S,A(0),A(1),n); ret(A(0)); return true; }
  case IN_MEMSET: { u64 n=concretize(S,A(2),64); Val v=A(1); if(n){ u64 off; Ex so; Val d=A(0); Obj*o=resolve(S,d,n,true,off,so,"write"); if(so) off=concretize(S,VE(so),64); o=wr(S,o); if(v.e){ Val b=VE(mkExtract(v.e,0,8)); for(u64 i=0;i<n;i++) wrObj(o,off+i,1,b); } else { memset(&o->d[off],(int)v.c,n); if(!o->s.empty()) for(u64 i=0;i<n;i++) o->s[off+i]=0; } } ret(A(0)); return true; }
  case IN_MEMCMP: { u64 n=concretize(S,A(2),64); Ex r=mkc(0,32); for(u64 i=n;i-->0;){ Val x=loadMem(S,addOff(A(0),i),1),y=loadMem(S,addOff(A(1),i),1); Ex xe=toEx(x,8),ye=toEx(y,8); r=mkIte(mkEq(xe,ye),r,mkBin(E_SUB,mkZExt(xe,32),mkZExt(ye,32))); } ret(VE(r)); return true; }
  case IN_UMAX: case IN_UMIN: case IN_SMAX: case IN_SMIN: { if(!s.w) incomplete(S,"vector minmax"); Ex a=toEx(A(0),s.w),b=toEx(A(1),s.w); Ex c=mkBin(in==IN_UMAX||in==IN_UMIN?E_ULT:E_SLT,a,b); bool mx=in==IN_UMAX||in==IN_SMAX; ret(VE(mkIte(c,mx?b:a,mx?a:b))); return true; }
  case IN_ABS: { Ex a=toEx(A(0),s.w); ret(VE(mkIte(mkBin(E_SLT,a,mkc(0,s.w)),mkBin(E_SUB,mkc(0,s.w),a),a))); return true; }
  case IN_CTPOP: { Ex a=toEx(A(0),s.w); Ex r=mkc(0,s.w); for(unsigned i=0;i<s.w;i++) r=mkBin(E_ADD,r,mkZExt(mkExtract(a,i,1),s.w)); ret(VE(r)); return true; }
  case IN_CTLZ: { Ex a=toEx(A(0),s.w); Ex r=mkc(s.w,s.w); for(unsigned i=0;i<s.w;i++) r=mkIte(mkExtract(a,i,1),mkc(s.w-1-i,s.w),r); ret(VE(r)); return true; }
  case IN_CTTZ: { Ex a=toEx(A(0),s.w); Ex r=mkc(s.w,s.w); for(unsigned i=s.w;i-->0;) r=mkIte(mkExtract(a,i,1),mkc(i,s.w),r); ret(VE(r)); return true; }
  case IN_BSWAP: { Ex a=toEx(A(0),s.w); Ex r=0; for(unsigned i=0;i<s.w/8;i++){ Ex b=mkExtract(a,i*8,8); r=r?mkConcat(r,b):b; } ret(VE(r)); return true; }
  case IN_FSHL: case IN_FSHR: { unsigned w=s.w; Ex a=toEx(A(0),w),b=toEx(A(1),w),c=toEx(A(2),w); c=mkBin(E_UREM,c,mkc(w,w)); Ex inv=mkBin(E_SUB,mkc(w,w),c); Ex z=mkEq(c,mkc(0,w)); if(in==IN_FSHL) ret(VE(mkIte(z,a,mkOr(mkBin(E_SHL,a,c),mkBin(E_LSHR,b,inv))))); else ret(VE(mkIte(z,b,mkOr(mkBin(E_SHL,a,inv),mkBin(E_LSHR,b,c))))); return true; }
  case IN_USUBSAT: { Ex a=toEx(A(0),s.w),b=toEx(A(1),s.w); ret(VE(mkIte(mkBin(E_ULT,a,b),mkc(0,s.w),mkBin(E_SUB,a,b)))); return true; }
  case IN_UADDSAT: { Ex a=toEx(A(0),s.w),b=toEx(A(1),s.w); Ex r=mkBin(E_ADD,a,b); ret(VE(mkIte(mkBin(E_ULT,r,a),mkc(maskw(s.w),s.w),r))); return true; }
  case IN_UADDO: case IN_USUBO: case IN_UMULO: case IN_SADDO: case IN_SSUBO: case IN_SMULO: { unsigned w=tyBits(cast<CallBase>(*s.I).getArgOperand(0)->getType()); Ex a=toEx(A(0),w),b=toEx(A(1),w); EOp o=in==IN_UADDO||in==IN_SADDO?E_ADD:in==IN_USUBO||in==IN_SSUBO?E_SUB:E_MUL; Ex r=mkBin(o,a,b),ov; 
     if(in==IN_UADDO) ov=mkBin(E_ULT,r,a); else if(in==IN_USUBO) ov=mkBin(E_ULT,a,b); else { unsigned W=w*2>128?128:w*2; if(W<w*2) { if(!isc(a)||!isc(b)) incomplete(S,"wide overflow"); } bool sg=in>=IN_SADDO; Ex wa=sg?mkSExt(a,W):mkZExt(a,W),wb=sg?mkSExt(b,W):mkZExt(b,W); Ex wr_=mkBin(o,wa,wb); ov=mkNot(mkEq(wr_,sg?mkSExt(r,W):mkZExt(r,W))); }
     Agg*g=new Agg; g->v={VE(r),VE(ov)}; ret(V((u64)g)); return true; }
  case IN_VASTART: { u64 ap=A(0).c; u64 n=F.va.size(); u64 a=allocObj(S,R_STACK+S.cur,T.stacknext,n*8+8,16,K_STACK,0); for(u64 i=0;i<n;i++){ Val v=F.va[i]; if(v.e&&v.e->w<64) v=VE(mkZExt(v.e,64)); else if(v.e&&v.e->w>64) incomplete(S,"wide vararg"); storeMem(S,V(a+i*8),8,v); } storeMem(S,V(ap),4,V(48)); storeMem(S,V(ap+4),4,V(176)); storeMem(S,V(ap+8),8,V(a)); storeMem(S,V(ap+16),8,V(0)); advance(F); return true; }
  case IN_VACOPY: copyMem(S,A(0),A(1),24); advance(F); return true;
  case IN_STACKSAVE: ret(V(0)); return true;
  case IN_TRAP: err(S,"undefined-behaviour","undefined behaviour trap reached");
  case IN_TYPEID: ret(V(typeId(A(0).c))); return true;
  case IN_OBJSIZE: ret(V(maskw(s.w))); return true;
  case IN_ISCONST: ret(V(0)); return true;
  case IN_TLADDR: { auto*g=cast<GlobalVariable>(cast<CallBase>(*s.I).getArgOperand(0)->stripPointerCasts()); ret(V(tlsAddr(S,g))); return true; }
  case IN_FABS: { ret(VE(mkBin(E_AND,toEx(A(0),s.w),mkc(maskw(s.w-1),s.w)))); return true; }
  case IN_MALLOC: case IN_NEW: case IN_NEWA: { u64 n=concretize(S,A(0),64); if(n>(1ull<<30)){ if(in==IN_MALLOC){ ret(V(0)); return true; } err(S,"bad-alloc","allocation of "+std::to_string(n)+" bytes fails"); } ret(V(heapAlloc(S,n,16,in==IN_MALLOC?1:in==IN_NEW?2:3,HFILL))); return true; }
  case IN_NEWAL: { u64 n=concretize(S,A(0),64); ret(V(heapAlloc(S,n,A(1).c,2,HFILL))); return true; }
  case IN_CALLOC: { u64 n=concretize(S,A(0),64)*concretize(S,A(1),64); if(n>(1ull<<30)) ret(V(0)); else ret(V(heapAlloc(S,n,16,1,0))); return true; }
  case IN_MEMALIGN: { u64 n=concretize(S,A(2),64); if(n>(1ull<<34)) { ret(V(12)); return true; } u64 big=params.count("maxalloc")?params["maxalloc"]:(1<<26); if(n>big) { ret(V(12)); return true; } u64 al=A(1).c; if(al<8||(al&(al-1))){ ret(V(22)); return true; } u64 a=heapAlloc(S,n,al,1,HFILL); storeMem(S,A(0),8,V(a)); ret(V(0)); return true; }
  case IN_ALIGNED: { u64 n=concretize(S,A(1),64); ret(V(heapAlloc(S,n,A(0).c,1,HFILL))); return true; }
  case IN_FREE: heapFree(S,A(0),1); advance(F); return true;
  case IN_DELETE: heapFree(S,A(0),2); advance(F); return true;
  case IN_DELETEA: heapFree(S,A(0),3); advance(F); return true;
  case IN_REALLOC: { u64 p=concretize(S,A(0),64),n=concretize(S,A(1),64); u64 a=n>(1ull<<30)?0:heapAlloc(S,n,16,1,HFILL); if(a&&p){ Obj*o=findObj(S,p); if(!o||o->base!=p||o->freed||o->kind!=K_HEAP) err(S,"memory","realloc of invalid pointer"); copyMem(S,V(a),V(p),std::min<u64>(n,o->size)); heapFree(S,V(p),1); } ret(V(a)); return true; }
  case IN_SYM: { std::string nm=readCStr(S,A(0).c); unsigned w=A(1).c; char b[32]; snprintf(b,32,"#%u",(unsigned)S.in.size()); Ex v=mkVar(nm+b,w); S.in.push_back({v,nm,w}); if(S.model.size()<EP.vars.size()) S.model.resize(EP.vars.size(),0); ret(VE(mkZExt(v,64))); return true; }
  case IN_BYTES: { u64 p=concretize(S,A(0),64),n=concretize(S,A(1),64); std::string nm=readCStr(S,A(2).c); for(u64 i=0;i<n;i++){ char b[48]; snprintf(b,48,"[%u]#%u",(unsigned)i,(unsigned)S.in.size()); Ex v=mkVar(nm+b,8); S.in.push_back({v,nm,8}); storeMem(S,V(p+i),1,VE(v)); } S.model.resize(EP.vars.size(),0); advance(F); return true; }
  case IN_ASSUME: { Val c=A(0); if(!c.e){ if(!c.c) term(1); advance(F); return true; } Ex e=mkNot(mkEq(c.e,mkc(0,c.e->w))); u128 kv; if(known(S,e,kv)){ if(!kv) term(1); advance(F); return true; } if(!evalExpr(e,S.model)){ Model m; if(!chk(S,e,m)) term(1); S.model=m; } addC(S,e); advance(F); return true; }
  case IN_ASSERT: { ST.asserts++; Val c=A(0); std::string msg=readCStr(S,A(1).c); if(!c.e){ if(!c.c) err(S,"assert",msg); advance(F); return true; } Ex e=mkNot(mkEq(c.e,mkc(0,c.e->w))); u128 kv; if(known(S,e,kv)){ if(!kv) err(S,"assert",msg); advance(F); return true; } ST.assertQ++; if(!evalExpr(e,S.model)) err(S,"assert",msg); Model m; if(chk(S,mkNot(e),m)){ Model o=S.model; S.model=m; report(S,"assert",msg,m); S.model=o; addC(S,e); } else S.eq[e]=1; advance(F); return true; }
  case IN_OBSERVE: S.obs.push_back(A(0)); advance(F); return true;
  case IN_REACH: S.reach.push_back(readCStr(S,A(0).c)); advance(F); return true;
  case IN_CHOICE: { // n-way nondeterministic choice, explored exhaustively
     Val n=A(0); std::string nm=readCStr(S,A(1).c); u64 N=concretize(S,n,64); if(!N) term(1); char b[32]; snprintf(b,32,"?%u",(unsigned)S.in.size()); Ex v=mkVar(nm+b,32); S.in.push_back({v,nm,32}); S.model.resize(EP.vars.size(),0); u32 vi=(u32)v->c; 
     for(u64 i=N;i-->1;){ State*c=forkState(S); c->depth++; c->model[vi]=i; addC(*c,mkEq(v,mkc(i,32))); Frame&cf=c->th[c->cur].st.back(); setDst(cf,s,V(i)); advance(cf); }
     S.model[vi]=0; addC(S,mkEq(v,mkc(0,32))); ret(V(0)); return true; }
  case IN_CONC: { u64 v=concretize(S,A(0),64); ret(V(v)); return true; }
  case IN_PARAM: { std::string nm=readCStr(S,A(0).c); auto it=params.find(nm); ret(it==params.end()?A(1):V((u64)it->second)); return true; }
  case IN_TID: ret(V(S.cur)); return true;
  case IN_THREAD: { u64 fa=concretize(S,A(0),64); FInfo*f=fnAt(fa); if(!f) err(S,"memory","thread entry"); Val arg=A(1); int id=S.th.size(); if(id>=28) incomplete(S,"too many threads"); setDst(F,s,V(id)); advance(F); if(id==1) T.events=0; S.th.emplace_back(); Thread&N=S.th.back(); N.heapnext=((u64)(R_HEAP+id)<<40)+64; N.stacknext=((u64)(R_STACK+id)<<40)+64; enter(S,N,f,{arg},0); return true; }
  case IN_EV: { T.events++; advance(F); if(F.f->rt||T.noyield) return true; if(S.th.size()<2) return true; int alive=0; for(auto&t:S.th) if(t.status!=T_DONE) alive++; if(alive<2) return true; Ins&nx=F.f->code[F.pc]; bool sh=evShared(S,nx,F); if(!sh||S.schedMode!=1) return true; schedule(S,0); return true; }
  case IN_POINT: T.events++; advance(F); if(S.th.size()<2||S.schedMode!=1||T.noyield) return true; schedule(S,0); return true;
  case IN_BLOCK: case IN_BLOCKT: { u64 p=concretize(S,A(0),64); u32 v=concretize(S,A(1),32); 
     if(in==IN_BLOCKT&&T.wokeByTimeout){ T.wokeByTimeout=false; T.timedok=false; T.status=T_RUN; ret(V(1)); return true; }
     Val cv=loadMem(S,V(p),4); if(cv.e) incomplete(S,"symbolic block word"); if((u32)cv.c!=v){ T.timedok=false; ret(V(0)); return true; } T.events++; T.status=T_BLOCK; T.bptr=p; T.bval=v; T.timedok=in==IN_BLOCKT; schedule(S,1); return true; }
  case IN_SLEEP: T.events++; advance(F); if(T.noyield) return true; T.status=T_SLEEP; schedule(S,1); return true;
  case IN_YIELD: T.events++; ret(V(0)); if(T.noyield) return true; schedule(S,2); return true;
  case IN_SCHED: { s64 m=(s64)A(0).c; S.schedMode=m&1; S.idle=0; advance(F); return true; }
  case IN_ATOMIC: if(A(0).c) T.noyield++; else T.noyield--; advance(F); return true;
  case IN_FAIL: err(S,"assert",readCStr(S,A(0).c));
  case IN_HIGN: S.hashIgnore.push_back({A(0).c,A(1).c}); advance(F); return true;
  case IN_NOTE: { Val v=A(1); S.notes.push_back(readCStr(S,A(0).c)+" "+(v.e?exprStr(v.e)+" ~ "+std::to_string((u64)evalExpr(v.e,S.model)):std::to_string(v.c))); if(params.count("verbose")) fprintf(stderr,"note %s\n",S.notes.back().c_str()); advance(F); return true; }
  case IN_OSIZE: { u64 p=concretize(S,A(0),64); Obj*o=findObj(S,p); ret(V(o&&!o->freed?o->size-(p-o->base):0)); return true; }
  case IN_NATIVE: ret(V(0)); return true;
  case IN_ISSYM: ret(V(A(0).e?1:0)); return true;
  case IN_VALID: { u64 p=concretize(S,A(0),64),n=concretize(S,A(1),64); Obj*o=findObj(S,p); ret(V(o&&!o->freed&&p-o->base+n<=o->size)); return true; }
  case IN_DUMP: { u64 p=A(0).c,n=A(1).c; for(u64 i=0;i<n;i++){ Val v=loadMem(S,V(p+i),1); if(v.e) fprintf(stderr,"%s ",exprStr(v.e,3).c_str()); else fprintf(stderr,"%02x ",(unsigned)v.c); } fprintf(stderr,"\n"); advance(F); return true; }
  // text of a concrete double: (buffer, size, format with one conversion, bits of the double)
  case IN_FMTDBL: { if(A(3).e) incomplete(S,"text of a symbolic floating point value"); u64 p=concretize(S,A(0),64),n=concretize(S,A(1),64); std::string f=readCStr(S,A(2).c); double d; u64 b=A(3).c; memcpy(&d,&b,8); if(n>4096||f.find('*')!=std::string::npos) incomplete(S,"symx_fmtdbl"); std::vector<char> o(n?n:1); int r=snprintf(o.data(),n,f.c_str(),d); for(u64 i=0;i<n&&(int)i<=r;i++) storeMem(S,V(p+i),1,V((unsigned char)o[i])); ret(V((u64)(u32)r)); return true; }
  case IN_CXA_ALLOC: { u64 n=concretize(S,A(0),64); u64 a=heapAlloc(S,n+32,16,9,0); ret(V(a+32)); return true; }
  case IN_CXA_FREE: advance(F); return true;
  case IN_CXA_THROW: { u64 e=A(0).c; storeMem(S,V(e-32),8,A(1)); storeMem(S,V(e-24),8,A(2)); unwind(S,e,true); return true; }
  case IN_CXA_BEGIN: { u64 e=A(0).c; bool f=false; for(auto&c:T.caught) if(c.exc==e){ c.cnt++; f=true; } if(!f) T.caught.push_back({e,1}); ret(V(e)); return true; }
  case IN_CXA_END: { if(!T.caught.empty()){ if(--T.caught.back().cnt<=0) T.caught.pop_back(); } advance(F); return true; }
  case IN_CXA_RETHROW: { if(T.caught.empty()) err(S,"terminate","rethrow without exception"); u64 e=T.caught.back().exc; T.caught.pop_back(); unwind(S,e,true); return true; }
  case IN_RESUME: { u64 e=A(0).c; popFrame(S,T); unwind(S,e,false); return true; }
  case IN_GUARD_ACQ: { Val g=loadMem(S,A(0),1); if(g.e) incomplete(S,"symbolic guard"); if(g.c) { ret(V(0)); return true; } ret(V(1)); return true; }
  case IN_GUARD_REL: storeMem(S,A(0),1,V(1)); advance(F); return true;
  case IN_TERMINATE: err(S,"terminate","std::terminate called");
  case IN_ABORT: err(S,"abort","abort() called");
  case IN_ASSERTFAIL: err(S,"abort","assertion failed: "+readCStr(S,A(0).c));
  case IN_PUREVIRT: err(S,"pure-virtual","pure virtual call");
  case IN_EXIT: term(0);
  case IN_THROWFN: err(S,"uncaught-exception","library throw: "+demangle(s.callee->name));
  case IN_DYNCAST: ret(A(0)); return true; // only used for checked downcasts in stubs
  default: incomplete(S,"intrinsic "+s.callee->name); } }
