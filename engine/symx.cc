// symx: symbolic executor for LLVM 18 bitcode (solver: z3). See DESIGN.md.
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <math.h>
#include <set>
#include <deque>
#include <functional>
using namespace llvm;

static std::unique_ptr<Module> M; static LLVMContext CTX; static const DataLayout *DL;

struct Val { Ex e; u64 c; };
static inline Val V(u64 c){ return Val{0,c}; }
static inline Val VE(Ex e){ if(isc(e)&&e->w<=64) return Val{0,(u64)e->c}; return Val{e,0}; }
static inline Ex toEx(const Val&v,unsigned w){ return v.e?v.e:mkc(v.c,w); }
struct Agg { std::vector<Val> v; };

// ------------------------------------------------------------------ memory
enum { K_GLOBAL, K_HEAP, K_STACK, K_TLS, K_CONST, K_FUNC };
struct Obj { u32 rc=0; u32 size=0; u64 base=0; u8 kind=0; bool freed=false, arr=false; u8 alloctype=0; std::vector<u8> d; std::vector<Ex> s; mutable u64 h=0; mutable bool hv=false; };
struct OR { Obj*p; OR():p(0){} OR(Obj*q):p(q){ if(p)p->rc++; } OR(const OR&o):p(o.p){ if(p)p->rc++; } OR(OR&&o):p(o.p){ o.p=0; }
  OR&operator=(const OR&o){ if(o.p)o.p->rc++; rel(); p=o.p; return *this; } OR&operator=(OR&&o){ std::swap(p,o.p); return *this; }
  void rel(){ if(p&&!--p->rc) delete p; p=0; } ~OR(){ rel(); } Obj*operator->()const{ return p; } };
enum { NREG=128, R_FUNC=1,R_CONST=2,R_GLOB=3,R_HEAP=16,R_STACK=48,R_TLS=80 };
static inline unsigned regOf(u64 a){ return (a>>40); }
static std::vector<OR> constObjs; // region 2, shared by all states

// ------------------------------------------------------------------ code
struct Edge { int bb; std::vector<std::pair<int,int>> cp; };
struct Ins { Instruction*I; unsigned op; int dst; unsigned w; std::vector<int> ops; std::vector<Edge> e; u64 aux=0; std::vector<std::pair<int,u64>> idx; struct FInfo*callee=0; int intr=0; unsigned aw=0; std::vector<u8> live; bool haslive=false; std::vector<std::pair<u64,int>> cases; bool ev=false; };
struct FInfo { Function*F; std::string name; bool prepared=false; int nargs=0,nslots=0; std::vector<Ins> code; std::vector<int> bbstart; std::map<BasicBlock*,int> bbidx; int intr=0; u64 addr=0; bool executed=false; bool rt=false; std::vector<std::vector<u8>> livein; u64 nins=0; };
static std::vector<Val> cpool; static std::map<Constant*,int> cidx;
static std::map<Function*,FInfo*> finfos; static std::vector<FInfo*> faddr;
static std::map<const GlobalVariable*,u64> gaddr; static std::map<const GlobalVariable*,int> tlsidx; static std::vector<const GlobalVariable*> tlsvars;

struct Frame { FInfo*f; int pc; std::vector<Val> r; u64 sp; int ndyn=0; std::vector<Val> va; };
enum { T_RUN, T_BLOCK, T_SLEEP, T_DONE };
struct Caught { u64 exc; int cnt; };
struct Thread { std::vector<Frame> st; u64 heapnext, stacknext; int status=T_RUN; u64 bptr=0; u32 bval=0; u64 events=0; std::vector<Caught> caught; u64 tlsbase=0; std::vector<u64> tls; int noyield=0; bool timedok=false; bool woke=false; bool wokeByTimeout=false; };
struct Input { Ex var; std::string name; unsigned w; };
struct SchedEnt { int tid; u64 events; };
struct State {
  std::vector<OR> reg[NREG]; std::vector<Thread> th; int cur=0;
  std::vector<Ex> pc; Model model; std::unordered_map<Ex,u128> eq;
  std::vector<Input> in; std::vector<Val> obs; std::vector<unsigned> obsw; std::vector<std::string> reach;
  std::vector<SchedEnt> sched; std::vector<std::string> notes; u64 steps=0; int preempt=0; u64 nsym=0; int schedMode=0; int idle=0; u64 lastIdleHash=0; bool forced=false; int depth=0; u64 id=0; u64 pcHash=0; std::vector<std::pair<u64,u64>> hashIgnore; int idleLimit=64; bool pruned=false; u64 misc=0; u64 forkEv=0;
};

// ------------------------------------------------------------------ globals
struct Violation { std::string kind,msg,loc; std::string stack; std::vector<std::string> in; std::string sched; std::vector<std::string> obs; };
static std::map<std::string,s64> params; static std::string outPath; static double tlimit=120; static u64 maxSteps=20000000; static int J=1; static unsigned solverTO=20000; static int maxViol=4; static int sampleMax=12; static u64 stepsViolation=1; static std::string repoPrefix="/repo/"; static int preemptBound=-1; static bool dedupe=false; static bool useSched=false; static u64 maxPaths=~0ull;
struct Stats { u64 paths=0,completed=0,assumed=0,pruned=0,errors=0,incomplete=0,forks=0,insts=0,states=0,trans=0,asserts=0,assertQ=0,memq=0; } ST;
static std::vector<Violation> viols; static std::map<std::string,u64> reachCnt; static std::set<std::string> incompleteWhy; static std::set<std::string> violKeys; static std::set<std::string> unsup;
struct Sample { std::vector<std::string> in; std::string sched; std::vector<std::string> obs; };
static std::vector<Sample> samples; static u64 sampleSeen=0; static u64 rngs=1;
static std::vector<State*> work; static double tstart;
static double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
struct Shared { volatile int stop; volatile int active; volatile u64 vt_used; volatile u64 paths; }; static Shared*SH; static u64*VT; static u64 VTN=0; static int jobpipe[2]; static int procIdx=0; 
static std::set<u64> sharedWords; struct Acc{ u32 r=0,w=0; }; static std::unordered_map<u64,Acc> accMap; static bool newShared=false;

struct Term { int why; }; // thrown to end a path: 0 done,1 assume,2 error,3 incomplete,4 pruned, 5 stop
[[noreturn]] static void term(int w){ throw Term{w}; }

static std::string locOf(Instruction*I){ if(!I) return "?"; DebugLoc L=I->getDebugLoc(); if(!L) return "?:0"; auto*sc=cast<DIScope>(L.getScope()); std::string f=sc->getFilename().str(); if(f.size()&&f[0]!='/'){ std::string d=sc->getDirectory().str(); f=d+"/"+f; } return f+":"+std::to_string(L.getLine()); }
static std::string stackOf(State&S){ std::string r; auto&T=S.th[S.cur]; for(int i=(int)T.st.size()-1;i>=0&&i>(int)T.st.size()-14;i--){ auto&F=T.st[i]; r+=demangle(F.f->name)+" at "+locOf(F.f->code[F.pc].I)+"\n"; } return r; }
static std::vector<std::string> inputsOf(State&S,const Model&m){ std::vector<std::string> r; for(auto&i:S.in){ u64 v=(u32)i.var->c<m.size()?m[(u32)i.var->c]:0; char b[64]; snprintf(b,64,"%u 0x%llx ",i.w,(unsigned long long)(v&(u64)maskw(i.w))); r.push_back(b+i.name); } return r; }
static std::string schedOf(State&S){ std::string r; for(auto&e:S.sched) r+=std::to_string(e.tid)+":"+std::to_string(e.events)+" "; if(S.th.size()>1) r+=std::to_string(S.cur)+":18446744073709551615 "; return r; }
static std::vector<std::string> obsOf(State&S,const Model&m){ std::vector<std::string> r; for(size_t i=0;i<S.obs.size();i++){ u64 v=S.obs[i].e?(u64)evalExpr(S.obs[i].e,m):S.obs[i].c; char b[32]; snprintf(b,32,"0x%llx",(unsigned long long)v); r.push_back(b); } return r; }

static void report(State&S,const char*kind,const std::string&msg,const Model&m){
  Violation v; v.kind=kind; v.msg=msg; auto&F=S.th[S.cur].st.back(); v.loc=locOf(F.f->code[F.pc].I); v.stack=stackOf(S); v.in=inputsOf(S,m); v.sched=schedOf(S); v.obs=obsOf(S,m);
  std::string key=v.kind+v.loc; ST.errors++;
  if(violKeys.insert(key).second){ viols.push_back(v); fprintf(stderr,"[symx] %s: %s at %s\n%s",kind,msg.c_str(),v.loc.c_str(),v.stack.c_str()); for(auto&i:v.in) fprintf(stderr,"   in %s\n",i.c_str()); if(v.sched.size()) fprintf(stderr,"   sched %s\n",v.sched.c_str()); for(auto&n:S.notes) fprintf(stderr,"   note %s\n",n.c_str()); }
  if((int)viols.size()>=maxViol) SH->stop=1; }
[[noreturn]] static void err(State&S,const char*kind,const std::string&msg){ report(S,kind,msg,S.model); term(2); }
[[noreturn]] static void incomplete(State&S,const std::string&why){ auto&F=S.th[S.cur].st.back(); std::string k=why+" @ "+F.f->name+" "+locOf(F.f->code[F.pc].I); if(incompleteWhy.insert(k).second) fprintf(stderr,"[symx] INCOMPLETE: %s\n%s",k.c_str(),stackOf(S).c_str()); term(3); }

// ------------------------------------------------------------------ forking/constraints
static void addC(State&S,Ex c){ if(isc(c)) return; if(c->op==E_AND){ addC(S,c->a); addC(S,c->b); return; }
  for(size_t i=S.pc.size(),n=0;i>0&&n<32;i--,n++) if(S.pc[i-1]==c) return;
  S.pc.push_back(c); S.pcHash+=mix64(c->hash);
  if(c->op==E_EQ&&isc(c->b)) S.eq[c->a]=c->b->c; else if(c->op==E_XOR&&iscv(c->b,1)) S.eq[c->a]=0; else S.eq[c]=1; }
static State*forkState(State&S){ State*n=new State(S); ST.forks++; work.push_back(n); return n; }
static bool known(State&S,Ex e,u128&v){ if(isc(e)){ v=e->c; return true; } auto it=S.eq.find(e); if(it!=S.eq.end()){ v=it->second; return true; } if(e->w==1&&e->op==E_XOR&&iscv(e->b,1)){ u128 x; if(known(S,e->a,x)){ v=!x; return true; } } 
  if((e->op==E_ZEXT)&&known(S,e->a,v)) return true; if(e->op==E_EXTRACT&&known(S,e->a,v)){ v=(v>>e->lo)&maskw(e->w); return true; } if(e->op==E_CONCAT){ u128 h,l; if(known(S,e->a,h)&&known(S,e->b,l)){ v=(h<<e->b->w)|l; return true; } }
  if((e->op>=E_ADD&&e->op<=E_SLE&&e->vars->size()<=4)){ u128 x,y; if(known(S,e->a,x)&&known(S,e->b,y)){ v=foldBin(e->op,x,y,e->a->w); return true; } }
  return false; }
static int chk(State&S,Ex c,Model&out){ int r=SV.check(S.pc,c,S.model,out); if(r<0) incomplete(S,"solver unknown/timeout"); return r; }
// decide a boolean; forks when both outcomes are feasible
static bool branch(State&S,Ex c){ u128 kv; if(known(S,c,kv)) return kv!=0;
  bool v=evalExpr(c,S.model)!=0; Ex oth=v?mkNot(c):c; Model m;
  if(chk(S,oth,m)){ State*n=forkState(S); addC(*n,oth); n->model=m; n->depth++; S.depth++; addC(S,v?c:mkNot(c)); }
  else S.eq[c]=v; 
  return v; }
// concretise: explores every feasible value
static u64 concretize(State&S,const Val&v,unsigned w){ if(!v.e) return v.c; u128 kv; if(known(S,v.e,kv)) return (u64)kv;
  u64 x=(u64)evalExpr(v.e,S.model); Ex eq=mkEq(v.e,mkc(x,w)); Model m;
  if(chk(S,mkNot(eq),m)){ State*n=forkState(S); addC(*n,mkNot(eq)); n->model=m; n->depth++; if(n->depth>4000) incomplete(S,"too many concretisations"); }
  addC(S,eq); S.eq[v.e]=x; return x; }

// ------------------------------------------------------------------ memory access
static Obj*findObj(State&S,u64 a){ unsigned r=regOf(a); if(r>=NREG) return 0; std::vector<OR>&v= r==R_CONST?constObjs:S.reg[r]; size_t lo=0,hi=v.size(); while(lo<hi){ size_t m=(lo+hi)/2; if(v[m]->base<=a) lo=m+1; else hi=m; } if(!lo) return 0; Obj*o=v[lo-1].p; if(a<o->base+o->size||(a==o->base)) return o; return 0; }
static Obj*nearObj(State&S,u64 a){ unsigned r=regOf(a); if(r>=NREG) return 0; std::vector<OR>&v= r==R_CONST?constObjs:S.reg[r]; size_t lo=0,hi=v.size(); while(lo<hi){ size_t m=(lo+hi)/2; if(v[m]->base<=a) lo=m+1; else hi=m; } return lo?v[lo-1].p:0; }
static Obj*wr(State&S,Obj*o){ o->hv=false; if(o->rc==1) return o; unsigned r=regOf(o->base); auto&v=S.reg[r]; size_t lo=0,hi=v.size(); while(lo<hi){ size_t m=(lo+hi)/2; if(v[m]->base<=o->base) lo=m+1; else hi=m; } Obj*n=new Obj(*o); n->rc=0; n->hv=false; v[lo-1]=OR(n); return n; }
static const char*knames[]={"global","heap","stack","thread-local","constant","function"};
static std::string descAddr(State&S,u64 a){ char b[160]; Obj*o=nearObj(S,a); if(o&&a-o->base<o->size+64){ snprintf(b,160,"address 0x%llx is offset %lld of a %u-byte %s object%s",(unsigned long long)a,(long long)(a-o->base),o->size,knames[o->kind],o->freed?" (freed)":""); } else snprintf(b,160,"address 0x%llx is not in any object",(unsigned long long)a); return b; }
static u64 allocObj(State&S,unsigned region,u64&next,u64 size,u64 align,int kind,int fill){
  u64 base=(next+align-1)&~(align-1); next=base+size+ (kind==K_HEAP?64:32); next=(next+15)&~15ull;
  Obj*o=new Obj; o->size=size; o->base=base; o->kind=kind; o->d.assign(size,(u8)fill); S.reg[region].push_back(OR(o)); return base; }

// resolve an access of n bytes; returns object and offset (concrete or symbolic)
static Obj*resolve(State&S,const Val&a,u64 n,bool write,u64&off,Ex&soff,const char*what){
  soff=0; u64 ca=a.c;
  if(a.e){ u128 kv; if(known(S,a.e,kv)) ca=(u64)kv; else {
    ca=(u64)evalExpr(a.e,S.model); Obj*o=findObj(S,ca);
    if(!o||o->freed||ca-o->base+n>o->size||regOf(ca)==R_FUNC) { err(S,"memory",std::string(what)+" of "+std::to_string(n)+" bytes out of bounds (symbolic address): "+descAddr(S,ca)); }
    Ex o_=mkBin(E_SUB,a.e,mkc(o->base,64)); Ex inb=mkBin(E_ULE,o_,mkc(o->size-n,64)); Model m;
    if(!isc(inb)){ ST.memq++; u128 k2; if(!known(S,inb,k2)){ if(chk(S,mkNot(inb),m)){ State*c=forkState(S); addC(*c,mkNot(inb)); c->model=m; c->depth++; addC(S,inb); } else S.eq[inb]=1; } }
    if(isc(o_)) { off=(u64)o_->c; return o; }
    if(write&&o->kind==K_CONST) err(S,"memory","write to constant memory");
    soff=o_; off=0; return o; } }
  Obj*o=findObj(S,ca);
  if(!o||regOf(ca)==R_FUNC) err(S,"memory",std::string(what)+" of "+std::to_string(n)+" bytes: "+descAddr(S,ca));
  if(o->freed) err(S,"use-after-free",std::string(what)+" of "+std::to_string(n)+" bytes: "+descAddr(S,ca));
  if(ca-o->base+n>o->size) err(S,"memory",std::string(what)+" of "+std::to_string(n)+" bytes out of bounds: "+descAddr(S,ca));
  if(write&&o->kind==K_CONST) err(S,"memory","write to constant memory: "+descAddr(S,ca));
  off=ca-o->base; return o; }

static inline Val rdObj(Obj*o,u64 off,unsigned n){
  bool sym=false; if(!o->s.empty()) for(unsigned i=0;i<n;i++) if(o->s[off+i]){ sym=true; break; }
  if(!sym){ if(n<=8){ u64 v=0; memcpy(&v,&o->d[off],n); return V(v); } u128 v=0; memcpy(&v,&o->d[off],n); return VE(mkc(v,n*8)); }
  Ex r=0; for(unsigned i=0;i<n;i++){ Ex b=o->s[off+i]?o->s[off+i]:mkc(o->d[off+i],8); r=r?mkConcat(b,r):b; } 
  return VE(r); }
static inline void wrObj(Obj*o,u64 off,unsigned n,const Val&v){ // o must be writable copy
  if(!v.e){ u64 c=v.c; memcpy(&o->d[off],&c,n>8?8:n); if(n>8) memset(&o->d[off+8],0,n-8); if(!o->s.empty()) for(unsigned i=0;i<n;i++) o->s[off+i]=0; return; }
  if(isc(v.e)){ u128 c=v.e->c; memcpy(&o->d[off],&c,n); if(!o->s.empty()) for(unsigned i=0;i<n;i++) o->s[off+i]=0; return; }
  if(o->s.empty()) o->s.assign(o->size,0);
  for(unsigned i=0;i<n;i++){ Ex b=mkExtract(v.e,i*8,8); if(isc(b)){ o->s[off+i]=0; o->d[off+i]=(u8)b->c; } else { o->s[off+i]=b; o->d[off+i]=0; } } }

static unsigned strideOf(Ex e){ unsigned s=0; // trailing zero bits known
  switch(e->op){ case E_CONCAT: if(iscv(e->b,0)) return e->b->w; return 0; case E_CONST: if(!e->c) return 6; while(!((e->c>>s)&1)) s++; return s; case E_ADD: case E_SUB: return std::min(strideOf(e->a),strideOf(e->b)); case E_ZEXT: return strideOf(e->a); case E_MUL: return strideOf(e->a)+strideOf(e->b); case E_ITE: return std::min(strideOf(e->a),strideOf(e->b)); default: return 0; } }

static Val loadMem(State&S,const Val&a,unsigned n){
  u64 off; Ex so; Obj*o=resolve(S,a,n,false,off,so,"read");
  if(!so) return rdObj(o,off,n);
  unsigned st=1u<<std::min(strideOf(so),6u); u64 cnt=(o->size-n)/st+1;
  if(cnt>700){ off=concretize(S,VE(so),64); return rdObj(o,off,n); }
  Ex r=0; for(u64 i=cnt;i-->0;){ Val x=rdObj(o,i*st,n); Ex xe=toEx(x,n*8); r=r?mkIte(mkEq(so,mkc(i*st,64)),xe,r):xe; }
  return VE(r); }
static void storeMem(State&S,const Val&a,unsigned n,const Val&v){
  u64 off; Ex so; Obj*o=resolve(S,a,n,true,off,so,"write");
  if(so){ unsigned st=1u<<std::min(strideOf(so),6u); u64 cnt=(o->size-n)/st+1;
    if(cnt*n>1200){ off=concretize(S,VE(so),64); so=0; }
    else { o=wr(S,o); Ex ve=toEx(v,n*8); std::vector<Ex> nb(o->size,0);
      for(u64 i=0;i<cnt;i++){ Ex c=mkEq(so,mkc(i*st,64)); for(unsigned k=0;k<n;k++){ u64 p=i*st+k; Ex old=nb[p]?nb[p]:(!o->s.empty()&&o->s[p]?o->s[p]:mkc(o->d[p],8)); nb[p]=mkIte(c,mkExtract(ve,k*8,8),old); } }
      if(o->s.empty()) o->s.assign(o->size,0);
      for(u64 p=0;p<o->size;p++) if(nb[p]){ if(isc(nb[p])){ o->s[p]=0; o->d[p]=(u8)nb[p]->c; } else { o->s[p]=nb[p]; o->d[p]=0; } }
      return; } }
  o=wr(S,o); wrObj(o,off,n,v); }
static void copyMem(State&S,const Val&d,const Val&s,u64 n){ if(!n) return; u64 so,dof; Ex x; Obj*o=resolve(S,s,n,false,so,x,"read"); if(x) so=concretize(S,VE(x),64);
  std::vector<u8> b(o->d.begin()+so,o->d.begin()+so+n); std::vector<Ex> sy; if(!o->s.empty()) sy.assign(o->s.begin()+so,o->s.begin()+so+n);
  Obj*t=resolve(S,d,n,true,dof,x,"write"); if(x) dof=concretize(S,VE(x),64); t=wr(S,t);
  memcpy(&t->d[dof],b.data(),n); bool any=false; for(Ex e:sy) if(e){ any=true; break; }
  if(any){ if(t->s.empty()) t->s.assign(t->size,0); for(u64 i=0;i<n;i++) t->s[dof+i]=sy[i]; } else if(!t->s.empty()) for(u64 i=0;i<n;i++) t->s[dof+i]=0; }
static std::string readCStr(State&S,u64 a,size_t max=4096){ std::string r; for(size_t i=0;i<max;i++){ u64 off; Ex so; Obj*o=findObj(S,a+i); if(!o||o->freed) break; off=a+i-o->base; if(off>=o->size) break; u8 c=o->d[off]; if(!o->s.empty()&&o->s[off]) c=(u8)evalExpr(o->s[off],S.model); if(!c) break; r+=(char)c; } return r; }

// ------------------------------------------------------------------ types
static unsigned tyBits(Type*t){ if(t->isPointerTy()) return 64; if(t->isIntegerTy()) return t->getIntegerBitWidth(); if(t->isDoubleTy()) return 64; if(t->isFloatTy()) return 32; if(t->isX86_FP80Ty()) return 80; return 0; }
static unsigned tyBytes(Type*t){ unsigned b=tyBits(t); return b?(b+7)/8:DL->getTypeStoreSize(t); }
static Val loadTy(State&S,const Val&a,Type*t);
static void storeTy(State&S,const Val&a,Type*t,const Val&v);
static Val addOff(const Val&a,u64 o){ if(!a.e) return V(a.c+o); return VE(mkBin(E_ADD,a.e,mkc(o,64))); }
static Val trunc1(const Val&v,unsigned bytes,unsigned w){ if(w==bytes*8) return v; if(!v.e) return V(v.c&(u64)maskw(w)); return VE(mkExtract(v.e,0,w)); }
static Val loadTy(State&S,const Val&a,Type*t){
  unsigned b=tyBits(t); if(b) return trunc1(loadMem(S,a,(b+7)/8),(b+7)/8,b);
  Agg*g=new Agg;
  if(auto*st=dyn_cast<StructType>(t)){ auto*sl=DL->getStructLayout(st); for(unsigned i=0;i<st->getNumElements();i++) g->v.push_back(loadTy(S,addOff(a,sl->getElementOffset(i)),st->getElementType(i))); }
  else if(auto*at=dyn_cast<ArrayType>(t)){ u64 es=DL->getTypeAllocSize(at->getElementType()); for(u64 i=0;i<at->getNumElements();i++) g->v.push_back(loadTy(S,addOff(a,es*i),at->getElementType())); }
  else if(auto*vt=dyn_cast<FixedVectorType>(t)){ u64 es=DL->getTypeStoreSize(vt->getElementType()); for(u64 i=0;i<vt->getNumElements();i++) g->v.push_back(loadTy(S,addOff(a,es*i),vt->getElementType())); }
  else incomplete(S,"load type");
  return V((u64)g); }
static void storeTy(State&S,const Val&a,Type*t,const Val&v){
  unsigned b=tyBits(t); if(b){ unsigned n=(b+7)/8; Val x=v; if(b!=n*8&&x.e) x=VE(mkZExt(x.e,n*8)); storeMem(S,a,n,x); return; }
  Agg*g=(Agg*)v.c;
  if(auto*st=dyn_cast<StructType>(t)){ auto*sl=DL->getStructLayout(st); for(unsigned i=0;i<st->getNumElements();i++) storeTy(S,addOff(a,sl->getElementOffset(i)),st->getElementType(i),g->v[i]); }
  else if(auto*at=dyn_cast<ArrayType>(t)){ u64 es=DL->getTypeAllocSize(at->getElementType()); for(u64 i=0;i<at->getNumElements();i++) storeTy(S,addOff(a,es*i),at->getElementType(),g->v[i]); }
  else if(auto*vt=dyn_cast<FixedVectorType>(t)){ u64 es=DL->getTypeStoreSize(vt->getElementType()); for(u64 i=0;i<vt->getNumElements();i++) storeTy(S,addOff(a,es*i),vt->getElementType(),g->v[i]); }
  else incomplete(S,"store type"); }

#include "prep.inc"
#include "exec.inc"
#include "main.inc"
