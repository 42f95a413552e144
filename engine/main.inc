// redirection, instrumentation, exploration loop, results
static void redirect(const char*prefix){
  std::vector<Function*> fs; for(auto&f:*M) if(f.getName().starts_with(prefix)&&!f.isDeclaration()) fs.push_back(&f);
  for(auto*f:fs){ std::string n=f->getName().substr(strlen(prefix)).str(); Function*o=M->getFunction(n); if(!o||o==f) continue;
    std::vector<Use*> us; for(Use&u:o->uses()){ if(auto*I=dyn_cast<Instruction>(u.getUser())) if(I->getFunction()==f||I->getFunction()->getName().starts_with("nosx_")) continue; us.push_back(&u); }
    for(Use*u:us){ if(auto*c=dyn_cast<Constant>(u->getUser())){ if(!isa<GlobalValue>(c)){ c->handleOperandChange(o,f); continue; } } u->set(f); } } }
static void instrument(){
  FunctionCallee ev=M->getOrInsertFunction("symx_ev",Type::getVoidTy(CTX));
  for(auto&F:*M){ if(F.isDeclaration()) continue; StringRef n=F.getName(); if(n.starts_with("sx_")||n.starts_with("eo_")||n.starts_with("rt_")) continue;
    std::vector<Instruction*> v; for(auto&B:F) for(auto&I:B){ Value*p=0; if(auto*l=dyn_cast<LoadInst>(&I)) p=l->getPointerOperand(); else if(auto*s=dyn_cast<StoreInst>(&I)) p=s->getPointerOperand(); else if(isa<AtomicRMWInst>(I)||isa<AtomicCmpXchgInst>(I)) v.push_back(&I); else if(auto*c=dyn_cast<CallBase>(&I)){ if(auto*mi=dyn_cast<MemIntrinsic>(c)) v.push_back(&I); else if(c->getCalledFunction()){ StringRef q=c->getCalledFunction()->getName(); if(q=="memcpy"||q=="memmove"||q=="memset"||q=="memcmp"||q=="bcmp") v.push_back(&I); } }
      if(p){ Value*b=p->stripInBoundsOffsets(); if(auto*a=dyn_cast<AllocaInst>(b)){ bool esc=false; for(User*u:a->users()) if(!isa<LoadInst>(u)&&!(isa<StoreInst>(u)&&cast<StoreInst>(u)->getPointerOperand()==a)) esc=true; if(!esc) continue; } if(auto*g=dyn_cast<GlobalVariable>(b)) if(g->isConstant()) continue; v.push_back(&I); } }
    for(auto*I:v){ auto*c=CallInst::Create(ev,"",I); if(I->getDebugLoc()) c->setDebugLoc(I->getDebugLoc()); } } }

static std::string jesc(const std::string&s){ std::string r="\""; for(unsigned char c:s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if(c=='\n') r+="\\n"; else if(c<32||c>126){ char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; } else r+=c; } return r+"\""; }
static std::string jarr(const std::vector<std::string>&v){ std::string r="["; for(size_t i=0;i<v.size();i++){ if(i) r+=","; r+=jesc(v[i]); } return r+"]"; }
static std::string partFile(int pid){ return outPath+".part."+std::to_string(pid); }
static void writePart(){
  FILE*f=fopen(partFile(getpid()).c_str(),"w");
  fprintf(f,"{\"stats\":{\"paths\":%llu,\"completed\":%llu,\"assumed\":%llu,\"pruned\":%llu,\"errors\":%llu,\"incomplete\":%llu,\"forks\":%llu,\"insts\":%llu,\"states\":%llu,\"transitions\":%llu,\"asserts\":%llu,\"assert_queries\":%llu,\"mem_queries\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cachehits\":%llu,\"solver_time\":%.3f},",
   (unsigned long long)ST.paths,(unsigned long long)ST.completed,(unsigned long long)ST.assumed,(unsigned long long)ST.pruned,(unsigned long long)ST.errors,(unsigned long long)ST.incomplete,(unsigned long long)ST.forks,(unsigned long long)ST.insts,(unsigned long long)ST.states,(unsigned long long)ST.trans,(unsigned long long)ST.asserts,(unsigned long long)ST.assertQ,(unsigned long long)ST.memq,(unsigned long long)SV.st.queries,(unsigned long long)SV.st.sat,(unsigned long long)SV.st.unsat,(unsigned long long)SV.st.unknown,(unsigned long long)SV.st.cachehit,SV.st.time);
  fprintf(f,"\"reach\":{"); bool c=false; for(auto&r:reachCnt){ fprintf(f,"%s%s:%llu",c?",":"",jesc(r.first).c_str(),(unsigned long long)r.second); c=true; }
  fprintf(f,"},\"newshared\":%d,\"shared\":[",newShared?1:0); c=false; for(u64 x:sharedWords){ fprintf(f,"%s%llu",c?",":"",(unsigned long long)x); c=true; }
  fprintf(f,"],\"incomplete\":["); c=false; for(auto&s:incompleteWhy){ fprintf(f,"%s%s",c?",":"",jesc(s).c_str()); c=true; }
  fprintf(f,"],\"violations\":["); c=false; for(auto&v:viols){ fprintf(f,"%s{\"kind\":%s,\"msg\":%s,\"loc\":%s,\"stack\":%s,\"in\":%s,\"sched\":%s,\"obs\":%s}",c?",":"",jesc(v.kind).c_str(),jesc(v.msg).c_str(),jesc(v.loc).c_str(),jesc(v.stack).c_str(),jarr(v.in).c_str(),jesc(v.sched).c_str(),jarr(v.obs).c_str()); c=true; }
  fprintf(f,"],\"samples\":["); c=false; for(auto&v:samples){ fprintf(f,"%s{\"in\":%s,\"sched\":%s,\"obs\":%s}",c?",":"",jarr(v.in).c_str(),jesc(v.sched).c_str(),jarr(v.obs).c_str()); c=true; }
  fprintf(f,"],\"functions\":["); c=false; for(auto*fi:faddr) if(fi->executed&&!fi->rt){ std::string file; if(auto*sp=fi->F->getSubprogram()){ file=sp->getFilename().str(); if(file.size()&&file[0]!='/') file=sp->getDirectory().str()+"/"+file; } if(file.find("/repo/")!=std::string::npos){ fprintf(f,"%s%s",c?",":"",jesc(file.substr(file.find("/repo/")+6)+": "+demangle(fi->name)).c_str()); c=true; } }
  fprintf(f,"]}\n"); fclose(f); }

static void finish(State&S,int why){
  ST.paths++; __atomic_add_fetch(&SH->paths,1,__ATOMIC_RELAXED);
  switch(why){ case 0: ST.completed++; for(auto&r:S.reach) reachCnt[r]++;
      sampleSeen++; { Sample sm; bool take=false; size_t slot=0; if((int)samples.size()<sampleMax){ take=true; slot=samples.size(); samples.emplace_back(); } else { rngs=rngs*6364136223846793005ull+1442695040888963407ull; u64 k=(rngs>>33)%sampleSeen; if(k<(u64)sampleMax){ take=true; slot=k; } } if(take){ samples[slot].in=inputsOf(S,S.model); samples[slot].sched=schedOf(S); samples[slot].obs=obsOf(S,S.model); } } break;
    case 1: ST.assumed++; break; case 2: for(auto&r:S.reach) reachCnt[r]++; break; case 3: ST.incomplete++; break; case 4: ST.pruned++; for(auto&r:S.reach) reachCnt[r]++; break; default: break; } }
static void childFork();
static void explore(){
  u64 cnt=0;
  while(!work.empty()){
    if(SH->stop) break;
    State*S=work.back(); work.pop_back(); int why=0;
    try { for(;;){ step(*S); if((++cnt&0x3fff)==0){ if(SH->stop) throw Term{5}; if(now()-tstart>tlimit){ incompleteWhy.insert("time limit"); SH->stop=1; throw Term{3}; } }
        if(S->steps>maxSteps) { if(stepsViolation) err(*S,"nontermination","no termination within "+std::to_string(maxSteps)+" instructions"); incomplete(*S,"step limit"); } } } catch(Term&t){ why=t.why; }
    finish(*S,why); delete S;
    if(J>1&&work.size()>=2) childFork();
    if((ST.paths&0xff)==0&&SH->paths>maxPaths){ incompleteWhy.insert("path limit"); SH->stop=1; }
    if(EP.nextid>25000000u) { incompleteWhy.insert("expression pool limit"); SH->stop=1; }
  } }
static void childFork(){ char t; if(read(jobpipe[0],&t,1)!=1) return;
  __atomic_add_fetch(&SH->active,1,__ATOMIC_SEQ_CST);
  fflush(stdout); fflush(stderr); pid_t p=fork(); if(p<0){ __atomic_sub_fetch(&SH->active,1,__ATOMIC_SEQ_CST); return; }
  std::vector<State*> keep; bool child=p==0;
  // split: alternate states
  for(size_t i=0;i<work.size();i++){ if(((i&1)==0)==child) keep.push_back(work[i]); else delete work[i]; }
  work.swap(keep);
  if(child){ ST=Stats(); SV.st=SolverStats(); reachCnt.clear(); viols.clear(); samples.clear(); sampleSeen=0; incompleteWhy.clear(); rngs=getpid()*2654435761u+7; 
    signal(SIGCHLD,SIG_IGN);
    explore(); writePart(); if(write(jobpipe[1],"x",1)!=1){} __atomic_sub_fetch(&SH->active,1,__ATOMIC_SEQ_CST); _exit(0); } }

int main(int argc,char**argv){
  std::string bc,entry="harness",emit; bool instr=false; std::string sharedIn;
  for(int i=1;i<argc;i++){ std::string a=argv[i]; auto nx=[&]{ return std::string(argv[++i]); };
    if(a=="-o") outPath=nx(); else if(a=="-entry") entry=nx(); else if(a=="-j") J=atoi(nx().c_str()); else if(a=="-time") tlimit=atof(nx().c_str()); else if(a=="-maxsteps") maxSteps=strtoull(nx().c_str(),0,10); else if(a=="-emit") emit=nx(); else if(a=="-instrument") instr=true; else if(a=="-dedupe") dedupe=true; else if(a=="-pb") preemptBound=atoi(nx().c_str()); else if(a=="-D"){ std::string d=nx(); size_t e=d.find('='); params[d.substr(0,e)]=strtoll(d.c_str()+e+1,0,0); } else if(a=="-solver-timeout") solverTO=atoi(nx().c_str()); else if(a=="-maxviol") maxViol=atoi(nx().c_str()); else if(a=="-samples") sampleMax=atoi(nx().c_str()); else if(a=="-steps-incomplete") stepsViolation=0; else if(a=="-shared") sharedIn=nx(); else if(a=="-maxpaths") maxPaths=strtoull(nx().c_str(),0,10); else bc=a; }
  SMDiagnostic d; M=parseIRFile(bc,d,CTX); if(!M){ d.print("symx",errs()); return 3; }
  DL=&M->getDataLayout();
  redirect("sx_"); if(instr) instrument();
  if(!emit.empty()){ for(auto&F:*M) if(!F.isDeclaration()) F.addFnAttr(Attribute::SanitizeAddress); std::error_code ec; raw_fd_ostream os(emit,ec); WriteBitcodeToFile(*M,os); }
  if(outPath.empty()){ fflush(0); _exit(0); }
  redirect("eo_");
  SH=(Shared*)mmap(0,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  if(dedupe){ VTN=(1ull<<26)-5; VT=(u64*)mmap(0,VTN*8,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); }
  if(!sharedIn.empty()){ FILE*f=fopen(sharedIn.c_str(),"r"); if(f){ unsigned long long x; while(fscanf(f,"%llu",&x)==1) sharedWords.insert(x); fclose(f); } }
  if(pipe(jobpipe)) return 3; fcntl(jobpipe[0],F_SETFL,O_NONBLOCK); for(int i=1;i<J;i++) if(write(jobpipe[1],"x",1)!=1) return 3;
  tstart=now(); SV.init(solverTO);
  State*S=new State; initGlobals(*S); for(auto&g:gaddr) gnames[g.second]=g.first->getName().str();
  S->th.emplace_back(); S->th[0].heapnext=((u64)R_HEAP<<40)+64; S->th[0].stacknext=((u64)R_STACK<<40)+64; S->preempt=preemptBound; if(params.count("idle")) S->idleLimit=params["idle"];
  // driver frame: run constructors, then the entry
  { Function*E=M->getFunction(entry); if(!E||E->isDeclaration()){ fprintf(stderr,"no entry %s\n",entry.c_str()); return 3; }
    Function*D=Function::Create(FunctionType::get(Type::getVoidTy(CTX),false),Function::InternalLinkage,"rt_start",*M); BasicBlock*B=BasicBlock::Create(CTX,"",D);
    std::vector<std::pair<u64,Function*>> ct; if(auto*g=M->getNamedGlobal("llvm.global_ctors")) if(g->hasInitializer()) if(auto*ca=dyn_cast<ConstantArray>(g->getInitializer())) for(auto&o:ca->operands()){ auto*cs=cast<ConstantStruct>(o.get()); if(auto*f=dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ct.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(),f}); }
    std::stable_sort(ct.begin(),ct.end(),[](auto&a,auto&b){ return a.first<b.first; });
    for(auto&c:ct) CallInst::Create(c.second->getFunctionType(),c.second,{}, "",B);
    CallInst::Create(E->getFunctionType(),E,{}, "",B); ReturnInst::Create(CTX,B);
    enter(*S,S->th[0],finfo(D),{},0); }
  work.push_back(S); __atomic_add_fetch(&SH->active,1,__ATOMIC_SEQ_CST);
  signal(SIGCHLD,SIG_IGN);
  explore(); writePart(); __atomic_sub_fetch(&SH->active,1,__ATOMIC_SEQ_CST);
  if(write(jobpipe[1],"x",1)!=1){}
  double g=now(); int last=-1; while(SH->active>0){ usleep(20000); if(now()-tstart>tlimit+60) { fprintf(stderr,"[symx] children stuck\n"); return 3; } (void)g;(void)last; }
  FILE*f=fopen((outPath+".meta").c_str(),"w"); fprintf(f,"{\"stop\":%d,\"wall\":%.3f,\"visited\":%llu}\n",SH->stop,now()-tstart,(unsigned long long)SH->vt_used); fclose(f);
  fflush(0); _exit(0); }
