// Native replay runtime: feeds a solver model (inputs, choices, schedule) to the real code.
#include "symx.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include <map>
#include <pthread.h>
#include <signal.h>
#include <unistd.h>
#include <exception>
static std::vector<std::pair<std::string,uint64_t>> IN; static size_t ip=0; static std::map<std::string,int64_t> PM; static std::vector<std::pair<int,uint64_t>> SC; static size_t sp=0;
static std::vector<uint64_t> OBS;
static pthread_mutex_t MU=PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t CV=PTHREAD_COND_INITIALIZER; static int token=0; static int nthr=1; static uint64_t EV[64]; static thread_local int me=0; static uint64_t tailSleeps=0;
extern "C" int __lsan_is_turned_off(){ return 1; }
extern "C" const char *__asan_default_options(){ return "detect_leaks=0:exitcode=74:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:max_malloc_fill_size=1000000:malloc_fill_byte=190"; }
static void fin(int rc){ for(uint64_t v:OBS) printf("OBS 0x%llx\n",(unsigned long long)v); printf("EXIT %d\n",rc); fflush(stdout); _exit(rc); }
static void viol(const char*m){ printf("SYMX-VIOLATION %s\n",m); fin(70); }
static uint64_t next(const char*n){ if(ip>=IN.size()) return 0; if(IN[ip].first!=n){ printf("DIVERGED input %zu: want %s have %s\n",ip,n,IN[ip].first.c_str()); fin(77); } return IN[ip++].second; }
extern "C" {
uint64_t symx_sym(const char*n,int b){ uint64_t v=next(n); return b<64? v&((1ull<<b)-1):v; }
void symx_bytes(void*p,size_t n,const char*nm){ for(size_t i=0;i<n;i++) ((uint8_t*)p)[i]=(uint8_t)next(nm); }
void symx_assume(int c){ if(!c){ printf("ASSUME-FAILED\n"); fin(71); } }
void symx_assert(int c,const char*m){ if(!c) viol(m); }
void symx_observe(uint64_t v){ OBS.push_back(v); }
void symx_reach(const char*){ }
uint64_t symx_choice(uint64_t n,const char*nm){ uint64_t v=next(nm); if(v>=n) v=n-1; return v; }
uint64_t symx_concretize(uint64_t v){ return v; }
int64_t symx_param(const char*n,int64_t d){ auto it=PM.find(n); return it==PM.end()?d:it->second; }
int symx_tid(void){ return me; }
static void waitToken(){ pthread_mutex_lock(&MU); while(token!=me) pthread_cond_wait(&CV,&MU); pthread_mutex_unlock(&MU); }
static bool maybeSwitch(bool mustLeave){ if(nthr==1) return false; // returns true if switched
  if(sp+1<SC.size()&&SC[sp].first==me&&SC[sp].second==EV[me]){ sp++; int to=SC[sp].first; pthread_mutex_lock(&MU); token=to; pthread_cond_broadcast(&CV); if(!mustLeave) while(token!=me) pthread_cond_wait(&CV,&MU); pthread_mutex_unlock(&MU); return true; }
  if(sp<SC.size()&&SC[sp].first!=me){ printf("DIVERGED schedule at %zu: thread %d runs, schedule wants %d\n",sp,me,SC[sp].first); fin(77); }
  return false; }
void symx_ev(void){ EV[me]++; maybeSwitch(false); }
void symx_point(void){ EV[me]++; maybeSwitch(false); }
void symx_yield(void){ EV[me]++; maybeSwitch(false); }
void symx_sleep(void){ EV[me]++; if(!maybeSwitch(false)){ if(sp+1>=SC.size()&&++tailSleeps>5000) viol("stuck: no progress"); } }
void symx_block_while(volatile int*p,int v){ if(*p!=v) return; EV[me]++; if(!maybeSwitch(false)) viol("deadlock: thread blocked for ever"); }
int symx_block_while_timed(volatile int*p,int v){ if(*p!=v) return 0; EV[me]++; maybeSwitch(false); return *p==v; }
struct TA{ void(*fn)(void*); void*a; int id; };
static void*tramp(void*x){ TA*t=(TA*)x; me=t->id; waitToken(); t->fn(t->a); EV[me]++; if(!maybeSwitch(true)){ viol("deadlock: last runnable thread finished"); } return 0; }
int symx_thread_create(void(*fn)(void*),void*a){ if(nthr==1) EV[me]=0; TA*t=new TA{fn,a,nthr++}; pthread_t th; pthread_create(&th,0,tramp,t); return t->id; }
void symx_sched(int){ } void symx_atomic(int){ }
void symx_fail(const char*m){ viol(m); }
void symx_hash_ignore(const void*,size_t){ }
void symx_note(const char*m,uint64_t v){ if(getenv("SYMX_NOTES")) printf("NOTE %s %llu\n",m,(unsigned long long)v); }
size_t symx_objsize(const void*){ return 0; }
int symx_is_native(void){ return 1; }
int symx_valid(const void*,size_t){ return 1; }
int symx_is_symbolic(uint64_t){ return 0; }
void symx_dump(const void*,size_t){ }
int symx_fmtdbl(char*p,size_t n,const char*f,uint64_t b){ double d; memcpy(&d,&b,8); return snprintf(p,n,f,d); }
}
static void onsig(int s){ if(s==SIGALRM) printf("SYMX-VIOLATION hang: replay did not terminate\n"); else printf("SYMX-VIOLATION signal %d\n",s); fin(72); }
static void onterm(){ printf("SYMX-VIOLATION std::terminate (uncaught exception)\n"); fin(73); }
static void load(const char*f){ FILE*fp=fopen(f,"r"); if(!fp){ printf("no input\n"); fin(78); } static char line[1<<22]; while(fgets(line,sizeof line,fp)){ char*nl=strchr(line,'\n'); if(nl)*nl=0; char nm[256]; unsigned long long v; unsigned w; if(sscanf(line,"in %u %llx %255s",&w,&v,nm)==3) IN.push_back({nm,v}); else if(sscanf(line,"param %255s %lld",nm,(long long*)&v)==2) PM[nm]=v; else if(!strncmp(line,"sched ",6)){ char*p=line+6; while(*p){ int t; unsigned long long e; int n=0; if(sscanf(p,"%d:%llu %n",&t,&e,&n)<2) break; SC.push_back({t,e}); p+=n; } } } fclose(fp); }
#ifndef SYMX_ENTRY
#define SYMX_ENTRY harness
#endif
extern "C" void SYMX_ENTRY();
int main(){ const char*f=getenv("SYMX_REPLAY"); if(f) load(f); std::set_terminate(onterm); struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=onsig; sigaction(SIGALRM,&sa,0); sigaction(SIGILL,&sa,0); sigaction(SIGTRAP,&sa,0); sigaction(SIGABRT,&sa,0); alarm(30); SYMX_ENTRY(); fin(0); }
