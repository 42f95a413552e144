// POSIX thread/time models shared by the executor and native replay.
#include "symx.h"
#include <pthread.h>
#include <errno.h>
#include <string.h>
#include <time.h>
#include <sys/time.h>
#include <unistd.h>
#include <sched.h>
extern "C" {
struct MX { int locked; int owner; int magic; };
struct CD { int slot[10]; };
struct TR { int used; int done; void*ret; void*(*fn)(void*); void*arg; int tid; int detached; };
static TR rt_threads[16]; static int rt_nthreads; static TR*rt_self[32];
static void*rt_keyval[16][32]; static void(*rt_keydtor[16])(void*); static int rt_nkeys;
uint64_t rt_now_ns=1000000000ull*1000; int rt_time_steps=1; uint64_t rt_sleeps;
// harness hook: called on every lock operation (may be overridden)
__attribute__((weak)) void rt_on_sleep(uint64_t us){ }
int sx_pthread_mutex_init(pthread_mutex_t*m,const pthread_mutexattr_t*){ MX*x=(MX*)m; x->locked=0; x->owner=0; return 0; }
int sx_pthread_mutex_destroy(pthread_mutex_t*m){ if(((MX*)m)->locked) symx_fail("destroying a locked mutex"); return 0; }
int sx_pthread_mutex_lock(pthread_mutex_t*m){ MX*x=(MX*)m; symx_point(); while(x->locked) symx_block_while(&x->locked,1); x->locked=1; x->owner=symx_tid()+1; return 0; }
int sx_pthread_mutex_trylock(pthread_mutex_t*m){ MX*x=(MX*)m; symx_point(); if(x->locked) return EBUSY; x->locked=1; x->owner=symx_tid()+1; return 0; }
int sx_pthread_mutex_unlock(pthread_mutex_t*m){ MX*x=(MX*)m; if(!x->locked||x->owner!=symx_tid()+1) symx_fail("unlock of a mutex that is not held by this thread"); x->owner=0; x->locked=0; return 0; }
int sx_pthread_mutexattr_init(pthread_mutexattr_t*){ return 0; } int sx_pthread_mutexattr_settype(pthread_mutexattr_t*,int){ return 0; } int sx_pthread_mutexattr_destroy(pthread_mutexattr_t*){ return 0; } int sx_pthread_mutexattr_setprotocol(pthread_mutexattr_t*,int){ return 0; }
int sx_pthread_cond_init(pthread_cond_t*c,const pthread_condattr_t*){ memset(c,0,sizeof(*c)); return 0; }
int sx_pthread_cond_destroy(pthread_cond_t*c){ CD*d=(CD*)c; for(int i=0;i<10;i++) if(d->slot[i]==1) symx_fail("destroying a condition variable with waiters"); return 0; }
static int rt_condwait(CD*d,pthread_mutex_t*m,int timed){ int k=0; while(k<10&&d->slot[k]) k++; if(k==10) symx_fail("too many waiters"); d->slot[k]=1; MX*x=(MX*)m; if(!x->locked||x->owner!=symx_tid()+1) symx_fail("cond_wait without holding the mutex"); x->owner=0; x->locked=0; int r=0; if(timed){ if(symx_block_while_timed(&d->slot[k],1)) r=ETIMEDOUT; } else symx_block_while(&d->slot[k],1); d->slot[k]=0; while(x->locked) symx_block_while(&x->locked,1); x->locked=1; x->owner=symx_tid()+1; return r; }
int sx_pthread_cond_wait(pthread_cond_t*c,pthread_mutex_t*m){ symx_point(); return rt_condwait((CD*)c,m,0); }
int sx_pthread_cond_timedwait(pthread_cond_t*c,pthread_mutex_t*m,const struct timespec*){ symx_point(); return rt_condwait((CD*)c,m,1); }
int sx_pthread_cond_signal(pthread_cond_t*c){ CD*d=(CD*)c; symx_point(); int n=0; for(int i=0;i<10;i++) n+=d->slot[i]==1; if(!n) return 0; int w=n>1?(int)symx_choice(n,"wake"):0; for(int i=0;i<10;i++) if(d->slot[i]==1){ if(!w--){ d->slot[i]=2; break; } } return 0; }
int sx_pthread_cond_broadcast(pthread_cond_t*c){ CD*d=(CD*)c; symx_point(); for(int i=0;i<10;i++) if(d->slot[i]==1) d->slot[i]=2; return 0; }
static void rt_keys_exit(void){ int t=symx_tid(); for(int r=0;r<2;r++) for(int k=0;k<rt_nkeys;k++) if(rt_keyval[k][t]&&rt_keydtor[k]){ void*v=rt_keyval[k][t]; rt_keyval[k][t]=0; rt_keydtor[k](v); } }
void rt_thread_exit_cleanup(void){ rt_keys_exit(); }
static void rt_tramp(void*a){ TR*t=(TR*)a; rt_self[symx_tid()]=t; t->ret=t->fn(t->arg); rt_keys_exit(); t->done=1; }
__attribute__((weak)) int rt_thread_create_fails(void){ return 0; }
int sx_pthread_create(pthread_t*p,const pthread_attr_t*,void*(*fn)(void*),void*arg){ if(rt_thread_create_fails()) return EAGAIN; int i=0; while(i<16&&rt_threads[i].used) i++; if(i==16) symx_fail("too many threads"); TR*t=&rt_threads[i]; t->used=1; t->done=0; t->fn=fn; t->arg=arg; *p=(pthread_t)(i+1); t->tid=symx_thread_create(rt_tramp,t); return 0; }
int sx_pthread_join(pthread_t p,void**r){ TR*t=&rt_threads[(size_t)p-1]; symx_point(); symx_block_while(&t->done,0); if(r) *r=t->ret; return 0; }
int sx_pthread_detach(pthread_t){ return 0; }
pthread_t sx_pthread_self(void){ TR*t=rt_self[symx_tid()]; return t?(pthread_t)(t-rt_threads+1):(pthread_t)1000; }
int sx_pthread_equal(pthread_t a,pthread_t b){ return a==b; }
int sx_pthread_key_create(pthread_key_t*k,void(*d)(void*)){ *k=rt_nkeys; rt_keydtor[rt_nkeys++]=d; return 0; }
int sx_pthread_key_delete(pthread_key_t){ return 0; }
void*sx_pthread_getspecific(pthread_key_t k){ return rt_keyval[k][symx_tid()]; }
int sx_pthread_setspecific(pthread_key_t k,const void*v){ rt_keyval[k][symx_tid()]=(void*)v; return 0; }
int sx_pthread_once(pthread_once_t*o,void(*f)(void)){ int*p=(int*)o; if(!*p){ *p=1; f(); } return 0; }
int sx_pthread_setname_np(pthread_t,const char*){ return 0; }
int sx_prctl(int,...){ return 0; }
__attribute__((weak)) int rt_usleep_mode=0;
int sx_usleep(useconds_t us){ rt_on_sleep(us); symx_sleep(); if(rt_time_steps) rt_now_ns+=(uint64_t)us*1000; return 0; }
int sx_nanosleep(const struct timespec*t,struct timespec*){ rt_on_sleep(t->tv_nsec/1000); symx_sleep(); if(rt_time_steps) rt_now_ns+=(uint64_t)t->tv_sec*1000000000ull+t->tv_nsec; return 0; }
unsigned sx_sleep(unsigned s){ symx_sleep(); if(rt_time_steps) rt_now_ns+=(uint64_t)s*1000000000ull; return 0; }
int sx_gettimeofday(struct timeval*tv,void*){ tv->tv_sec=rt_now_ns/1000000000ull; tv->tv_usec=(rt_now_ns%1000000000ull)/1000; return 0; }
__attribute__((weak)) int sx_clock_gettime(clockid_t,struct timespec*ts){ ts->tv_sec=rt_now_ns/1000000000ull; ts->tv_nsec=rt_now_ns%1000000000ull; return 0; }
int sx_sched_yield(void){ symx_yield(); return 0; }
cpu_set_t*eo___sched_cpualloc(size_t n){ return (cpu_set_t*)__builtin_malloc((n+63)/64*8); } void eo___sched_cpufree(cpu_set_t*p){ __builtin_free(p); }
long sx_sysconf(int){ return 4096; }
}
