// Harness interface, implemented by the symbolic executor and by the native replay runtime.
#ifndef SYMX_H
#define SYMX_H
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
uint64_t symx_sym(const char *name, int bits);           // fresh symbolic value
void     symx_bytes(void *p, size_t n, const char *name);// fresh symbolic bytes
void     symx_assume(int c);
void     symx_assert(int c, const char *msg);
void     symx_observe(uint64_t v);
void     symx_reach(const char *tag);                    // reachability witness
uint64_t symx_choice(uint64_t n, const char *name);      // 0..n-1, explored exhaustively
uint64_t symx_concretize(uint64_t v);
int64_t  symx_param(const char *name, int64_t dflt);
int      symx_tid(void);
int      symx_thread_create(void (*fn)(void*), void *arg);
void     symx_block_while(volatile int *p, int v);
int      symx_block_while_timed(volatile int *p, int v);
void     symx_sleep(void);
void     symx_yield(void);
void     symx_point(void);
void     symx_sched(int mode);
void     symx_atomic(int on);
void     symx_fail(const char *msg);
void     symx_hash_ignore(const void *p, size_t n);
void     symx_note(const char *msg, uint64_t v);
size_t   symx_objsize(const void *p);
int      symx_is_native(void);
int      symx_valid(const void *p, size_t n);
int      symx_is_symbolic(uint64_t v);
void     symx_dump(const void *p, size_t n);
int      symx_fmtdbl(char *p, size_t n, const char *fmt, uint64_t bits); // text of a concrete double (for stubs)
void     harness(void);
#ifdef __cplusplus
}
static inline uint64_t sym64(const char *n){ return symx_sym(n,64); }
static inline uint32_t sym32(const char *n){ return (uint32_t)symx_sym(n,32); }
static inline uint16_t sym16(const char *n){ return (uint16_t)symx_sym(n,16); }
static inline uint8_t  sym8(const char *n){ return (uint8_t)symx_sym(n,8); }
// symbolic value in [lo,hi]
static inline uint64_t symrange(const char *n,uint64_t lo,uint64_t hi){ uint64_t v=symx_sym(n,64); symx_assume(v>=lo); symx_assume(v<=hi); return v; }
static inline unsigned choice(unsigned n,const char*nm){ return (unsigned)symx_choice(n,nm); }
#define CHECK(c,msg) symx_assert((c)?1:0,msg)
#endif
#endif
