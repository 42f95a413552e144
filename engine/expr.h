// Hash-consed bit-vector expressions, simplifier, evaluation and z3 back end.
#pragma once
#include <stdint.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <vector>
#include <string>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <memory>
#include <algorithm>
#include <chrono>
#include <z3.h>

typedef unsigned __int128 u128;
typedef __int128 s128;
typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8; typedef int64_t s64;

enum EOp : u8 { E_CONST, E_VAR, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR,
  E_SHL, E_LSHR, E_ASHR, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_ITE, E_CONCAT, E_EXTRACT, E_ZEXT, E_SEXT };

struct Expr {
  EOp op; u16 w; u16 lo; u32 id;   // lo: extract offset / var index lives in c
  u64 hash; u128 c;
  const Expr *a, *b, *k;
  const std::vector<u32> *vars;    // sorted variable ids (shared)
  mutable u32 stamp; mutable u128 ev;
  mutable Z3_ast zbv, zbool;
};
typedef const Expr *Ex;

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline s128 sextw(u128 v, unsigned w) { if (w >= 128) return (s128)v; u128 m = (u128)1 << (w-1); v &= maskw(w); return (s128)((v ^ m) - m); }
static inline u64 mix64(u64 x){ x ^= x>>33; x*=0xff51afd7ed558ccdULL; x^=x>>33; x*=0xc4ceb9fe1a85ec53ULL; x^=x>>33; return x; }
static inline u64 hcomb(u64 a,u64 b){ return mix64(a*0x9E3779B97F4A7C15ULL + b + 0x1234567); }

struct VarInfo { std::string name; unsigned w; Ex e; };

struct ExprPool {
  struct H { size_t operator()(Ex e) const { return e->hash; } };
  struct Q { bool operator()(Ex x, Ex y) const { return x->op==y->op && x->w==y->w && x->lo==y->lo && x->c==y->c && x->a==y->a && x->b==y->b && x->k==y->k; } };
  std::unordered_set<Ex,H,Q> tab;
  std::vector<Expr*> chunks; size_t used=0, cap=0; u32 nextid=1; u32 stamp=1;
  std::vector<VarInfo> vars; std::map<std::pair<std::string,unsigned>,Ex> varmap;
  std::vector<u32> novars;
  std::map<std::vector<u32>, const std::vector<u32>*> varsets;
  Expr *alloc(){ if(used==cap){ cap=4096; used=0; chunks.push_back((Expr*)calloc(cap,sizeof(Expr))); } return &chunks.back()[used++]; }
  const std::vector<u32>* un(const std::vector<u32>*x,const std::vector<u32>*y){
    if(x==y||y->empty()) return x; if(x->empty()) return y;
    std::vector<u32> r; r.reserve(x->size()+y->size()); std::set_union(x->begin(),x->end(),y->begin(),y->end(),std::back_inserter(r));
    if(r.size()==x->size()) return x; if(r.size()==y->size()) return y;
    auto it=varsets.find(r); if(it!=varsets.end()) return it->second;
    auto p=new std::vector<u32>(r); varsets[r]=p; return p; }
  Ex get(EOp op,unsigned w,Ex a=0,Ex b=0,Ex k=0,unsigned lo=0,u128 c=0){
    Expr t; memset((void*)&t,0,sizeof t); t.op=op;t.w=w;t.lo=lo;t.a=a;t.b=b;t.k=k;t.c=c;
    u64 h=hcomb(op*131+w,lo); h=hcomb(h,(u64)c); h=hcomb(h,(u64)(c>>64));
    if(a)h=hcomb(h,a->hash); if(b)h=hcomb(h,b->hash+1); if(k)h=hcomb(h,k->hash+2); t.hash=h;
    auto it=tab.find(&t); if(it!=tab.end()) return *it;
    Expr*n=alloc(); *n=t; n->id=nextid++;
    const std::vector<u32>*v=&novars;
    if(op==E_VAR){ v=new std::vector<u32>(1,(u32)c); }
    else { if(a)v=a->vars; if(b)v=un(v,b->vars); if(k)v=un(v,k->vars); }
    n->vars=v; tab.insert(n); return n; }
};
extern ExprPool EP;

static inline Ex mkc(u128 c,unsigned w){ return EP.get(E_CONST,w,0,0,0,0,c&maskw(w)); }
static inline bool isc(Ex e){ return e->op==E_CONST; }
static inline bool iscv(Ex e,u128 v){ return e->op==E_CONST && e->c==(v&maskw(e->w)); }
static inline Ex mkTrue(){ static Ex t=mkc(1,1); return t; }
static inline Ex mkFalse(){ static Ex t=mkc(0,1); return t; }
Ex mkVar(const std::string&name,unsigned w);
Ex mkBin(EOp op,Ex a,Ex b);
Ex mkExtract(Ex e,unsigned lo,unsigned w);
Ex mkConcat(Ex hi,Ex lo);
Ex mkZExt(Ex e,unsigned w);
Ex mkSExt(Ex e,unsigned w);
Ex mkIte(Ex c,Ex a,Ex b);
static inline Ex mkNot(Ex e){ return mkBin(E_XOR,e,mkc(1,1)); }
static inline Ex mkEq(Ex a,Ex b){ return mkBin(E_EQ,a,b); }
static inline Ex mkAnd(Ex a,Ex b){ return mkBin(E_AND,a,b); }
static inline Ex mkOr(Ex a,Ex b){ return mkBin(E_OR,a,b); }
std::string exprStr(Ex e,int depth=6);

u128 foldBin(EOp op,u128 a,u128 b,unsigned w);

// A model maps var id -> value (missing = 0)
typedef std::vector<u64> Model; // vars are <=64 bits
u128 evalExpr(Ex e,const Model&m);

struct SolverStats { u64 queries=0,sat=0,unsat=0,unknown=0,cachehit=0,modelhit=0,ext=0; double time=0; };
struct Solver {
  Z3_context ctx; Z3_solver s; SolverStats st; unsigned timeout_ms, curTO=0;
  struct CE { int r; std::vector<std::pair<u32,u64>> m; };
  std::unordered_map<u64,CE> cache;
  void init(unsigned to);
  Z3_ast bv(Ex e); Z3_ast bo(Ex e);
  // 1 sat, 0 unsat, -1 unknown. Model for the variables of the slice is written to `out` (on top of base).
  int check(const std::vector<Ex>&pc, Ex cond, const Model&base, Model&out);
};
extern Solver SV;
