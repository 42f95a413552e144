#include "expr.h"
#include <unistd.h>
ExprPool EP; Solver SV;

Ex mkVar(const std::string&name,unsigned w){
  auto key=std::make_pair(name,w); auto it=EP.varmap.find(key); if(it!=EP.varmap.end()) return it->second;
  u32 id=EP.vars.size(); Ex e=EP.get(E_VAR,w,0,0,0,0,id); EP.vars.push_back(VarInfo{name,w,e});
   EP.varmap[key]=e; return e; }

u128 foldBin(EOp op,u128 a,u128 b,unsigned w){
  u128 m=maskw(w);
  switch(op){
  case E_ADD: return (a+b)&m; case E_SUB: return (a-b)&m; case E_MUL: return (a*b)&m;
  case E_UDIV: return b? (a/b)&m : m; case E_UREM: return b? a%b : a;
  case E_SDIV: { s128 x=sextw(a,w),y=sextw(b,w); if(!y) return x<0?1:m; if(y==-1) return ((u128)0-a)&m; return (u128)(x/y)&m; }
  case E_SREM: { s128 x=sextw(a,w),y=sextw(b,w); if(!y) return a; if(y==-1) return 0; return (u128)(x%y)&m; }
  case E_AND: return a&b; case E_OR: return a|b; case E_XOR: return a^b;
  case E_SHL: return b>=w?0:(a<<(unsigned)b)&m; case E_LSHR: return b>=w?0:a>>(unsigned)b;
  case E_ASHR: { s128 x=sextw(a,w); unsigned s=b>=w?w-1:(unsigned)b; return (u128)(x>>s)&m; }
  case E_EQ: return a==b; case E_ULT: return a<b; case E_ULE: return a<=b;
  case E_SLT: return sextw(a,w)<sextw(b,w); case E_SLE: return sextw(a,w)<=sextw(b,w);
  default: abort(); } }

static bool isCmp(EOp o){ return o>=E_EQ&&o<=E_SLE; }
static u128 umin(Ex e,int d=4); static u128 umax(Ex e,int d=4);
// upper bound on value (unsigned)
static bool urange(Ex e,u128&lo,u128&hi,int d);
static u128 umax(Ex e,int d){
  if(e->op==E_CONST) return e->c;
  if(d>0) switch(e->op){
    case E_ZEXT: return umax(e->a,d-1);
    case E_AND: { u128 x=umax(e->a,d-1),y=umax(e->b,d-1); return x<y?x:y; }
    case E_UREM: if(isc(e->b)&&e->b->c) return e->b->c-1; break;
    case E_LSHR: if(isc(e->b)&&e->b->c<e->w) return umax(e->a,d-1)>>(unsigned)e->b->c; break;
    case E_UDIV: if(isc(e->b)&&e->b->c) return umax(e->a,d-1)/e->b->c; break;
    case E_ITE: { u128 x=umax(e->a,d-1),y=umax(e->b,d-1); return x>y?x:y; }
    case E_ADD: case E_SUB: { u128 l,h; if(urange(e,l,h,d)) return h; break; }
    case E_OR: case E_XOR: { u128 x=umax(e->a,d-1)|umax(e->b,d-1); u128 r=0; while(r<x) r=(r<<1)|1; return r; }
    default: break; }
  return maskw(e->w); }

// value modulo 2^w lies in [lo,hi]
static void irange(Ex e,s128&lo,s128&hi,int d){
  if(e->op==E_CONST){ lo=e->w<=64?sextw(e->c,e->w):(s128)e->c; hi=lo; return; }
  if(d>0&&(e->op==E_ADD||e->op==E_SUB)){ s128 al,ah,bl,bh; irange(e->a,al,ah,d-1); irange(e->b,bl,bh,d-1); if(e->op==E_ADD){ lo=al+bl; hi=ah+bh; } else { lo=al-bh; hi=ah-bl; } return; }
  lo=(s128)umin(e,d-1); hi=(s128)umax(e,d-1); }
static bool urange(Ex e,u128&lo,u128&hi,int d){ if(e->w>64) return false; s128 l,h; irange(e,l,h,d); s128 M=(s128)1<<e->w; while(h<0){ l+=M; h+=M; } while(l>=M){ l-=M; h-=M; } if(l<0||h>=M) return false; lo=(u128)l; hi=(u128)h; return true; }
// lower bound on value (unsigned)
static u128 umin(Ex e,int d){
  if(e->op==E_CONST) return e->c;
  if(d>0) switch(e->op){
    case E_ZEXT: return umin(e->a,d-1);
    case E_ITE: { u128 x=umin(e->a,d-1),y=umin(e->b,d-1); return x<y?x:y; }
    case E_ADD: case E_SUB: { u128 l,h; if(urange(e,l,h,d)) return l; break; }
    case E_UDIV: if(isc(e->b)&&e->b->c) return umin(e->a,d-1)/e->b->c; break;
    case E_LSHR: if(isc(e->b)&&e->b->c<e->w) return umin(e->a,d-1)>>(unsigned)e->b->c; break;
    default: break; }
  return 0; }
static unsigned nbits(u128 v){ unsigned n=0; while(v){ n++; v>>=1; } return n; }

Ex mkIte(Ex c,Ex a,Ex b){
  if(isc(c)) return c->c?a:b;
  if(a==b) return a;
  if(a->w==1){ if(isc(a)&&isc(b)) return a->c?c:mkNot(c);
    if(isc(a)) return a->c? mkOr(c,b) : mkAnd(mkNot(c),b);
    if(isc(b)) return b->c? mkOr(mkNot(c),a) : mkAnd(c,a); }
  if(c->op==E_XOR&&iscv(c->b,1)) return mkIte(c->a,b,a);
  if(a->op==E_ITE&&a->k==c) a=a->a;
  if(b->op==E_ITE&&b->k==c) b=b->b;
  if(a==b) return a;
  return EP.get(E_ITE,a->w,a,b,c); }

Ex mkExtract(Ex e,unsigned lo,unsigned w){
  if(lo==0&&w==e->w) return e;
  switch(e->op){
  case E_CONST: return mkc(e->c>>lo,w);
  case E_EXTRACT: return mkExtract(e->a,e->lo+lo,w);
  case E_CONCAT: { unsigned bw=e->b->w; if(lo+w<=bw) return mkExtract(e->b,lo,w); if(lo>=bw) return mkExtract(e->a,lo-bw,w);
     return mkConcat(mkExtract(e->a,0,lo+w-bw),mkExtract(e->b,lo,bw-lo)); }
  case E_ZEXT: if(lo>=e->a->w) return mkc(0,w); if(lo+w<=e->a->w) return mkExtract(e->a,lo,w); return mkZExt(mkExtract(e->a,lo,e->a->w-lo),w);
  case E_SEXT: if(lo+w<=e->a->w) return mkExtract(e->a,lo,w); if(lo<e->a->w) return mkSExt(mkExtract(e->a,lo,e->a->w-lo),w); break;
  case E_AND: case E_OR: case E_XOR: if(isc(e->b)||isc(e->a)) return mkBin(e->op,mkExtract(e->a,lo,w),mkExtract(e->b,lo,w)); break;
  case E_ADD: case E_SUB: case E_MUL: if(lo==0 && (e->w>w)) return mkBin(e->op,mkExtract(e->a,0,w),mkExtract(e->b,0,w)); break;
  case E_ITE: if(isc(e->a)||isc(e->b)) return mkIte(e->k,mkExtract(e->a,lo,w),mkExtract(e->b,lo,w)); break;
  case E_SHL: if(isc(e->b)){ unsigned s=(unsigned)e->b->c; if(e->b->c<e->w){ if(lo>=s) return mkExtract(e->a,lo-s,w); if(lo+w<=s) return mkc(0,w);} } break;
  case E_LSHR: if(isc(e->b)&&e->b->c<e->w){ unsigned s=(unsigned)e->b->c; if(lo+s+w<=e->w) return mkExtract(e->a,lo+s,w); if(lo+s>=e->w) return mkc(0,w); return mkZExt(mkExtract(e->a,lo+s,e->w-lo-s),w);} break;
  default: break; }
  return EP.get(E_EXTRACT,w,e,0,0,lo); }

Ex mkConcat(Ex hi,Ex lo){
  unsigned w=hi->w+lo->w;
  if(isc(hi)&&isc(lo)) return mkc((hi->c<<lo->w)|lo->c,w);
  if(iscv(hi,0)) return mkZExt(lo,w);
  if(hi->op==E_EXTRACT&&lo->op==E_EXTRACT&&hi->a==lo->a&&hi->lo==lo->lo+lo->w) return mkExtract(lo->a,lo->lo,w);
  // concat(extract(x), concat(extract(x),y))
  if(lo->op==E_CONCAT&&hi->op==E_EXTRACT&&lo->a->op==E_EXTRACT&&hi->a==lo->a->a&&hi->lo==lo->a->lo+lo->a->w) return mkConcat(mkExtract(hi->a,lo->a->lo,hi->w+lo->a->w),lo->b);
  if(hi->op==E_ZEXT) return mkZExt(mkConcat(hi->a,lo),w);
  // hi is the extract just above a full low expr: concat(extract(x,k,..),extract/whole)
  if(hi->op==E_EXTRACT&&hi->a->w==w&&hi->lo==lo->w&&lo==mkExtract(hi->a,0,lo->w)) return hi->a;
  // constant low part absorbed
  if(lo->op==E_CONCAT&&isc(hi)&&isc(lo->a)) return mkConcat(mkc((hi->c<<lo->a->w)|lo->a->c,hi->w+lo->a->w),lo->b);
  return EP.get(E_CONCAT,w,hi,lo); }

Ex mkZExt(Ex e,unsigned w){
  if(e->w==w) return e; if(isc(e)) return mkc(e->c,w);
  if(e->op==E_ZEXT) return mkZExt(e->a,w);
  if(e->op==E_ITE&&isc(e->a)&&isc(e->b)) return mkIte(e->k,mkc(e->a->c,w),mkc(e->b->c,w));
  return EP.get(E_ZEXT,w,e); }
Ex mkSExt(Ex e,unsigned w){
  if(e->w==w) return e; if(isc(e)) return mkc((u128)sextw(e->c,e->w),w);
  if(e->op==E_SEXT) return mkSExt(e->a,w);
  if(e->op==E_ZEXT) return mkZExt(e->a,w);
  if(e->op==E_ITE&&isc(e->a)&&isc(e->b)) return mkIte(e->k,mkSExt(e->a,w),mkSExt(e->b,w));
  return EP.get(E_SEXT,w,e); }

static bool comm(EOp o){ return o==E_ADD||o==E_MUL||o==E_AND||o==E_OR||o==E_XOR||o==E_EQ; }

Ex mkBin(EOp op,Ex a,Ex b){
  unsigned w=a->w; unsigned rw=isCmp(op)?1:w;
  if(a->w!=b->w){ fprintf(stderr,"mkBin width mismatch op %d %u %u\n",op,a->w,b->w); abort(); }
  if(isc(a)&&isc(b)) return mkc(foldBin(op,a->c,b->c,w),rw);
  if(comm(op)&&(isc(a)||(!isc(b)&&a->id>b->id))) std::swap(a,b);
  bool bc=isc(b); u128 bv=bc?b->c:0; u128 m=maskw(w);
  switch(op){
  case E_ADD:
    if(bc&&!bv) return a;
    if(bc&&a->op==E_ADD&&isc(a->b)) return mkBin(E_ADD,a->a,mkc(a->b->c+bv,w));
    if(bc&&a->op==E_SUB&&isc(a->a)) return mkBin(E_SUB,mkc(a->a->c+bv,w),a->b);
    if(a->op==E_SUB&&a->b==b) return a->a;
    if(b->op==E_SUB&&b->b==a) return b->a;
    if(a->op==E_ADD&&isc(a->b)) return mkBin(E_ADD,mkBin(E_ADD,a->a,b),a->b);
    if(b->op==E_ADD&&isc(b->b)) return mkBin(E_ADD,mkBin(E_ADD,a,b->a),b->b);
    break;
  case E_SUB:
    if(bc) return mkBin(E_ADD,a,mkc((u128)0-bv,w));
    if(a==b) return mkc(0,w);
    if(a->op==E_ADD){ if(a->a==b) return a->b; if(a->b==b) return a->a; }
    if(a->op==E_ADD&&isc(a->b)) return mkBin(E_ADD,mkBin(E_SUB,a->a,b),a->b);
    if(b->op==E_ADD&&isc(b->b)) return mkBin(E_ADD,mkBin(E_SUB,a,b->a),mkc((u128)0-b->b->c,w));
    break;
  case E_MUL:
    if(bc){ if(!bv) return b; if(bv==1) return a;
      if((bv&(bv-1))==0){ unsigned s=0; while(!((bv>>s)&1)) s++; return mkBin(E_SHL,a,mkc(s,w)); }
      if(a->op==E_MUL&&isc(a->b)) return mkBin(E_MUL,a->a,mkc(a->b->c*bv,w)); }
    break;
  case E_UDIV: if(bc&&bv==1) return a; if(bc&&bv&&(bv&(bv-1))==0){ unsigned s=0; while(!((bv>>s)&1)) s++; return mkBin(E_LSHR,a,mkc(s,w)); }
    if(bc&&umax(a)<bv) return mkc(0,w);
    if(bc&&bv){ u128 hi=umax(a),lo=umin(a); if(lo/bv==hi/bv) return mkc(lo/bv,w); unsigned nb=nbits(hi); if(nb<nbits(bv)) nb=nbits(bv); if(w>=24&&nb<=w/2) return mkZExt(mkBin(E_UDIV,mkExtract(a,0,nb),mkc(bv,nb)),w); }
    if(bc&&a->op==E_ZEXT&&a->a->w>1&&(bv>>a->a->w)==0) return mkZExt(mkBin(E_UDIV,a->a,mkc(bv,a->a->w)),w);
    break;
  case E_UREM: if(bc&&bv&&(bv&(bv-1))==0) return mkBin(E_AND,a,mkc(bv-1,w)); if(bc&&umax(a)<bv) return a;
    if(bc&&bv){ u128 hi=umax(a),lo=umin(a); if(lo/bv==hi/bv) return mkBin(E_SUB,a,mkc(lo/bv*bv,w)); unsigned nb=nbits(hi); if(nb<nbits(bv)) nb=nbits(bv); if(w>=24&&nb<=w/2) return mkZExt(mkBin(E_UREM,mkExtract(a,0,nb),mkc(bv,nb)),w); }
    if(bc&&a->op==E_ZEXT&&a->a->w>1&&(bv>>a->a->w)==0) return mkZExt(mkBin(E_UREM,a->a,mkc(bv,a->a->w)),w);
    break;
  case E_SDIV: if(bc&&bv==1) return a; break;
  case E_AND:
    if(a==b) return a;
    if(bc){ if(!bv) return b; if(bv==m) return a;
      if(a->op==E_AND&&isc(a->b)) return mkBin(E_AND,a->a,mkc(a->b->c&bv,w));
      if(a->op==E_ZEXT){ unsigned iw=a->a->w; return mkZExt(mkBin(E_AND,a->a,mkc(bv,iw)),w); }
      if(w>1&&(bv&(bv+1))==0){ unsigned n=0; while((bv>>n)&1) n++; return mkZExt(mkExtract(a,0,n),w); }
      if(a->op==E_CONCAT){ unsigned lw=a->b->w; return mkConcat(mkBin(E_AND,a->a,mkc(bv>>lw,w-lw)),mkBin(E_AND,a->b,mkc(bv,lw))); }
    }
    if(w==1){ if(b->op==E_XOR&&iscv(b->b,1)&&b->a==a) return mkFalse(); if(a->op==E_XOR&&iscv(a->b,1)&&a->a==b) return mkFalse(); }
    break;
  case E_OR:
    if(a==b) return a;
    if(bc){ if(!bv) return a; if(bv==m) return b; if(a->op==E_OR&&isc(a->b)) return mkBin(E_OR,a->a,mkc(a->b->c|bv,w)); }
    // (zext x) | (y << k) -> concat
    for(int sw=0;sw<2;sw++){ Ex x=sw?b:a,y=sw?a:b;
      if(x->op==E_ZEXT&&y->op==E_SHL&&isc(y->b)&&y->b->c>=x->a->w&&y->b->c<w){ unsigned s=(unsigned)y->b->c; Ex hi=mkExtract(y->a,0,w-s); Ex lo=mkZExt(x->a,s); return mkConcat(hi,lo); }
      if(x->op==E_ZEXT&&y->op==E_CONCAT&&iscv(y->b,0)&&x->a->w<=y->b->w) return mkConcat(y->a,mkZExt(x->a,y->b->w)); }
    if(w==1){ if(b->op==E_XOR&&iscv(b->b,1)&&b->a==a) return mkTrue(); if(a->op==E_XOR&&iscv(a->b,1)&&a->a==b) return mkTrue(); }
    break;
  case E_XOR:
    if(a==b) return mkc(0,w); if(bc&&!bv) return a;
    if(bc&&a->op==E_XOR&&isc(a->b)) return mkBin(E_XOR,a->a,mkc(a->b->c^bv,w));
    if(w==1&&bc){ // not
      if(a->op==E_ULT) return mkBin(E_ULE,a->b,a->a); if(a->op==E_ULE) return mkBin(E_ULT,a->b,a->a);
      if(a->op==E_SLT) return mkBin(E_SLE,a->b,a->a); if(a->op==E_SLE) return mkBin(E_SLT,a->b,a->a); }
    break;
  case E_SHL: case E_LSHR: case E_ASHR:
    if(bc){ if(!bv) return a; if(bv>=w){ if(op!=E_ASHR) return mkc(0,w); return mkBin(E_ASHR,a,mkc(w-1,w)); }
      unsigned s=(unsigned)bv;
      if(op==E_LSHR) return mkZExt(mkExtract(a,s,w-s),w);
      if(op==E_SHL) return mkConcat(mkExtract(a,0,w-s),mkc(0,s));
      if(op==E_ASHR) return mkSExt(mkExtract(a,s,w-s),w); }
    if(isc(a)&&!a->c) return a;
    break;
  case E_EQ:
    if(a==b) return mkTrue();
    if(w==1&&bc) return bv? a : mkNot(a);
    if(bc){
      if(a->op==E_ZEXT){ if(bv>>a->a->w) return mkFalse(); return mkEq(a->a,mkc(bv,a->a->w)); }
      if(a->op==E_SEXT){ unsigned iw=a->a->w; if((u128)(sextw(bv,iw)&m)!=bv) return mkFalse(); return mkEq(a->a,mkc(bv,iw)); }
      if(a->op==E_ADD&&isc(a->b)) return mkEq(a->a,mkc(bv-a->b->c,w));
      if(a->op==E_SUB&&isc(a->a)) return mkEq(a->b,mkc(a->a->c-bv,w));
      if(a->op==E_XOR&&isc(a->b)) return mkEq(a->a,mkc(bv^a->b->c,w));
      if(a->op==E_ITE&&(isc(a->a)||isc(a->b))){ if(isc(a->a)&&isc(a->b)){ bool x=a->a->c==bv,y=a->b->c==bv; if(x&&y) return mkTrue(); if(x) return a->k; if(y) return mkNot(a->k); return mkFalse(); }
        return mkIte(a->k,mkEq(a->a,b),mkEq(a->b,b)); }
      if(a->op==E_CONCAT){ unsigned lw=a->b->w; return mkAnd(mkEq(a->a,mkc(bv>>lw,a->a->w)),mkEq(a->b,mkc(bv,lw))); }
      if(umax(a)<bv) return mkFalse();
    } else {
      if(a->op==E_ZEXT&&b->op==E_ZEXT&&a->a->w==b->a->w) return mkEq(a->a,b->a);
      if(a->op==E_CONCAT&&b->op==E_CONCAT&&a->a->w==b->a->w) return mkAnd(mkEq(a->a,b->a),mkEq(a->b,b->b));
      if(a->op==E_ADD&&b->op==E_ADD&&isc(a->b)&&isc(b->b)) return mkEq(mkBin(E_ADD,a->a,mkc(a->b->c-b->b->c,w)),b->a);
    }
    break;
  case E_ULT:
    if(a==b) return mkFalse(); if(bc&&!bv) return mkFalse(); if(isc(a)&&a->c==m) return mkFalse();
    if(bc&&bv==1) return mkEq(a,mkc(0,w));
    if(isc(a)&&a->c==0) return mkNot(mkEq(b,a));
    if(bc&&umax(a)<bv) return mkTrue();
    if(isc(a)&&umax(b)<=a->c) return mkFalse();
    if(bc&&a->op==E_ZEXT) return mkBin(E_ULT,a->a,mkc(bv,a->a->w));
    if(isc(a)&&b->op==E_ZEXT) return mkBin(E_ULT,mkc(a->c,b->a->w),b->a);
    if(a->op==E_ZEXT&&b->op==E_ZEXT&&a->a->w==b->a->w) return mkBin(E_ULT,a->a,b->a);
    if(bc&&a->op==E_ITE&&isc(a->a)&&isc(a->b)) return mkIte(a->k,mkBin(op,a->a,b),mkBin(op,a->b,b));
    break;
  case E_ULE:
    if(a==b) return mkTrue(); if(isc(a)&&!a->c) return mkTrue(); if(bc&&bv==m) return mkTrue();
    if(bc&&!bv) return mkEq(a,b);
    if(bc&&umax(a)<=bv) return mkTrue();
    if(isc(a)&&umax(b)<a->c) return mkFalse();
    if(bc&&a->op==E_ZEXT) return mkBin(E_ULE,a->a,mkc(bv,a->a->w));
    if(isc(a)&&b->op==E_ZEXT) return mkBin(E_ULE,mkc(a->c,b->a->w),b->a);
    if(a->op==E_ZEXT&&b->op==E_ZEXT&&a->a->w==b->a->w) return mkBin(E_ULE,a->a,b->a);
    if(bc&&a->op==E_ITE&&isc(a->a)&&isc(a->b)) return mkIte(a->k,mkBin(op,a->a,b),mkBin(op,a->b,b));
    break;
  case E_SLT: case E_SLE:
    if(a==b) return op==E_SLE?mkTrue():mkFalse();
    if(w>1){ u128 half=(u128)1<<(w-1);
      bool an=umax(a)<half, bn=umax(b)<half;
      if(an&&bn) return mkBin(op==E_SLT?E_ULT:E_ULE,a,b);
      if(an&&bc&&bv>=half) return mkFalse();          // nonneg < negative
      if(bn&&isc(a)&&a->c>=half) return mkTrue();
      if(a->op==E_SEXT&&b->op==E_SEXT&&a->a->w==b->a->w) return mkBin(op,a->a,b->a);
      if(a->op==E_SEXT&&bc&&(u128)(sextw(bv,a->a->w)&m)==bv) return mkBin(op,a->a,mkc(bv,a->a->w));
      if(b->op==E_SEXT&&isc(a)&&(u128)(sextw(a->c,b->a->w)&m)==a->c) return mkBin(op,mkc(a->c,b->a->w),b->a);
      if(bc&&a->op==E_ITE&&isc(a->a)&&isc(a->b)) return mkIte(a->k,mkBin(op,a->a,b),mkBin(op,a->b,b));
    }
    break;
  default: break; }
  return EP.get(op,rw,a,b); }

static u128 ev(Ex e,const Model&m){
  if(e->op==E_CONST) return e->c;
  if(e->stamp==EP.stamp) return e->ev;
  u128 r;
  switch(e->op){
  case E_VAR: r= (u64)e->c<m.size()? m[(u64)e->c]:0; r&=maskw(e->w); break;
  case E_ITE: r= ev(e->k,m)? ev(e->a,m):ev(e->b,m); break;
  case E_CONCAT: r=(ev(e->a,m)<<e->b->w)|ev(e->b,m); break;
  case E_EXTRACT: r=(ev(e->a,m)>>e->lo)&maskw(e->w); break;
  case E_ZEXT: r=ev(e->a,m); break;
  case E_SEXT: r=(u128)sextw(ev(e->a,m),e->a->w)&maskw(e->w); break;
  default: r=foldBin(e->op,ev(e->a,m),ev(e->b,m),e->a->w); }
  e->stamp=EP.stamp; e->ev=r; return r; }
u128 evalExpr(Ex e,const Model&m){ EP.stamp++; return ev(e,m); }

std::string exprStr(Ex e,int d){
  static const char*nm[]={"c","v","+","-","*","/u","/s","%u","%s","&","|","^","<<",">>u",">>s","==","<u","<=u","<s","<=s","ite","cat","ext","zx","sx"};
  char b[64];
  if(e->op==E_CONST){ snprintf(b,64,"0x%llx:%u",(unsigned long long)e->c,e->w); return b; }
  if(e->op==E_VAR) return EP.vars[(u32)e->c].name;
  if(d<=0) return "...";
  std::string s="("; s+=nm[e->op]; if(e->op==E_EXTRACT){ snprintf(b,64,"[%u+%u]",e->lo,e->w); s+=b; } if(e->op==E_ZEXT||e->op==E_SEXT){ s+=std::to_string(e->w);} 
  if(e->k) s+=" "+exprStr(e->k,d-1); if(e->a) s+=" "+exprStr(e->a,d-1); if(e->b) s+=" "+exprStr(e->b,d-1); return s+")"; }

// ---------------- z3 -----------------
static void zerr(Z3_context c,Z3_error_code ec){ fprintf(stderr,"z3 error: %s\n",Z3_get_error_msg(c,ec)); exit(3); }
void Solver::init(unsigned to){
  Z3_config cfg=Z3_mk_config(); ctx=Z3_mk_context(cfg); Z3_set_error_handler(ctx,zerr);
  timeout_ms=to;
  s=Z3_mk_solver_for_logic(ctx,Z3_mk_string_symbol(ctx,"QF_BV")); Z3_solver_inc_ref(ctx,s);
  Z3_params p=Z3_mk_params(ctx); Z3_params_inc_ref(ctx,p);
  curTO=0; }
static Z3_ast zconst(Z3_context c,u128 v,unsigned w){
  Z3_sort so=Z3_mk_bv_sort(c,w);
  if(w<=64) return Z3_mk_unsigned_int64(c,(u64)v,so);
  Z3_ast hi=Z3_mk_unsigned_int64(c,(u64)(v>>64),Z3_mk_bv_sort(c,w-64)); Z3_ast lo=Z3_mk_unsigned_int64(c,(u64)v,Z3_mk_bv_sort(c,64)); return Z3_mk_concat(c,hi,lo); }
Z3_ast Solver::bo(Ex e){
  if(e->zbool) return e->zbool;
  Z3_ast r;
  switch(e->op){
  case E_CONST: r=e->c?Z3_mk_true(ctx):Z3_mk_false(ctx); break;
  case E_EQ: if(e->a->w==1) r=Z3_mk_iff(ctx,bo(e->a),bo(e->b)); else r=Z3_mk_eq(ctx,bv(e->a),bv(e->b)); break;
  case E_ULT: r=Z3_mk_bvult(ctx,bv(e->a),bv(e->b)); break;
  case E_ULE: r=Z3_mk_bvule(ctx,bv(e->a),bv(e->b)); break;
  case E_SLT: r=Z3_mk_bvslt(ctx,bv(e->a),bv(e->b)); break;
  case E_SLE: r=Z3_mk_bvsle(ctx,bv(e->a),bv(e->b)); break;
  case E_AND: { Z3_ast x[2]={bo(e->a),bo(e->b)}; r=Z3_mk_and(ctx,2,x); break; }
  case E_OR: { Z3_ast x[2]={bo(e->a),bo(e->b)}; r=Z3_mk_or(ctx,2,x); break; }
  case E_XOR: if(iscv(e->b,1)) r=Z3_mk_not(ctx,bo(e->a)); else r=Z3_mk_xor(ctx,bo(e->a),bo(e->b)); break;
  case E_ITE: r=Z3_mk_ite(ctx,bo(e->k),bo(e->a),bo(e->b)); break;
  default: r=Z3_mk_eq(ctx,bv(e),zconst(ctx,1,1)); }
  Z3_inc_ref(ctx,r); e->zbool=r; return r; }
Z3_ast Solver::bv(Ex e){
  if(e->zbv) return e->zbv;
  Z3_ast r;
  bool boolish = e->w==1 && (isCmp(e->op)||e->op==E_AND||e->op==E_OR||e->op==E_XOR||e->op==E_ITE);
  if(boolish){ r=Z3_mk_ite(ctx,bo(e),zconst(ctx,1,1),zconst(ctx,0,1)); }
  else switch(e->op){
  case E_CONST: r=zconst(ctx,e->c,e->w); break;
  case E_VAR: { std::string n="v"+std::to_string((u32)e->c); r=Z3_mk_const(ctx,Z3_mk_string_symbol(ctx,n.c_str()),Z3_mk_bv_sort(ctx,e->w)); break; }
  case E_ADD: r=Z3_mk_bvadd(ctx,bv(e->a),bv(e->b)); break;
  case E_SUB: r=Z3_mk_bvsub(ctx,bv(e->a),bv(e->b)); break;
  case E_MUL: r=Z3_mk_bvmul(ctx,bv(e->a),bv(e->b)); break;
  case E_UDIV: r=Z3_mk_bvudiv(ctx,bv(e->a),bv(e->b)); break;
  case E_SDIV: r=Z3_mk_bvsdiv(ctx,bv(e->a),bv(e->b)); break;
  case E_UREM: r=Z3_mk_bvurem(ctx,bv(e->a),bv(e->b)); break;
  case E_SREM: r=Z3_mk_bvsrem(ctx,bv(e->a),bv(e->b)); break;
  case E_AND: r=Z3_mk_bvand(ctx,bv(e->a),bv(e->b)); break;
  case E_OR: r=Z3_mk_bvor(ctx,bv(e->a),bv(e->b)); break;
  case E_XOR: r=Z3_mk_bvxor(ctx,bv(e->a),bv(e->b)); break;
  case E_SHL: r=Z3_mk_bvshl(ctx,bv(e->a),bv(e->b)); break;
  case E_LSHR: r=Z3_mk_bvlshr(ctx,bv(e->a),bv(e->b)); break;
  case E_ASHR: r=Z3_mk_bvashr(ctx,bv(e->a),bv(e->b)); break;
  case E_ITE: r=Z3_mk_ite(ctx,bo(e->k),bv(e->a),bv(e->b)); break;
  case E_CONCAT: r=Z3_mk_concat(ctx,bv(e->a),bv(e->b)); break;
  case E_EXTRACT: r=Z3_mk_extract(ctx,e->lo+e->w-1,e->lo,bv(e->a)); break;
  case E_ZEXT: if(e->a->w==1) r=Z3_mk_ite(ctx,bo(e->a),zconst(ctx,1,e->w),zconst(ctx,0,e->w)); else r=Z3_mk_zero_ext(ctx,e->w-e->a->w,bv(e->a)); break;
  case E_SEXT: r=Z3_mk_sign_ext(ctx,e->w-e->a->w,bv(e->a)); break;
  default: abort(); }
  Z3_inc_ref(ctx,r); e->zbv=r; return r; }

static bool inter(const std::vector<u32>&a,const std::vector<char>&in){ for(u32 v:a) if(v<in.size()&&in[v]) return true; return false; }

// arithmetic that bit-blasting handles badly: wide multiplication/division
static std::unordered_map<Ex,char> hardMemo;
static bool hardArith(Ex e){ if(!e) return false; if(isc(e)||e->op==E_VAR) return false; auto it=hardMemo.find(e); if(it!=hardMemo.end()) return it->second;
  bool h=false; if((e->op==E_UDIV||e->op==E_UREM||e->op==E_SDIV||e->op==E_SREM||e->op==E_MUL)&&e->w>=24) h=true;
  if(!h) h=hardArith(e->a)||hardArith(e->b)||hardArith(e->k); hardMemo[e]=h; return h; }
// run an external solver on the current assertion stack; returns 1/0/-1, fills values of vars
static int external(const std::string&cmd,const std::string&smt,const std::vector<u32>&vs,std::vector<std::pair<u32,u64>>&mv){
  char fn[64]; snprintf(fn,64,"/tmp/symxq.%d.smt2",(int)getpid()); FILE*f=fopen(fn,"w"); if(!f) return -1;
  fprintf(f,"(set-option :produce-models true)\n(set-logic QF_BV)\n%s(check-sat)\n(get-value (",smt.c_str()); for(u32 v:vs) fprintf(f,"v%u ",v); fprintf(f,"))\n"); fclose(f);
  FILE*p=popen((cmd+" "+fn+" 2>/dev/null").c_str(),"r"); if(!p){ unlink(fn); return -1; }
  std::string o; char buf[4096]; size_t n; while((n=fread(buf,1,sizeof buf,p))>0) o.append(buf,n); pclose(p); unlink(fn);
  if(o.compare(0,5,"unsat")==0) return 0; if(o.compare(0,3,"sat")) return -1;
  for(u32 v:vs){ std::string k="(v"+std::to_string(v)+" "; size_t i=o.find(k); if(i==std::string::npos) return -1; i+=k.size(); u64 x=0; 
    if(o[i]=='#'&&o[i+1]=='b') for(i+=2;o[i]=='0'||o[i]=='1';i++) x=x*2+(o[i]-'0'); else if(o[i]=='#'&&o[i+1]=='x') x=strtoull(o.c_str()+i+2,0,16); else if(o.compare(i,4,"(_ b")==0) x=strtoull(o.c_str()+i+5,0,10); else return -1;
    mv.push_back({v,x}); }
  return 1; }
int Solver::check(const std::vector<Ex>&pc,Ex cond,const Model&base,Model&out){
  if(isc(cond)){ if(!cond->c) return 0; out=base; return 1; }
  // slice
  std::vector<char> in(EP.vars.size(),0); for(u32 v:*cond->vars) in[v]=1;
  std::vector<Ex> sl; std::vector<char> taken(pc.size(),0); bool ch=true;
  while(ch){ ch=false; for(size_t i=0;i<pc.size();i++) if(!taken[i]&&inter(*pc[i]->vars,in)){ taken[i]=1; sl.push_back(pc[i]); for(u32 v:*pc[i]->vars) if(!in[v]){ in[v]=1; ch=true; } } }
  std::vector<u64> hs; hs.reserve(sl.size()+1); for(Ex e:sl) hs.push_back(e->hash); std::sort(hs.begin(),hs.end());
  u64 h=hcomb(cond->hash,77); for(u64 x:hs) h=hcomb(h,x);
  auto it=cache.find(h);
  if(it!=cache.end()){ st.cachehit++; if(it->second.r==1){ out=base; if(out.size()<EP.vars.size()) out.resize(EP.vars.size(),0); for(auto&p:it->second.m) out[p.first]=p.second; } return it->second.r; }
  auto t0=std::chrono::steady_clock::now();
  st.queries++;
  Z3_solver_push(ctx,s);
  for(Ex e:sl) Z3_solver_assert(ctx,s,bo(e));
  Z3_solver_assert(ctx,s,bo(cond));
  bool hard=hardArith(cond); if(!hard) for(Ex e:sl) if(hardArith(e)){ hard=true; break; }
  auto setTO=[&](unsigned ms){ if(ms==curTO) return; curTO=ms; Z3_params p=Z3_mk_params(ctx); Z3_params_inc_ref(ctx,p); Z3_params_set_uint(ctx,p,Z3_mk_string_symbol(ctx,"rlimit"),ms*1200u); Z3_solver_set_params(ctx,s,p); Z3_params_dec_ref(ctx,p); };
  setTO(hard?std::min(400u,timeout_ms):timeout_ms);
  CE ce; bool ext=false; ce.r=-1; 
  { Z3_lbool r=Z3_solver_check(ctx,s); ce.r= r==Z3_L_TRUE?1: r==Z3_L_FALSE?0:-1; }
  if(ce.r<0){ std::vector<u32> vs; for(u32 v=0;v<in.size();v++) if(in[v]) vs.push_back(v); std::string q=Z3_solver_to_string(ctx,s); std::string tl="--tlimit="+std::to_string(timeout_ms);
    auto tryx=[&](const std::string&c){ if(ce.r>=0) return; std::vector<std::pair<u32,u64>> mv; int x=external(c,q,vs,mv); 
      if(x==1){ Model t=base; if(t.size()<EP.vars.size()) t.resize(EP.vars.size(),0); for(auto&p:mv) t[p.first]=p.second; bool ok=evalExpr(cond,t)!=0; for(Ex e:sl) ok=ok&&evalExpr(e,t)!=0; if(ok){ ce.r=1; ce.m=mv; out=t; ext=true; } }
      else if(x==0) ce.r=0; if(ce.r>=0) st.ext++; };
    if(hard){ tryx("cvc5 --solve-bv-as-int=sum "+tl); if(ce.r<0){ setTO(timeout_ms); Z3_lbool r=Z3_solver_check(ctx,s); ce.r= r==Z3_L_TRUE?1: r==Z3_L_FALSE?0:-1; } tryx("cvc5 --solve-bv-as-int=bv "+tl); }
    else { tryx("cvc5 --bitblast=eager "+tl); tryx("cvc5 --solve-bv-as-int=sum "+tl); } }
  if(ce.r==1&&ext) st.sat++;
  else if(ce.r==1){ st.sat++;
    Z3_model m=Z3_solver_get_model(ctx,s); Z3_model_inc_ref(ctx,m);
    out=base; if(out.size()<EP.vars.size()) out.resize(EP.vars.size(),0);
    for(u32 v=0;v<in.size();v++) if(in[v]){
      Ex ve=EP.vars[v].e;
      Z3_ast val; u64 x=0; if(Z3_model_eval(ctx,m,bv(ve),true,&val)){ Z3_inc_ref(ctx,val); if(!Z3_get_numeral_uint64(ctx,val,(uint64_t*)&x)) x=0; Z3_dec_ref(ctx,val); }
      out[v]=x; ce.m.push_back({v,x}); }
    Z3_model_dec_ref(ctx,m);
  } else if(ce.r==0) st.unsat++; else st.unknown++;
  Z3_solver_pop(ctx,s,1);
  st.time+=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count();
  if(ce.r>=0) cache[h]=ce;
  return ce.r; }
