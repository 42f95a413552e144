// libstdc++ pieces that live in libstdc++.so (executor only; native replay uses the real ones).
#include "symx.h"
#include <stdlib.h>
#include <string.h>
struct NB { int color; NB*parent,*left,*right; };
enum { RED=0,BLACK=1 };
extern "C" {
static NB*rt_inc(NB*x){ if(x->right){ x=x->right; while(x->left) x=x->left; } else { NB*y=x->parent; while(x==y->right){ x=y; y=y->parent; } if(x->right!=y) x=y; } return x; }
static NB*rt_dec(NB*x){ if(x->color==RED&&x->parent->parent==x) return x->right; if(x->left){ NB*y=x->left; while(y->right) y=y->right; return y; } NB*y=x->parent; while(x==y->left){ x=y; y=y->parent; } return y; }
NB*eo__ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(NB*x){ return rt_inc(x); }
NB*eo__ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base(NB*x){ return rt_inc(x); }
NB*eo__ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(NB*x){ return rt_dec(x); }
NB*eo__ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base(NB*x){ return rt_dec(x); }
static void rt_rl(NB*x,NB*&root){ NB*y=x->right; x->right=y->left; if(y->left) y->left->parent=x; y->parent=x->parent; if(x==root) root=y; else if(x==x->parent->left) x->parent->left=y; else x->parent->right=y; y->left=x; x->parent=y; }
static void rt_rr(NB*x,NB*&root){ NB*y=x->left; x->left=y->right; if(y->right) y->right->parent=x; y->parent=x->parent; if(x==root) root=y; else if(x==x->parent->right) x->parent->right=y; else x->parent->left=y; y->right=x; x->parent=y; }
void eo__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool il,NB*x,NB*p,NB&h){ NB*&root=h.parent; x->parent=p; x->left=x->right=0; x->color=RED;
  if(il){ p->left=x; if(p==&h){ h.parent=x; h.right=x; } else if(p==h.left) h.left=x; } else { p->right=x; if(p==h.right) h.right=x; }
  while(x!=root&&x->parent->color==RED){ NB*g=x->parent->parent; if(x->parent==g->left){ NB*u=g->right; if(u&&u->color==RED){ x->parent->color=BLACK; u->color=BLACK; g->color=RED; x=g; } else { if(x==x->parent->right){ x=x->parent; rt_rl(x,root); } x->parent->color=BLACK; g->color=RED; rt_rr(g,root); } } else { NB*u=g->left; if(u&&u->color==RED){ x->parent->color=BLACK; u->color=BLACK; g->color=RED; x=g; } else { if(x==x->parent->left){ x=x->parent; rt_rr(x,root); } x->parent->color=BLACK; g->color=RED; rt_rl(g,root); } } }
  root->color=BLACK; }
NB*eo__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(NB*z,NB&h){ NB*&root=h.parent,*&lm=h.left,*&rm=h.right; NB*y=z,*x=0,*xp=0;
  if(!y->left) x=y->right; else if(!y->right) x=y->left; else { y=y->right; while(y->left) y=y->left; x=y->right; }
  if(y!=z){ z->left->parent=y; y->left=z->left; if(y!=z->right){ xp=y->parent; if(x) x->parent=y->parent; y->parent->left=x; y->right=z->right; z->right->parent=y; } else xp=y; if(root==z) root=y; else if(z->parent->left==z) z->parent->left=y; else z->parent->right=y; y->parent=z->parent; int c=y->color; y->color=z->color; z->color=c; y=z; }
  else { xp=y->parent; if(x) x->parent=y->parent; if(root==z) root=x; else if(z->parent->left==z) z->parent->left=x; else z->parent->right=x; if(lm==z){ if(!z->right) lm=z->parent; else { NB*m=x; while(m->left) m=m->left; lm=m; } } if(rm==z){ if(!z->left) rm=z->parent; else { NB*m=x; while(m->right) m=m->right; rm=m; } } }
  if(y->color!=RED){ while(x!=root&&(!x||x->color==BLACK)){ if(x==xp->left){ NB*w=xp->right; if(w->color==RED){ w->color=BLACK; xp->color=RED; rt_rl(xp,root); w=xp->right; } if((!w->left||w->left->color==BLACK)&&(!w->right||w->right->color==BLACK)){ w->color=RED; x=xp; xp=xp->parent; } else { if(!w->right||w->right->color==BLACK){ w->left->color=BLACK; w->color=RED; rt_rr(w,root); w=xp->right; } w->color=xp->color; xp->color=BLACK; if(w->right) w->right->color=BLACK; rt_rl(xp,root); break; } }
      else { NB*w=xp->left; if(w->color==RED){ w->color=BLACK; xp->color=RED; rt_rr(xp,root); w=xp->left; } if((!w->right||w->right->color==BLACK)&&(!w->left||w->left->color==BLACK)){ w->color=RED; x=xp; xp=xp->parent; } else { if(!w->left||w->left->color==BLACK){ w->right->color=BLACK; w->color=RED; rt_rl(w,root); w=xp->left; } w->color=xp->color; xp->color=BLACK; if(w->left) w->left->color=BLACK; rt_rr(xp,root); break; } } }
    if(x) x->color=BLACK; }
  return y; }
struct LN { LN*n,*p; };
void eo__ZNSt8__detail15_List_node_base7_M_hookEPS0_(LN*t,LN*pos){ t->n=pos; t->p=pos->p; pos->p->n=t; pos->p=t; }
void eo__ZNSt8__detail15_List_node_base9_M_unhookEv(LN*t){ LN*n=t->n,*p=t->p; p->n=n; n->p=p; }
void eo__ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_(LN*t,LN*f,LN*l){ if(t!=l){ l->p->n=t; f->p->n=l; t->p->n=f; LN*tmp=t->p; t->p=l->p; l->p=f->p; f->p=tmp; } }
void eo__ZNSt8__detail15_List_node_base4swapERS0_S1_(LN*x,LN*y){ if(x->n!=x){ if(y->n!=y){ LN*a=x->n; x->n=y->n; y->n=a; a=x->p; x->p=y->p; y->p=a; x->n->p=x->p->n=x; y->n->p=y->p->n=y; } else { y->n=x->n; y->p=x->p; y->n->p=y->p->n=y; x->n=x->p=x; } } else if(y->n!=y){ x->n=y->n; x->p=y->p; x->n->p=x->p->n=x; y->n=y->p=y; } }
// std exceptions: { vptr, char* }
struct EX { void**vp; char*msg; };
static const char*rt_what(EX*e){ return e->msg?e->msg:"std::exception"; }
static void rt_edtor(EX*){ }
static void*rt_exvt[]={ 0,0,(void*)rt_edtor,(void*)rt_edtor,(void*)rt_what };
static void rt_exinit(EX*e,const char*m){ e->vp=rt_exvt+2; size_t n=strlen(m)+1; e->msg=(char*)malloc(n); memcpy(e->msg,m,n); }
struct STR { char*p; size_t n; };
#define EXC(name) void eo__ZNSt##name##C1EPKc(EX*e,const char*m){ rt_exinit(e,m); } void eo__ZNSt##name##C2EPKc(EX*e,const char*m){ rt_exinit(e,m); } \
  void eo__ZNSt##name##C1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(EX*e,STR*s){ rt_exinit(e,s->p); } void eo__ZNSt##name##C2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(EX*e,STR*s){ rt_exinit(e,s->p); } \
  void eo__ZNSt##name##C1ERKS_(EX*e,EX*o){ rt_exinit(e,rt_what(o)); } void eo__ZNSt##name##C2ERKS_(EX*e,EX*o){ rt_exinit(e,rt_what(o)); } \
  void eo__ZNSt##name##D1Ev(EX*){ } void eo__ZNSt##name##D2Ev(EX*){ } void eo__ZNSt##name##D0Ev(EX*){ }
EXC(13runtime_error) EXC(11logic_error) EXC(12out_of_range) EXC(16invalid_argument) EXC(12length_error) EXC(14overflow_error)
void eo__ZNSt9exceptionD2Ev(void*){ } void eo__ZNSt9exceptionD1Ev(void*){ }
const char*eo__ZNKSt9exception4whatEv(EX*e){ return "std::exception"; }
const char*eo__ZNKSt13runtime_error4whatEv(EX*e){ return rt_what(e); }
const char*eo__ZNKSt11logic_error4whatEv(EX*e){ return rt_what(e); }
unsigned eo__ZSt11_Hash_bytesPKvmm(const unsigned char*p,size_t n,size_t s){ unsigned h=(unsigned)s; for(size_t i=0;i<n;i++) h=h*31+p[i]; return h; }
}
