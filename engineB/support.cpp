// Out-of-line parts of libstdc++ containers, as interpreted code (same observable behaviour; the red-black tree is kept as a
// plain ordered binary tree, which has the same in-order sequence).
#include <cstddef>
#include <cstdint>
namespace sup {
struct N { int color; N* p; N* l; N* r; };
}
using sup::N;
#define EXP extern "C" __attribute__((visibility("default")))
static N* inc(N* x){ if(x->r){ x=x->r; while(x->l) x=x->l; return x; } N* y=x->p; while(x==y->r){ x=y; y=y->p; } if(x->r!=y) x=y; return x; }
static N* dec(N* x){ if(x->color==0 && x->p && x->p->p==x) return x->r; if(x->l){ N* y=x->l; while(y->r) y=y->r; return y; } N* y=x->p; while(x==y->l){ x=y; y=y->p; } return y; }
EXP N* sup_inc(N* x){ return inc(x); }
EXP N* sup_dec(N* x){ return dec(x); }
EXP void sup_insert(bool left,N* x,N* p,N* h){ x->p=p; x->l=x->r=nullptr; x->color=1; if(left){ p->l=x; if(p==h){ h->p=x; h->r=x; } else if(p==h->l) h->l=x; } else { p->r=x; if(p==h->r) h->r=x; } }
static void replaceChild(N* h,N* x,N* y){ if(h->p==x) h->p=y; else if(x->p->l==x) x->p->l=y; else x->p->r=y; if(y) y->p=x->p; }
EXP N* sup_erase(N* z,N* h){
  // leftmost / rightmost
  if(h->l==z) h->l = z->r ? ({ N* m=z->r; while(m->l) m=m->l; m; }) : z->p;
  if(h->r==z) h->r = z->l ? ({ N* m=z->l; while(m->r) m=m->r; m; }) : z->p;
  if(!z->l) replaceChild(h,z,z->r); else if(!z->r) replaceChild(h,z,z->l);
  else { N* y=z->r; while(y->l) y=y->l; if(y->p!=z){ replaceChild(h,y,y->r); y->r=z->r; y->r->p=y; } replaceChild(h,z,y); y->l=z->l; y->l->p=y; y->color=z->color; }
  if(h->p==nullptr){ h->l=h; h->r=h; }
  return z; }
struct L { L* n; L* p; };
EXP void sup_list_hook(L* t,L* pos){ t->n=pos; t->p=pos->p; pos->p->n=t; pos->p=t; }
EXP void sup_list_unhook(L* t){ t->p->n=t->n; t->n->p=t->p; }
EXP void sup_list_transfer(L* self,L* first,L* last){ if(self!=last){ last->p->n=self; first->p->n=last; self->p->n=first; L* tmp=self->p; self->p=last->p; last->p=first->p; first->p=tmp; } }
extern "C" { void* verif_file=nullptr; }
