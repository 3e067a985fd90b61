// Instrumented replacements for the out-of-line parts of libstdc++'s std::list and
// std::map, so that the simulator sees their memory accesses. The tree is kept
// unbalanced (balance is not observable through std::map).
namespace vshim {
struct LN { LN* next; LN* prev; };
struct TN { int color; TN* parent; TN* left; TN* right; };
}
using vshim::LN; using vshim::TN;
extern "C" {
void vs_list_hook(LN* self, LN* pos) { self->next = pos; self->prev = pos->prev; pos->prev->next = self; pos->prev = self; }
void vs_list_unhook(LN* self) { LN* n = self->next; LN* p = self->prev; p->next = n; n->prev = p; }
void vs_list_transfer(LN* self, LN* first, LN* last) {
  if(self != last) {
    last->prev->next = self; first->prev->next = last; self->prev->next = first;
    LN* t = self->prev; self->prev = last->prev; last->prev = first->prev; first->prev = t;
  }
}
void vs_list_swap(LN* a, LN* b) {
  if(a->next != a) { if(b->next != b) { LN* t=a->next; a->next=b->next; b->next=t; t=a->prev; a->prev=b->prev; b->prev=t; a->next->prev=a->prev->next=a; b->next->prev=b->prev->next=b; }
    else { b->next=a->next; b->prev=a->prev; b->next->prev=b->prev->next=b; a->next=a->prev=a; } }
  else if(b->next != b) { a->next=b->next; a->prev=b->prev; a->next->prev=a->prev->next=a; b->next=b->prev=b; }
}
void vs_list_reverse(LN* self) { LN* t = self; do { LN* n = t->next; t->next = t->prev; t->prev = n; t = n; } while(t != self); }
// header: color red(0), parent = root, left = leftmost, right = rightmost
void vs_tree_insert(bool left, TN* x, TN* p, TN& h) {
  x->parent = p; x->left = 0; x->right = 0; x->color = 1;
  if(left) { p->left = x; if(p == &h) { h.parent = x; h.right = x; } else if(p == h.left) h.left = x; }
  else { p->right = x; if(p == h.right) h.right = x; }
}
static TN* tmin(TN* x) { while(x->left) x = x->left; return x; }
static TN* tmax(TN* x) { while(x->right) x = x->right; return x; }
static void tput(TN* u, TN* v, TN& h) { if(h.parent == u) h.parent = v; else if(u->parent->left == u) u->parent->left = v; else u->parent->right = v; if(v) v->parent = u->parent; }
TN* vs_tree_erase(TN* z, TN& h) {
  bool ml = h.left == z, mr = h.right == z; TN* zp = z->parent; TN* zl = z->left; TN* zr = z->right;
  if(!z->left) tput(z, z->right, h);
  else if(!z->right) tput(z, z->left, h);
  else {
    TN* y = tmin(z->right);
    if(y->parent != z) { tput(y, y->right, h); y->right = z->right; y->right->parent = y; }
    tput(z, y, h); y->left = z->left; y->left->parent = y;
  }
  if(ml) h.left = zr ? tmin(zr) : zp;      // a leftmost node has no left child
  if(mr) h.right = zl ? tmax(zl) : zp;
  if(!h.parent) { h.left = &h; h.right = &h; }
  return z;
}
TN* vs_tree_inc(TN* x) {
  if(x->right) return tmin(x->right);
  TN* y = x->parent; while(x == y->right) { x = y; y = y->parent; }
  if(x->right != y) x = y;
  return x;
}
TN* vs_tree_dec(TN* x) {
  if(x->color == 0 && x->parent && x->parent->parent == x) return x->right;   // end(): rightmost
  if(x->left) return tmax(x->left);
  TN* y = x->parent; while(x == y->left) { x = y; y = y->parent; } return y;
}
const TN* vs_tree_cinc(const TN* x) { return vs_tree_inc(const_cast<TN*>(x)); }
const TN* vs_tree_cdec(const TN* x) { return vs_tree_dec(const_cast<TN*>(x)); }
}
