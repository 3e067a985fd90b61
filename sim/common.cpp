// Instrumented, type-independent part of the adapter: connection handles, blocks,
// tracked objects.
#include "adapter.hpp"
using namespace boost::signals2;

Handles HS;
const char* exc_names[] = {"none","UserEx","expired_slot","bad_alloc","CopyEx","CmpEx","no_slots_error","AssignEx","unexpected"};

struct UserStd : UserEx, std::exception {}; struct UserWeak : UserEx, boost::bad_weak_ptr {}; struct UserNoSlots : UserEx, no_slots_error {}; struct UserAlloc : UserEx, std::bad_alloc {};
struct MyExpired : expired_slot {};
template<class E> static void throw_as(int id) { E e; e.id = id; throw e; }
void throw_user(int id) { switch(id % 5) { case 1: throw_as<UserStd>(id); case 2: throw_as<UserWeak>(id); case 3: throw_as<UserNoSlots>(id); case 4: throw_as<UserAlloc>(id); } throw_as<UserEx>(id); }
void throw_expired() { if(h_root() % 3 == 1) throw MyExpired(); throw expired_slot(); }
int classify() {
  try { throw; }
  catch(const UserEx&) { return X_USER; }
  catch(const expired_slot&) { return X_EXPIRED; }
  catch(const no_slots_error&) { return X_NOSLOTS; }
  catch(const std::bad_alloc&) { return X_BADALLOC; }
  catch(const CopyEx&) { return X_COPY; }
  catch(const CmpEx&) { return X_CMP; }
  catch(const AssignEx&) { return X_ASSIGN; }
  catch(...) { return X_OTHER; }
}
static rt::HB pubhb[NCONN];
void publish(int c, const connection& x) {
  rt::NoPreempt np; HS.H[c] = x; HS.pub[c] = true; rt::hb_release(pubhb[c]);
}
bool conn_published(int c) { return HS.pub[c]; }
// a private copy of the published handle, as another thread would have been handed it
static connection grab(int c) { rt::NoPreempt np; rt::hb_acquire(pubhb[c]); return HS.H[c]; }

int conn_disconnect(int c, int how) {
  try {
    if(how == 0) { connection x(grab(c)); x.disconnect(); }
    else if(how == 1) { connection x; { rt::NoPreempt np; x = grab(c); } connection y(std::move(x)); y.disconnect(); }
    else { rt::hb_acquire(pubhb[c]); HS.H[c].disconnect(); }     // one handle shared by several threads: const methods are safe
    return X_NONE;
  } catch(...) { return classify(); }
}
int conn_connected(int c, int* out) { try { connection x(grab(c)); *out = x.connected(); return X_NONE; } catch(...) { return classify(); } }
int conn_blocked(int c, int* out) { try { connection x(grab(c)); *out = x.blocked(); return X_NONE; } catch(...) { return classify(); } }
bool ext_is(const void* e, int c) { connection x; { rt::NoPreempt np; x = grab(c); } return *static_cast<const connection*>(e) == x; }
bool ext_empty(const void* x) { return *(const connection*)x == connection(); }
void ext_disconnect(const void* e) { static_cast<const connection*>(e)->disconnect(); }
int ext_connected(const void* e) { return static_cast<const connection*>(e)->connected(); }

Obj::~Obj() { h_obj_dtor(id); magic = 0xDEAD; }

void obj_make(int o, int kind, int nref) {
  if(kind == 1) { std::shared_ptr<Obj> p = nref & 1 ? std::make_shared<Obj>(o) : std::shared_ptr<Obj>(new Obj(o)); for(int i = 0; i < nref; ++i) HS.os[o][i] = p; HS.ws[o] = p; }
  else { boost::shared_ptr<Obj> p = nref & 1 ? boost::make_shared<Obj>(o) : boost::shared_ptr<Obj>(new Obj(o)); for(int i = 0; i < nref; ++i) HS.ob[o][i] = p; HS.wb[o] = p; }
}
int obj_drop(int o, int r) {
  try { boost::shared_ptr<Obj> b; std::shared_ptr<Obj> s; { rt::NoPreempt np; b.swap(HS.ob[o][r]); s.swap(HS.os[o][r]); } b.reset(); s.reset(); return X_NONE; }
  catch(...) { return classify(); }
}

int blk_new(int b, int c, int init) { void* p = rt::raw_alloc(sizeof(shared_connection_block)); try {
    shared_connection_block* x = init < 0 ? new(p) shared_connection_block() : init == 2 ? new(p) shared_connection_block(grab(c)) : new(p) shared_connection_block(grab(c), init != 0);
    HS.B[b] = x; return X_NONE; } catch(...) { rt::raw_free(p); return classify(); } }
int blk_block(int b) { try { HS.B[b]->block(); return X_NONE; } catch(...) { return classify(); } }
int blk_unblock(int b) { try { HS.B[b]->unblock(); return X_NONE; } catch(...) { return classify(); } }
int blk_copy(int b, int src, int how) { try {
    if(how == 0 && !HS.B[b]) { void* p = rt::raw_alloc(sizeof(shared_connection_block)); HS.B[b] = new(p) shared_connection_block(*HS.B[src]); }
    else *HS.B[b] = *HS.B[src];
    return X_NONE; } catch(...) { return classify(); } }
int blk_del(int b) { try { HS.B[b]->~shared_connection_block(); rt::raw_free(HS.B[b]); HS.B[b] = 0; return X_NONE; } catch(...) { return classify(); } }
int blk_blocking(int b) { return HS.B[b]->blocking(); }
int blk_connis(int b, int c) { connection x; { rt::NoPreempt np; x = grab(c); } return HS.B[b]->connection() == x; }
bool blk_exists(int b) { return HS.B[b] != 0; }

static connection& srcref(int kind, int src, connection& tmp) {
  if(kind == 0) { rt::NoPreempt np; tmp = grab(src); return tmp; }
  if(kind == 1) return HS.hv[src];
  return *HS.sv[src];
}
int hv_assign(int h, int k, int src, int how) { try { connection tmp; connection& r = srcref(k, src, tmp);
    switch(how) {
      case 0: HS.hv[h] = r; break;
      case 1: { connection c(r); HS.hv[h] = c; break; }
      case 2: HS.hv[h] = std::move(r); break;
      case 3: { connection c(std::move(r)); HS.hv[h] = std::move(c); break; }
      case 4: { if(k == 2) HS.hv[h].swap(r); else { using boost::signals2::swap; swap(HS.hv[h], r); } break; }
      case 5: { connection& me = HS.hv[h]; HS.hv[h] = me; break; }
      case 6: { connection& me = HS.hv[h]; HS.hv[h] = std::move(me); break; }
      case 7: { connection& me = HS.hv[h]; HS.hv[h].swap(me); break; }
    }
    return X_NONE; } catch(...) { return classify(); } }
static void sv_place(int s) { if(HS.sv[s]) { HS.sv[s]->~scoped_connection(); rt::raw_free(HS.sv[s]); HS.sv[s] = 0; } }
int sv_op(int s, int op, int k, int src) { try {
    connection tmp;
    switch(op) {
      case 0: { sv_place(s); connection& r = srcref(k, src, tmp); const connection& cr = r; void* p = rt::raw_alloc(sizeof(scoped_connection)); HS.sv[s] = new(p) scoped_connection(cr); break; }
      case 1: { sv_place(s); connection c(srcref(k, src, tmp)); void* p = rt::raw_alloc(sizeof(scoped_connection)); HS.sv[s] = new(p) scoped_connection(std::move(c)); break; }
      case 2: { const connection& r = srcref(k, src, tmp); *HS.sv[s] = r; break; }
      case 3: { connection c(srcref(k, src, tmp)); *HS.sv[s] = std::move(c); break; }
      case 4: { sv_place(s); void* p = rt::raw_alloc(sizeof(scoped_connection)); HS.sv[s] = new(p) scoped_connection(std::move(*HS.sv[src])); break; }
      case 5: *HS.sv[s] = std::move(*HS.sv[src]); break;
      case 6: sv_place(s); break;
      case 7: { connection r = HS.sv[s]->release(); HS.hv[src] = r; break; }
      case 8: { using boost::signals2::swap; swap(*HS.sv[s], *HS.sv[src]); break; }
      case 9: { scoped_connection d; *HS.sv[s] = std::move(d); break; }
      case 10: { scoped_connection& me = *HS.sv[s]; *HS.sv[s] = std::move(me); break; }
      case 11: { scoped_connection& me = *HS.sv[s]; HS.sv[s]->swap(me); break; }
      case 12: { connection& me = *HS.sv[s]; *HS.sv[s] = std::move(me); break; }
    }
    return X_NONE; } catch(...) { return classify(); } }
int hv_connected(int h, int* o) { try { *o = HS.hv[h].connected(); return X_NONE; } catch(...) { return classify(); } }
int hv_disconnect(int h) { try { HS.hv[h].disconnect(); return X_NONE; } catch(...) { return classify(); } }
int hv_eq(int a, int b, int* eq, int* lt, int* gt) { try { *eq = HS.hv[a] == HS.hv[b]; *lt = HS.hv[a] < HS.hv[b]; *gt = HS.hv[b] < HS.hv[a]; if((HS.hv[a] != HS.hv[b]) == (*eq != 0)) *eq = *eq | 2; return X_NONE; } catch(...) { return classify(); } }
int sv_connected(int s, int* o) { try { *o = HS.sv[s]->connected(); return X_NONE; } catch(...) { return classify(); } }
int sv_blocked(int s, int* o) { try { *o = HS.sv[s]->blocked(); return X_NONE; } catch(...) { return classify(); } }
int sv_disconnect(int s) { try { HS.sv[s]->disconnect(); return X_NONE; } catch(...) { return classify(); } }

void common_reset() {
  for(int i = 0; i < NS; ++i) sv_place(i);
  for(int i = 0; i < NH; ++i) HS.hv[i] = connection();
  for(int i = 0; i < NBLK; ++i) if(HS.B[i]) blk_del(i);
  for(int i = 0; i < NCONN; ++i) { HS.H[i] = connection(); HS.pub[i] = false; rt::hb_clear(pubhb[i]); }
  for(int i = 0; i < NCHURN; ++i) { HS.ch[i] = connection(); HS.cho[i].reset(); }
  for(int o = 0; o < NOBJ; ++o) { for(int r = 0; r < NREF; ++r) { HS.ob[o][r].reset(); HS.os[o][r].reset(); } HS.wb[o].reset(); HS.ws[o].reset(); }
}
