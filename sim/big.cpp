// Instrumented: histories that are large in one dimension - deep recursion, wide slot lists, many blocks,
// handles, tracked objects, long chains of signals - each on objects of its own, with an exact oracle.
#include "adapter.hpp"
using namespace boost::signals2;
namespace {
struct Lcg { unsigned long long s; unsigned next() { s = s * 6364136223846793005ull + 1442695040888963407ull; return (unsigned)(s >> 33); } int below(int n) { return (int)(next() % (unsigned)n); } };
struct Fx { int cnt, run, copies, made; };
struct Ctl {
  int nfx; Fx* fx; int* seq; int nseq, capseq;
  void (*script)(Ctl&, int id, int x); void* self; bool late;
  Ctl(int n, int cap): nfx(n), nseq(0), capseq(cap), script(0), self(0), late(false) { fx = (Fx*)rt::raw_alloc(sizeof(Fx) * n); seq = (int*)rt::raw_alloc(sizeof(int) * (cap + 1)); for(int i = 0; i < n; i++) { Fx z = {0,0,0,0}; fx[i] = z; } }
  ~Ctl() { rt::raw_free(fx); rt::raw_free(seq); }
};
struct RunGuard { int& r; RunGuard(int& x): r(x) { ++r; } ~RunGuard() { --r; } };
struct BFn {
  Ctl* c; int id, cls;
  BFn(Ctl& k, int i, int g): c(&k), id(i), cls(g) { c->fx[id].copies++; c->fx[id].made = 1; }
  BFn(const BFn& o): c(o.c), id(o.id), cls(o.cls) { c->fx[id].copies++; }
  BFn& operator=(const BFn& o) { c->fx[o.id].copies++; c->fx[id].copies--; c = o.c; id = o.id; cls = o.cls; return *this; }
  ~BFn() { if(--c->fx[id].copies == 0 && c->fx[id].run) h_big(8, "functor-lifetime", "large history: a slot's function object was destroyed while it was executing (slot %d)", id); }
  int operator()(int x) const {
    if(h_big_lock()) h_big(9, "lock-held", "large history: slot %d ran while the calling thread held a lock internal to the library", id);
    Ctl& k = *c; const int me = id; ++k.fx[me].cnt; RunGuard g(k.fx[me].run); if(k.nseq < k.capseq) k.seq[k.nseq] = me; k.nseq++;
    if(k.script) k.script(k, me, x);
    return x + 1000 * me;
  }
  bool operator==(const BFn& o) const { return cls == o.cls; }
};
struct Comb { typedef int result_type; template<class I> int operator()(I f, I l) const { int r = -1; for(; f != l; ++f) r = *f; return r; } };
int rval(int x) { return x; }
int rval(const boost::optional<int>& x) { return x ? *x : -1; }
template<class S> struct Deep {
  Ctl c; S* sig; S* spare; connection r, z; shared_connection_block* blk; int n, var;
  Deep(): c(4, 4), sig(new S), spare(0), blk(0) {}
  ~Deep() { delete blk; delete sig; delete spare; }
  static void script(Ctl& c, int id, int x) {
    if(id != 1) return; Deep& d = *static_cast<Deep*>(c.self);
    if(x < d.n) { (*d.sig)(x + 1); return; }
    if(c.late) return; c.late = true;
    switch(d.var) {
      case 1: d.r.disconnect(); break;
      case 2: d.sig->disconnect_all_slots(); break;
      case 3: d.sig->connect(BFn(c, 3, 3)); break;
      case 4: throw UserEx{4711};
      case 5: d.blk = new shared_connection_block(d.z); break;
      case 6: { S* s = d.sig; d.sig = 0; delete s; break; }
      case 7: d.spare = new S(std::move(*d.sig)); std::swap(d.sig, d.spare); break;
      case 8: d.r.disconnect(); d.sig->connect(BFn(c, 3, 3)); break;
    }
  }
};
template<class S> void deep(int n, unsigned seed) {
  Lcg l = {seed}; Deep<S> d; Ctl& c = d.c; d.n = n; d.var = l.below(9); c.self = &d; c.script = &Deep<S>::script;
  int gm = l.below(3);
  if(gm == 0) { d.sig->connect(BFn(c, 0, 0)); d.r = d.sig->connect(BFn(c, 1, 1)); d.z = d.sig->connect(BFn(c, 2, 2)); }
  else if(gm == 1) { d.z = d.sig->connect(7, BFn(c, 2, 2)); d.r = d.sig->connect(7, BFn(c, 1, 1), at_front); d.sig->connect(7, BFn(c, 0, 0), at_front); }
  else { d.r = d.sig->connect(3, BFn(c, 1, 1)); d.z = d.sig->connect(BFn(c, 2, 2), at_back); d.sig->connect(BFn(c, 0, 0), at_front); }
  int res = -1; bool thrown = false; 
  try { res = rval((*d.sig)(0)); } catch(const UserEx& e) { thrown = true; if(e.id != 4711) h_big(11, "exception", "deep recursion: another exception arrived", 0); }
  int v = d.var, N = n + 1, zs = v == 2 || v == 4 || v == 5 ? 0 : N;
  #define GOT(i) c.fx[i].cnt
  if(thrown != (v == 4)) h_big(11, "exception", "deep recursion: an exception was lost or invented (depth %d)", n);
  if(GOT(0) != N || GOT(1) != N) h_big(1, "missed-call", "deep recursion: a slot was not called exactly once by each of the nested invocations (depth %d)", n);
  if(GOT(2) != zs) h_big(zs ? 1 : v == 5 ? 4 : v == 4 ? 11 : 2, "wrong-calls", zs ? "deep recursion: the last slot was not called exactly once by each of the nested invocations (depth %d)" : "deep recursion: a disconnected or blocked slot was called (depth %d)", n);
  if(GOT(3)) h_big(6, "late-slot", "deep recursion: a slot connected by the innermost invocation was called by an outer one (depth %d)", n);
  if(v != 4 && v != 5 && v != 2 && res != 2000) h_big(14, "result", "deep recursion: wrong result of the outermost invocation (%d)", res);
  if((v == 1 || v == 8) && (c.fx[1].copies || d.r.connected())) h_big(8, "not-released", "deep recursion: a slot disconnected at depth %d is still held after all invocations ended", n);
  if(v == 2 && (c.fx[0].copies || c.fx[1].copies || c.fx[2].copies)) h_big(8, "not-released", "deep recursion: slots disconnected at depth %d are still held after all invocations ended", n);
  if(v == 6 && (c.fx[0].copies || c.fx[1].copies || c.fx[2].copies || d.r.connected() || d.z.connected())) h_big(16, "not-released", "deep recursion: the slots of a signal destroyed at depth %d are still held after all invocations ended", n);
  if(v != 6) {
    for(int i = 0; i < 4; i++) c.fx[i].cnt = 0;
    (*d.sig)(n);
    int a = v == 2 ? 0 : 1, r = v == 1 || v == 2 || v == 8 ? 0 : 1, z = v == 2 || v == 5 ? 0 : 1, x = v == 3 || v == 8 ? 1 : 0;
    if(GOT(0) != a || GOT(1) != r || GOT(2) != z || GOT(3) != x) h_big(v == 5 ? 4 : v == 4 ? 11 : v == 7 ? 16 : r ? 1 : 2, "wrong-calls", "after deep recursion (depth %d) an invocation called the wrong slots", n);
    if((int)d.sig->num_slots() != a + r + (v == 2 ? 0 : 1) + x) h_big(13, "num_slots", "after deep recursion (depth %d) num_slots() is wrong", n);
    if(v == 5) { d.blk->unblock(); GOT(2) = 0; (*d.sig)(n); if(GOT(2) != 1) h_big(4, "still-blocked", "a slot blocked at depth %d is not called after the block was released", n); }
    d.sig->disconnect_all_slots();
    for(int i = 0; i < 4; i++) if(c.fx[i].copies) h_big(8, "not-released", "after deep recursion slot %d is not released by its disconnection", i);
  }
  #undef GOT
}
typedef signal<int(int)> Dflt; template<class A, class B> struct Same { static const bool value = false; }; template<class A> struct Same<A, A> { static const bool value = true; };
template<class S> struct Desc { static const bool value = false; };
struct WRec { int zone, group, cls; long key; int live, how; };
inline int gval(int g, int ng, int spread) { return spread ? (int)(-2147483648LL + (ng > 1 ? (long long)g * (4294967295LL / (ng - 1)) : 4294967295LL)) : g; }
template<class S> void wide(int n, unsigned seed) {
  Lcg l = {seed}; int rounds = 1 + l.below(3), total = n, ng = 1 + l.below(l.below(2) ? 5 : n), nc = 1 + l.below(l.below(2) ? 4 : n), gm = l.below(4), sp = l.below(3) == 0;
  Ctl c(total, total * 2); WRec* r = (WRec*)rt::raw_alloc(sizeof(WRec) * total); connection* h = new connection[total]; int* ord = (int*)rt::raw_alloc(sizeof(int) * (total + 1)); int made = 0;
  { S sig;
  for(int rd = 0; rd < rounds; rd++) {
    int upto = rd + 1 == rounds ? total : made + (total - made) * (1 + l.below(3)) / 4;
    for(; made < upto; made++) {
      int g = gm == 0 ? 0 : gm == 1 ? 1 : l.below(2), front = l.below(3) == 0; WRec& w = r[made]; w.cls = l.below(nc); w.live = 1; w.how = 0; w.group = g ? l.below(ng) : -1;
      w.zone = g ? 1 : front ? 0 : 2; w.key = front ? -(long)made - 1 : made + 1;
      BFn f(c, made, w.cls);
      h[made] = g ? front ? sig.connect(gval(w.group, ng, sp), f, at_front) : sig.connect(gval(w.group, ng, sp), f) : front ? sig.connect(f, at_front) : sig.connect(f);
    }
    for(int pass = 0; pass < 2; pass++) {
      int no = 0; for(int i = 0; i < made; i++) if(r[i].live) { int p = no++; while(p > 0) { WRec& a = r[ord[p - 1]]; WRec& b = r[i]; bool less = b.zone != a.zone ? b.zone < a.zone : b.group != a.group ? (b.group < a.group) != Desc<S>::value : b.key < a.key; if(!less) break; ord[p] = ord[p - 1]; --p; } ord[p] = i; }
      if((int)sig.num_slots() != no) h_big(13, "num_slots", "wide signal: num_slots() is not the number of connected slots (%d)", no);
      if(sig.empty() != (no == 0)) h_big(13, "empty", "wide signal: empty() is wrong with %d slots", no);
      c.nseq = 0; for(int i = 0; i < made; i++) c.fx[i].cnt = 0;
      sig(rd);
      int bad = 0; for(int i = 0; i < made && !bad; i++) { if(c.fx[i].cnt && !r[i].live) { bad = 1; h_big(r[i].how == 1 ? 3 : 2, "ran-after-disconnect", "wide signal: disconnected slot %d was called", i); } else if(c.fx[i].cnt != r[i].live) { bad = 1; h_big(r[i].how == 2 ? 3 : 1, "missed-call", "wide signal: slot %d was not called exactly once", i); } }
      if(!bad) for(int i = 0; i < no; i++) if(c.seq[i] != ord[i]) { h_big(5, "order", "wide signal: the order of the calls is wrong from position %d on", i); break; }
      for(int i = 0; i < made; i++) if(h[i].connected() != (r[i].live != 0)) { h_big(13, "connected", "wide signal: connected() of slot %d is wrong", i); break; }
      for(int i = 0; i < made; i++) if(!r[i].live && c.fx[i].copies) { h_big(8, "not-released", "wide signal: the function object of disconnected slot %d still exists", i); break; }
      if(pass) break;
      int how = l.below(4);
      if(how == 0) { int p = 1 + l.below(4); for(int i = 0; i < made; i++) if(l.below(4) < p) { h[i].disconnect(); r[i].live = 0; r[i].how = 0; } }
      else if(how == 1) { int k = 1 + l.below(3); while(k--) { int g = l.below(ng); sig.disconnect(gval(g, ng, sp)); for(int i = 0; i < made; i++) if(r[i].group == g) { r[i].live = 0; r[i].how = 1; } else if(r[i].live) r[i].how = 2; } }
      else if(how == 2) { int k = 1 + l.below(3); while(k--) { int q = l.below(nc); Ctl t(1, 0); sig.disconnect(BFn(t, 0, q)); for(int i = 0; i < made; i++) if(r[i].cls == q) { r[i].live = 0; r[i].how = 1; } else if(r[i].live) r[i].how = 2; } }
    }
  }
  if(l.below(2)) { S other; other = std::move(sig); c.nseq = 0; other(1); int no = 0; for(int i = 0; i < made; i++) no += r[i].live; if(c.nseq != no) h_big(16, "move", "wide signal: a moved signal calls %d slots less or more", no - c.nseq); }
  }
  for(int i = 0; i < made; i++) if(c.fx[i].copies || h[i].connected()) { h_big(16, "not-released", "wide signal: slot %d outlives its signal", i); break; }
  delete[] h; rt::raw_free(r); rt::raw_free(ord);
}
// A storm: every slot may connect, disconnect, block, expire or recurse while it runs; the reference model is exact because one thread does it all.
enum { LIVE = 0, DEAD, GROUPED_OUT, GONE, NEVER };
template<class S> struct Storm {
  enum { MAXD = 4 };
  Ctl c; S sig; int n, made, ng, nc, gm, rate, quota; Lcg l; WRec* r; connection* h; shared_connection_block** b; boost::shared_ptr<int>* o; int* snap[MAXD]; int ns[MAXD], pos[MAXD]; int* at[MAXD]; int depth; int wantex; bool faults; bool bad; bool greater;
  Storm(int n_, unsigned seed): c(n_, 0), n(n_), made(0), rate(0), quota(0), depth(0), wantex(-1), faults(false), bad(false) {
    l.s = seed; ng = 1 + l.below(l.below(2) ? 4 : n); nc = 1 + l.below(l.below(2) ? 4 : n); gm = l.below(3); greater = Desc<S>::value; faults = l.below(2);
    r = (WRec*)rt::raw_alloc(sizeof(WRec) * n); b = (shared_connection_block**)rt::raw_alloc(sizeof(void*) * n); for(int d = 0; d < MAXD; d++) { snap[d] = (int*)rt::raw_alloc(sizeof(int) * (n + 1)); ns[d] = 0; }
    for(int i = 0; i < n; i++) b[i] = 0; h = new connection[n]; o = new boost::shared_ptr<int>[n]; c.self = this; c.script = &Storm::script; }
  ~Storm() { for(int i = 0; i < n; i++) delete b[i]; delete[] h; delete[] o; rt::raw_free(r); rt::raw_free(b); for(int d = 0; d < MAXD; d++) rt::raw_free(snap[d]); }
  bool less(int i, int j) const { const WRec& a = r[i]; const WRec& k = r[j]; return a.zone != k.zone ? a.zone < k.zone : a.group != k.group ? (a.group < k.group) != greater : a.key < k.key; }
  void fail(int prop, const char* cls, const char* f, int a) { if(!bad) h_big(prop, cls, f, a); bad = true; }
  void add() {
    if(made >= n) return; int i = made++; int g = gm == 0 ? 0 : gm == 1 ? 1 : l.below(2), front = l.below(3) == 0; WRec& w = r[i]; w.cls = l.below(nc); w.live = 1; w.how = LIVE; w.group = g ? l.below(ng) : -1; w.zone = g ? 1 : front ? 0 : 2; w.key = front ? -(long)i - 1 : i + 1;
    typename S::slot_type s(BFn(c, i, w.cls)); if(l.below(4) == 0) { o[i].reset(new int(i)); s.track(o[i]); }
    bool fault = faults && l.below(3) == 0; if(fault) rt::push_frame(-1, 0, rt::F_ALLOC_NTH, 1 + l.below(14), 0);
    bool failed = false;
    try { h[i] = g ? front ? sig.connect(w.group, s, at_front) : sig.connect(w.group, s) : front ? sig.connect(s, at_front) : sig.connect(s); } catch(const std::bad_alloc&) { failed = true; }
    if(fault) { bool fired = rt::top()->fired; rt::pop_frame(); if(failed && !fired) fail(12, "failure", "storm of changes: connect() failed although nothing it did failed (slot %d)", i); }
    if(failed) { w.live = 0; w.how = NEVER; }
  }
  void die(int i, int how) { if(r[i].live) { r[i].live = 0; r[i].how = how; } }
  void act() {
    int what = l.below(11), i = made ? l.below(made) : 0; if(!made && what < 8) what = 8;
    if(what < 3) { h[i].disconnect(); die(i, DEAD); if(!c.fx[i].run && c.fx[i].copies) fail(8, "not-released", "storm of changes: the function object of disconnected slot %d still exists", i); }
    else if(what == 3) { if(l.below(4) == 0) { int g = l.below(ng); sig.disconnect(g); for(int k = 0; k < made; k++) if(r[k].group == g) die(k, GROUPED_OUT); } }
    else if(what == 4) { if(l.below(4) == 0) { int q = l.below(nc); Ctl t(1, 0); sig.disconnect(BFn(t, 0, q)); for(int k = 0; k < made; k++) if(r[k].cls == q) die(k, GROUPED_OUT); } }
    else if(what == 5) { if(b[i]) { delete b[i]; b[i] = 0; } else b[i] = new shared_connection_block(h[i]); }
    else if(what == 6) { if(o[i] && !c.fx[i].run) { o[i].reset(); die(i, GONE); } }
    else if(what == 7) { if(h[i].connected() != (r[i].live != 0)) fail(13, "connected", "storm of changes: connected() of slot %d is wrong", i); if(h[i].blocked() != (!r[i].live || b[i])) fail(4, "blocked", "storm of changes: blocked() of slot %d is wrong", i); }
    else if(what == 8) { if(l.below(6) == 0) { int k = 0; for(int j = 0; j < made; j++) k += r[j].live; if((int)sig.num_slots() != k) fail(13, "num_slots", "storm of changes: num_slots() is not %d", k); } }
    else add();
  }
  bool eligible(int i) const { return r[i].live && !b[i]; }
  void invoke() {
    if(depth >= MAXD) return; int d = depth; int* sn = snap[d]; int no = 0;
    for(int i = 0; i < made; i++) if(r[i].live) { int p = no++; while(p > 0 && less(i, sn[p - 1])) { sn[p] = sn[p - 1]; --p; } sn[p] = i; }
    ns[d] = no; pos[d] = 0; ++depth; bool thrown = false; 
    try { sig(d); } catch(const UserEx& e) { thrown = true; if(e.id != wantex) fail(11, "exception", "storm of changes: another exception than that of slot %d arrived", wantex); wantex = -1; } catch(const expired_slot&) { thrown = true; if(Same<S, Dflt>::value) fail(11, "exception", "storm of changes: the default combiner let an expired_slot exception out", 0); }
    --depth; skip(d); if(wantex >= 0) { fail(11, "exception", "storm of changes: the exception of slot %d was lost", wantex); wantex = -1; }
    if(pos[d] < ns[d] && !thrown) fail(1, "missed-call", "storm of changes: slot %d was not called although it was connected and not blocked", sn[pos[d]]);
  }
  void skip(int d) { while(pos[d] < ns[d] && !eligible(snap[d][pos[d]])) pos[d]++; }
  static void script(Ctl& c, int id, int) {
    Storm& s = *static_cast<Storm*>(c.self); int d = s.depth - 1; if(s.bad) return;
    s.skip(d); 
    if(s.pos[d] < s.ns[d] && s.snap[d][s.pos[d]] == id) s.pos[d]++;
    else { int k = -1; for(int i = 0; i < s.ns[d]; i++) if(s.snap[d][i] == id) k = i; 
      if(k < 0) s.fail(s.r[id].how == NEVER ? 12 : s.r[id].live ? 6 : s.r[id].how == GONE ? 7 : 2, "wrong-call", s.r[id].live ? "storm of changes: slot %d was called by an invocation that began before it was connected" : "storm of changes: slot %d was called by an invocation that began after it was disconnected", id);
      else if(k < s.pos[d] && !s.r[id].live) s.fail(s.r[id].how == GONE ? 7 : s.r[id].how == GROUPED_OUT ? 3 : 2, "ran-after-disconnect", "storm of changes: slot %d was called after it was disconnected", id);
      else if(k < s.pos[d]) s.fail(s.b[id] ? 4 : 5, "wrong-call", s.b[id] ? "storm of changes: slot %d was called although it was blocked" : "storm of changes: slot %d was called twice or too late", id);
      else if(!s.r[id].live) s.fail(s.r[id].how == GONE ? 7 : 2, "ran-after-disconnect", "storm of changes: slot %d was called after it was disconnected", id);
      else { bool all = true; for(int i = s.pos[d]; i < k; i++) if(s.eligible(s.snap[d][i])) all = false; s.fail(s.b[id] ? 4 : all ? 5 : 1, "wrong-call", s.b[id] ? "storm of changes: slot %d was called although it was blocked" : "storm of changes: slot %d was called before another slot that should have been called first", id); } }
    if(s.l.below(100) < s.rate && s.quota > 0) { s.quota--; s.act(); if(s.l.below(12) == 0) s.invoke();
      if(s.bad) return; int t = s.l.below(150); if(t == 0) { s.wantex = id; throw UserEx{id}; } if(t < 3) { s.die(id, DEAD); throw expired_slot(); } }
  }
};
template<class S> void storm(int n, unsigned seed) {
  { Storm<S> s(n, seed); Ctl& c = s.c; int rounds = 2 + s.l.below(5), first = s.l.below(n + 1); for(int i = 0; i < first; i++) s.add();
  for(int i = 0; i < rounds && !s.bad; i++) { s.rate = s.l.below(3) ? s.l.below(60) : s.l.below(5); s.quota = n; s.invoke(); int k = s.l.below(8); while(k--) s.act(); }
  s.rate = 0; s.invoke();
  if(!s.bad) for(int i = 0; i < s.made; i++) if(!s.r[i].live && s.h[i].connected()) { s.fail(13, "connected", "storm of changes: dead slot %d counts as connected", i); break; }
  if(!s.bad) for(int i = 0; i < s.made; i++) if(!s.r[i].live && c.fx[i].copies) { s.fail(8, "not-released", "storm of changes: the function object of dead slot %d still exists", i); break; }
  }
}
template<class S> void blocks(int n, unsigned seed) {
  Lcg l = {seed}; Ctl c(1, 0); S sig; connection k = sig.connect(BFn(c, 0, 0)); shared_connection_block* b = new shared_connection_block[n]; char* on = (char*)rt::raw_alloc(n); int cnt = 0;
  for(int i = 0; i < n; i++) { bool s = l.below(8) != 0; b[i] = shared_connection_block(k, s); on[i] = s; cnt += s; }
  int ops = n + l.below(2 * n), drain = l.below(2);
  for(int o = 0; o < ops + n; o++) {
    int i = o < ops ? l.below(n) : o - ops, what = o >= ops || drain ? (o & 1 ? 1 : 3) : l.below(4);
    if(what == 0) { b[i].block(); cnt += !on[i]; on[i] = 1; } else if(what == 1) { b[i].unblock(); cnt -= on[i]; on[i] = 0; }
    else if(what == 2) { int j = l.below(n); b[i] = b[j]; cnt += on[j] - on[i]; on[i] = on[j]; } else { b[i] = shared_connection_block(k, false); cnt -= on[i]; on[i] = 0; }
    if(b[i].blocking() != (on[i] != 0)) { h_big(4, "blocking", "many blocks: blocking() of block %d is wrong", i); break; }
    if(k.blocked() != (cnt > 0)) { h_big(4, "blocked", cnt ? "many blocks: the connection is not blocked although %d blocks are active" : "many blocks: the connection is blocked although no block is active", cnt); break; }
    if(o % 16 == 0 || cnt <= 1) { c.fx[0].cnt = 0; sig(1); if(c.fx[0].cnt != (cnt == 0)) { h_big(4, "ran-blocked", cnt ? "many blocks: the slot ran although %d blocks are active" : "many blocks: the slot did not run although no block is active", cnt); break; } }
  }
  if(!k.connected()) h_big(4, "connected", "many blocks: the connection was disconnected", 0);
  delete[] b; rt::raw_free(on);
}
struct TObj { Ctl* c; int* dead; int i; TObj(Ctl& k, int* d, int x): c(&k), dead(d), i(x) { dead[i] = 0; }
  ~TObj() { dead[i]++; if(c->fx[0].run) h_big(7, "tracked-died", "many tracked objects: object %d was destroyed while the slot that tracks it was running", i); if(h_big_lock()) h_big(9, "lock-held", "many tracked objects: the destructor of object %d ran while the calling thread held a lock internal to the library", i); } };
struct Trk { boost::shared_ptr<TObj>* bp; std::shared_ptr<TObj>* sp; int victim, n; bool in; };
void trk_script(Ctl& c, int, int) { Trk& t = *static_cast<Trk*>(c.self); if(t.in && t.victim >= 0) { int v = t.victim; t.victim = -1; t.bp[v].reset(); t.sp[v].reset(); } }
template<class S> void tracked(int n, unsigned seed) {
  Lcg l = {seed}; Ctl c(1, 0); int* dead = (int*)rt::raw_alloc(sizeof(int) * n); Trk t; t.bp = new boost::shared_ptr<TObj>[n]; t.sp = new std::shared_ptr<TObj>[n]; t.n = n; t.in = l.below(2); c.self = &t; c.script = &trk_script;
  { S sig; connection k; int mode = l.below(3), place = l.below(4), v = place == 0 ? 0 : place == 1 ? n - 1 : l.below(n);
  t.victim = -1;
  { typename S::slot_type s(BFn(c, 0, 0));
  for(int i = 0; i < n; i++) { bool st = mode == 0 ? false : mode == 1 ? true : l.below(2); if(st) { t.sp[i].reset(new TObj(c, dead, i)); s.track_foreign(t.sp[i]); } else { t.bp[i].reset(new TObj(c, dead, i)); s.track(t.bp[i]); } }
  k = sig.connect(s); }
  sig(1); if(c.fx[0].cnt != 1) h_big(1, "missed-call", "many tracked objects: a slot that tracks %d living objects was not called", n);
  for(int i = 0; i < n; i++) if(t.bp[i].use_count() > 1 || t.sp[i].use_count() > 1) { h_big(7, "tracked-held", "many tracked objects: object %d is still owned after the invocation", i); break; }
  t.victim = v; if(!t.in) { t.bp[v].reset(); t.sp[v].reset(); if(dead[v] != 1) h_big(7, "tracked-held", "many tracked objects: object %d is owned by the library", v); }
  sig(2); if(c.fx[0].cnt != (t.in ? 2 : 1)) h_big(7, "tracked-dead", "many tracked objects: the slot was called wrongly after object %d was destroyed", v);
  if(dead[v] != 1) h_big(7, "tracked-held", "many tracked objects: object %d is owned by the library", v);
  sig(3); if(c.fx[0].cnt != (t.in ? 2 : 1)) h_big(7, "tracked-dead", "many tracked objects: the slot was called after object %d was destroyed", v);
  if(k.connected() || sig.num_slots()) h_big(13, "connected", "many tracked objects: the slot counts as connected after object %d was destroyed", v);
  if(c.fx[0].copies) h_big(8, "not-released", "many tracked objects: the function object still exists after object %d was destroyed", v);
  }
  delete[] t.bp; delete[] t.sp; for(int i = 0; i < n; i++) if(dead[i] != 1) { h_big(7, "tracked-held", "many tracked objects: object %d was not destroyed", i); break; }
  rt::raw_free(dead);
}
template<class S> void chain(int n, unsigned seed) {
  Lcg l = {seed}; Ctl c(1, 0); S** s = (S**)rt::raw_alloc(sizeof(S*) * (n + 1)); for(int i = 0; i <= n; i++) s[i] = new S;
  bool rev = l.below(2); for(int k = 0; k < n; k++) { int i = rev ? n - 1 - k : k; s[i]->connect(*s[i + 1]); }
  s[n]->connect(BFn(c, 0, 0));
  (*s[0])(5); if(c.fx[0].cnt != 1) h_big(1, "missed-call", "chain of signals: the slot at the end of %d signals was not called exactly once", n);
  int m = 1 + l.below(n), how = l.below(3);
  if(how == 0) { delete s[m]; s[m] = 0; } else if(how == 1) s[m - 1]->disconnect(*s[m]); else { S* x = new S(std::move(*s[m])); delete s[m]; s[m] = x; }
  (*s[0])(6); int want = how == 2 ? 2 : 1;
  if(c.fx[0].cnt != want) h_big(how == 1 ? 3 : 16, "chain", how == 2 ? "chain of signals: a call does not pass a moved signal (number %d)" : "chain of signals: a call passes a signal that is gone (number %d)", m);
  if((int)s[m - 1]->num_slots() != (how == 2)) h_big(13, "num_slots", "chain of signals: num_slots() of signal %d is wrong", m - 1);
  if(l.below(2)) for(int i = 0; i <= n; i++) delete s[i]; else for(int i = n; i >= 0; i--) delete s[i];
  if(c.fx[0].copies) h_big(16, "not-released", "chain of signals: the slot outlives its signal", 0);
  rt::raw_free(s);
}
template<class S> void handles(int n, unsigned seed) {
  Lcg l = {seed}; Ctl c(2, 0); S sig; connection k = sig.connect(BFn(c, 0, 0)), o = sig.connect(BFn(c, 1, 1)); connection* h = new connection[n]; char* is = (char*)rt::raw_alloc(n); for(int i = 0; i < n; i++) { h[i] = k; is[i] = 1; }
  for(int x = 0; x < 2 * n; x++) { int i = l.below(n), j = l.below(n); switch(l.below(5)) {
    case 0: h[i] = h[j]; is[i] = is[j]; break; case 1: { char t = is[j]; if(i != j) { h[i] = std::move(h[j]); is[j] = 0; is[i] = t; } break; }
    case 2: { using std::swap; swap(h[i], h[j]); swap(is[i], is[j]); break; } case 3: { scoped_connection sc(h[i]); if(l.below(2)) { connection y = sc.release(); h[j] = y; is[j] = is[i]; } else { scoped_connection sd(std::move(sc)); sd.release(); } break; } case 4: h[i] = l.below(2) ? o : k; is[i] = h[i] == k ? 1 : 2; break; } }
  if(!k.connected() || !o.connected()) h_big(15, "disconnected", "many handles: copying, moving or swapping handles disconnected the connection", 0);
  sig(1); if(c.fx[0].cnt != 1 || c.fx[1].cnt != 1) h_big(1, "missed-call", "many handles: a slot was not called exactly once", 0);
  int w = -1; for(int i = 0; i < n; i++) if(is[i] == 1) { w = i; if(!l.below(3)) break; }
  for(int i = 0; i < n; i++) if((h[i] == k) != (is[i] == 1) || (h[i] == o) != (is[i] == 2) || (h[i] < k && k < h[i])) { h_big(15, "compare", "many handles: handle %d compares wrongly", i); break; }
  if(w >= 0) h[w].disconnect(); else k.disconnect();
  for(int i = 0; i < n; i++) if(h[i].connected() != (is[i] == 2)) { h_big(15, "connected", "many handles: handle %d does not see the disconnection of another handle", i); break; }
  if(c.fx[0].copies) h_big(8, "not-released", "many handles: the function object of a disconnected slot still exists", 0);
  sig(2); if(c.fx[0].cnt != 1 || c.fx[1].cnt != 2) h_big(2, "ran-after-disconnect", "many handles: the wrong slots were called after a disconnection", 0);
  delete[] h; rt::raw_free(is);
}
typedef signal<int(int)> Sd;
template<class S> struct Ch { typedef S type; };
template<> struct Ch<Sd> { typedef signal<int(int), Comb> type; };
typedef signal<int(int), Comb, int, std::greater<int> > Sg;
template<> struct Desc<Sg> { static const bool value = true; };
template<class S> void one(int kind, int n, unsigned seed) { switch(kind) { case 0: deep<S>(n, seed); break; case 1: wide<S>(n, seed); break; case 2: blocks<S>(n, seed); break; case 3: tracked<S>(n, seed); break; case 4: chain<typename Ch<S>::type>(n, seed); break; case 6: storm<S>(n, seed); break; default: handles<S>(n, seed); } }
typedef signal<int(int), Comb, int, std::less<int>, boost::function<int(int)>, boost::function<int(const connection&, int)>, SimMutex> Sm;
typedef signal<int(int), Comb, int, std::less<int>, boost::function<int(int)>, boost::function<int(const connection&, int)>, dummy_mutex> Sn;
}
int big_run(int kind, int n, unsigned seed, int st) {
  try { if(st == 0) one<Sd>(kind, n, seed); else if(st == 1) one<Sm>(kind, n, seed); else if(st == 3) one<Sg>(kind, n, seed); else one<Sn>(kind, n, seed); return X_NONE; } catch(...) { return classify(); }
}
