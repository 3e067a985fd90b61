// C18: life cycle of objects made by deconstruct() / deconstruct_ptr(). The model
// is one small state machine per object plus the set of owners the program holds.
#include "world.hpp"
#include "xapi.hpp"
using namespace rt;
namespace {
const Mask M18 = P(PB_DECON);
enum { O_MAKE, O_POST, O_DROPINV, O_COPY, O_DROP, O_TOUCH, O_WEAK, O_SIGNAL, O_KINDS };
const char* onames[O_KINDS] = {"make","postconstruct","drop-invoker","copy","drop","touch","weak-lock","invoke"};
const char* dknames[DK_KINDS] = {"plain","shared_from_this","legacy bases","predestructible only","no predestruct","const","private","aligned","forwarding","deconstruct_ptr","deconstruct_ptr(deleter)","deconstruct_ptr(null)","deconstruct_ptr(no bases)","deconstruct_ptr(pre only)","deconstruct_ptr(post only)"};
struct Ob { int kind, var; const void* self; bool ctor; int posts, attempts, pre, dtor, deleter; bool posting; int owners; int slots; bool throwall; };
struct Vr { int ob; bool busy; int owner; int inv; bool ref[ND_REF]; };
struct Cur { bool on; int var, kind; int n; int a[9]; int pn; int pa[9]; int ctor_throw, post_throw, sig; int ctors; int ob; bool expect_post; };
struct St { Vec<Ob> obs; Vr v[NDV]; Cur c[MAXT]; const Plan* p; int faults, made, wkdead; };
St* w;
bool has_pre(int k) { return k != DK_NOPRE && k != DK_PTR_PLAIN && k != DK_PTR_DEL && k != DK_PTR_POST; }
bool has_post(int k) { return k != DK_PREONLY && k != DK_PTR_PLAIN && k != DK_PTR_PRE; }
void bad(const char* cls, const Str& m) { report(M18, cls, m); }
Str nm(int ob) { if(ob < 0) return "(none)"; return fmt("object #%d (%s)", ob, dknames[w->obs[ob].kind]); }
// an owner the program certainly holds forbids destruction
void own(int ob, int d) { if(ob >= 0) w->obs[ob].owners += d; }
void check_gone(int ob, const char* when) { if(ob < 0) return; Ob& o = w->obs[ob]; if(o.ctor && !o.dtor) bad("not-destroyed", nm(ob) + " was not destroyed when its last owner was released (" + when + ")"); }
int drop_ref(int v, int r) { Vr& x = w->v[v]; if(!x.ref[r]) return 0; x.ref[r] = false; own(x.ob, -1); int e = d_drop(v, r); return e; }
bool any_ref(int v) { for(int r = 0; r < ND_REF; r++) if(w->v[v].ref[r]) return true; return w->v[v].inv; }
void exec(const Item& i, int t) {
  int v = i.a[0] % NDV; Vr& x = w->v[v]; Cur& c = w->c[t];
  switch(i.kind) {
    case O_MAKE: {
      if(x.busy || x.owner != t) return; if(t && x.owner == 0) return;
      int kind = i.a[1] % DK_KINDS; int mode = i.a[2] & 3; int n = i.a[3] % 10; int pn = i.a[4] % 10; int thr = i.a[5]; 
      if(kind == DK_FWD) { n = 1; pn = 0; } if(kind >= DK_PTR) { n = 0; pn = 0; if(mode > 1) mode = 0; if(kind == DK_PTR_NULL) n = i.a[3] & 1; } if(kind == DK_LEGACY || kind == DK_PREONLY) pn = 0; if(mode == 0) pn = 0;
      c.on = true; c.var = v; c.kind = kind; c.n = kind == DK_PTR_NULL ? 0 : n; c.pn = pn; for(int k = 0; k < 9; k++) { c.a[k] = i.id * 100 + k; c.pa[k] = i.id * 100 + 50 + k; }
      c.ctor_throw = thr == 1; c.post_throw = thr == 2; c.sig = i.a[6] && has_post(kind) && kind < DK_MAKE_KINDS && kind != DK_LEGACY; c.ctors = 0; c.ob = -1; c.expect_post = mode < 2;
      size_t lb = live_blocks(); bool nul = true; w->made++;
      if(mode < 2 || mode == 2) x.busy = true; x.ob = -1;
      int e = d_make(v, kind, mode, n, c.a, pn, c.pa, t, &nul);
      int ob = c.ob; c.on = false; CNT("op.deconstruct");
      Frame* f = top(); bool fired = f->fired;
      if(kind == DK_PTR_NULL) { if(e && !fired) bad("exception", fmt("deconstruct_ptr(null) threw (%d)", e)); if(!nul) bad("null", "deconstruct_ptr(null) returned a non-null pointer"); x.busy = false; return; }
      if(e == XX_NONE) {
        if(ob < 0) { bad("no-object", fmt("%s returned normally but constructed nothing", dknames[kind])); x.busy = false; return; }
        Ob& o = w->obs[ob];
        if(thr == 1) bad("exception-lost", "the constructor's exception did not reach the caller");
        if(mode < 2 && has_post(kind) && o.posts != 1) bad("post-missing", fmt("%s was handed out after %d completed postconstructor calls", nm(ob).c_str(), o.posts));
        if(mode >= 2 && kind < DK_MAKE_KINDS && o.attempts) bad("post-early", nm(ob) + " was postconstructed before the invoker was asked for its pointer");
        if(mode == 3) check_gone(ob, "invoker discarded");
        if(mode == 2 && !in_threads() && !fired && kind < DK_MAKE_KINDS && live_blocks() - lb != 1) bad("allocations", fmt("%s needed %zu allocations", dknames[kind], live_blocks() - lb));
        if(mode < 2) { x.ob = ob; x.ref[0] = true; own(ob, 1); if(t) { x.ref[t] = true; own(ob, 1); } }
        else if(mode == 2) { x.ob = ob; x.inv = 1; own(ob, 1); }
        else x.busy = false;
      } else {
        x.busy = false;
        if(e == XX_CTOR) { if(thr != 1) bad("exception", "unexpected constructor exception"); if(ob >= 0 ) bad("ctor-throw", "object survived its constructor's exception"); }
        else if(e == XX_POST) { if(thr != 2) bad("exception", "unexpected postconstructor exception"); }
        else if(e == XX_BADALLOC) { if(!fired) bad("exception", "bad_alloc without an injected failure"); else w->faults++; }
        else bad("exception", fmt("%s threw something unexpected", dknames[kind]));
        if(e == XX_BADALLOC && ob < 0 && c.ctors && kind < DK_MAKE_KINDS) {}
        if(!c.sig && ob >= 0) check_gone(ob, "creation failed"); 
      }
      break; }
    case O_POST: {
      if(x.owner != t || !x.inv) return; int ob = x.ob; Ob& o = w->obs[ob]; int kind = o.kind; int pn = i.a[4] % 11 - 1; if(kind == DK_LEGACY || kind == DK_PREONLY || kind == DK_FWD) pn = i.a[4] & 1 ? 0 : -1;
      c.on = true; c.var = v; c.kind = kind; c.pn = pn < 0 ? 0 : pn; for(int k = 0; k < 9; k++) c.pa[k] = i.id * 100 + 50 + k; c.post_throw = i.a[5] == 2; c.ctor_throw = 0; c.sig = 0; c.ob = ob; c.expect_post = true;
      int posts0 = o.posts, att0 = o.attempts; bool same = true; int e = d_post(v, pn, c.pa, t, &same); c.on = false; CNT("op.postconstruct"); Ob& o2 = w->obs[ob];
      if(e == XX_NONE) {
        if(!same) bad("null", "the invoker returned a null pointer");
        if(has_post(kind) && o2.posts != 1) bad("post-count", fmt("%s handed out after %d completed postconstructor calls", nm(ob).c_str(), o2.posts));
        if(posts0 && o2.attempts != att0) bad("post-again", nm(ob) + " was postconstructed again");
        if(!x.ref[0]) { x.ref[0] = true; own(ob, 1); } if(t && !x.ref[t]) { x.ref[t] = true; own(ob, 1); }
      } else if(e == XX_POST) { if(i.a[5] != 2) bad("exception", "unexpected postconstructor exception"); if(posts0) bad("post-again", nm(ob) + " was postconstructed again"); CNT("probe.post_retry_possible"); }
      else if(e == XX_BADALLOC) { if(!top()->fired) bad("exception", "bad_alloc without an injected failure"); w->faults++; }
      else bad("exception", "postconstruct threw something unexpected");
      break; }
    case O_DROPINV: { if(x.owner != t || !x.inv) return; x.inv = 0; own(x.ob, -1); int ob = x.ob; d_drop_inv(v); if(!in_threads() && !any_ref(v)) check_gone(ob, "invoker released"); break; }
    case O_COPY: { if(!x.ref[0]) return; int r = t ? t : 1 + i.a[1] % (ND_REF - 1); if(x.ref[r]) return; x.ref[r] = true; own(x.ob, 1); d_copy(v, 0, r); CNT("op.copy"); break; }
    case O_DROP: { int r = i.a[1] % 3 == 0 ? 0 : t; if(!t) r = i.a[1] % ND_REF; if(!x.ref[r]) return; int ob = x.ob; int e = drop_ref(v, r); CNT("op.drop"); if(e) bad("exception", "releasing an owner threw"); if(!in_threads() && !any_ref(v)) check_gone(ob, "last pointer released"); break; }
    case O_TOUCH: { if(!t || !x.ref[t]) return; if(!d_touch(v, t, t)) bad("corrupt", nm(x.ob) + " is damaged while owned"); CNT("op.touch"); break; }
    case O_WEAK: { if(!x.ref[0] && !t) return; if(x.ob < 0) return; int got = 0; int e = d_weak(v, t, &got); if(e) bad("exception", "a weak pointer's release threw"); if(got == 2) bad("corrupt", "a weak pointer gave out a destroyed object"); if(got == 1) CNT("probe.weak_alive"); break; }
    case O_SIGNAL: { int e = d_signal(); if(e && !(e == XX_BADALLOC && top()->fired)) bad("exception", "invoking the signal threw"); CNT("op.invoke"); break; }
  }
}
void run_ctx(int t, int ctx) { for(size_t k = 0; k < w->p->items.size(); k++) { const Item& i = w->p->items[k]; if(i.type != 'o' || i.ctx != ctx) continue; push_frame(i.id, i.kind, i.fk, i.fn, M18); if(trace_on) trace("op%d %s var%d %s mode%d thr%d", i.id, onames[i.kind], i.a[0] % NDV, i.kind == O_MAKE ? dknames[i.a[1] % DK_KINDS] : "", i.a[2] & 3, i.a[5]); point(USER); exec(i, t); pop_frame(); } }
void run_items(int t) { run_ctx(t, t); }
void body(const Plan& p) {
  St st; w = &st; st.p = &p; st.obs.reserve(p.items.size() + 8); st.faults = st.made = st.wkdead = 0; memset(st.v, 0, sizeof st.v); memset(st.c, 0, sizeof st.c); for(int v = 0; v < NDV; v++) { st.v[v].ob = -1; st.v[v].owner = p.get(v == 0 ? "own0" : v == 1 ? "own1" : v == 2 ? "own2" : "own3"); }
  push_frame(-1, 0, 0, 0, M18); d_setup(); pop_frame();
  for(int v = 0; v < NDV; v++) st.v[v].owner = 0;
  run_items(0);                                     // ctx 0: before the threads
  for(int v = 0; v < NDV; v++) st.v[v].owner = p.get(v == 0 ? "own0" : v == 1 ? "own1" : v == 2 ? "own2" : "own3");
  if(p.get("threads") > 0) threads(p.get("threads"), run_items);
  for(int v = 0; v < NDV; v++) st.v[v].owner = 0;
  run_ctx(0, 9);                                     // ctx 9: afterwards
  // settle: release everything one by one; every object must die exactly with its last owner
  push_frame(-1, 0, 0, 0, M18);
  { int e = d_signal(); if(e) bad("exception", "invoking the signal threw"); }
  for(int v = 0; v < NDV; v++) { int ob = st.v[v].ob; if(st.v[v].inv) { st.v[v].inv = 0; own(ob, -1); d_drop_inv(v); if(!any_ref(v)) check_gone(ob, "invoker released"); }
    for(int r = 0; r < ND_REF; r++) if(st.v[v].ref[r]) { Ob& o = st.obs[ob]; if(o.pre || o.dtor) bad("early-destroy", nm(ob) + " was destroyed while owned"); drop_ref(v, r); if(!any_ref(v)) check_gone(ob, "last pointer released"); } }
  { int e = d_signal(); if(e) bad("exception", "invoking the signal threw"); }
  d_reset(); pop_frame();
  for(size_t k = 0; k < st.obs.size(); k++) { Ob& o = st.obs[k]; if(!o.ctor) continue;
    if(o.dtor != 1) bad("dtor-count", nm((int)k) + fmt(" was destroyed %d times", o.dtor));
    if(o.pre != (has_pre(o.kind) ? 1 : 0)) bad("pre-count", nm((int)k) + fmt(" was predestructed %d times", o.pre));
    if(o.posts > 1) bad("post-count", nm((int)k) + fmt(" was postconstructed %d times", o.posts));
    if(o.kind == DK_PTR_DEL && o.deleter != 1) bad("deleter-count", fmt("the custom deleter ran %d times", o.deleter));
    mix(o.kind * 31 + o.posts * 7 + o.attempts); }
  if(size_t lk = leaked_blocks()) report(M18, "leak", "memory left after the run:" + describe_leaks(5));
}
}
int h_d_ctor(const void* self, int n, const int* a) {
  Cur& c = w->c[tid()]; point(USER);
  if(!c.on) { bad("ctor-extra", "an object was constructed outside deconstruct()"); }
  if(c.ctors++) bad("ctor-count", "one deconstruct() call constructed more than one object");
  if(n != c.n && c.kind != DK_FWD) bad("args", fmt("constructor received %d arguments instead of %d", n, c.n)); else for(int k = 0; k < n; k++) if(a[k] != c.a[k]) bad("args", fmt("constructor argument %d arrived as %d instead of %d", k, a[k], c.a[k]));
  if(c.ctor_throw) { CNT("fault.ctor_throw"); top()->mask |= M18; return -1; }
  Ob o; memset(&o, 0, sizeof o); o.kind = c.kind; o.var = c.var; o.self = self; o.ctor = true; w->obs.push_back(o); c.ob = (int)w->obs.size() - 1; d_bind(c.var, self);
  return c.ob;
}
void h_d_dtor(int id, bool ok) { if(id < 0) return; Ob& o = w->obs[id]; point(USER); if(!ok) bad("corrupt", nm(id) + " is damaged at destruction");
  if(++o.dtor > 1) bad("dtor-count", nm(id) + " was destroyed twice");
  if(has_pre(o.kind) && o.pre != 1) bad("pre-missing", nm(id) + fmt(" was destroyed after %d predestructor calls", o.pre));
  if(o.owners > 0) bad("early-destroy", nm(id) + " was destroyed while owned"); if(o.slots) bad("early-destroy", nm(id) + " was destroyed while a slot tracking it was running"); if(o.posting) bad("early-destroy", nm(id) + " was destroyed during its postconstructor"); }
int h_d_post(int id, const void* spget, const void* raw, int n, const int* a, bool extra) {
  Ob& o = w->obs[id]; Cur& c = w->c[tid()]; o.attempts++;
  if(!c.on || c.ob != id || !c.expect_post) bad("post-unexpected", nm(id) + " was postconstructed by nobody's request");
  if(o.pre || o.dtor) bad("post-late", nm(id) + " was postconstructed after it was destroyed"); if(o.posts) bad("post-again", nm(id) + " was postconstructed again");
  if(o.kind < DK_MAKE_KINDS && o.kind != DK_LEGACY && (spget != raw || !spget)) bad("post-args", nm(id) + ": the postconstructor received pointers that differ");
  if(!extra) bad("post-args", nm(id) + ": the object is not reachable through its shared_ptr in the postconstructor");
  if(c.on && o.kind != DK_LEGACY && o.kind < DK_MAKE_KINDS) { if(n != c.pn) bad("args", fmt("postconstructor received %d arguments instead of %d", n, c.pn)); else for(int k = 0; k < n; k++) if(a[k] != c.pa[k]) bad("args", fmt("postconstructor argument %d arrived as %d instead of %d", k, a[k], c.pa[k])); }
  o.posting = true; CNT("probe.postconstructed"); int r = (c.post_throw ? 1 : 0) | (c.sig ? 2 : 0); if(r & 1) { o.posting = false; CNT("fault.post_throw"); } if(r & 2) { o.posting = false; CNT("probe.connect_in_post"); } return r;
}
void h_d_post_ok(int id) { Ob& o = w->obs[id]; o.posting = false; o.posts++; }
void h_d_pre(int id, const void* raw, bool ok) { Ob& o = w->obs[id]; CNT("probe.predestructed"); if(!ok || o.dtor) bad("pre-late", nm(id) + " was predestructed after its destructor"); if(raw != o.self && o.kind != DK_LEGACY && o.kind != DK_PRIVATE && o.kind != DK_PREONLY) bad("pre-args", "the predestructor received a different pointer");
  if(++o.pre > 1) bad("pre-count", nm(id) + " was predestructed twice"); if(!has_pre(o.kind)) bad("pre-count", nm(id) + " was predestructed although its deleter must not"); if(o.owners > 0) bad("early-destroy", nm(id) + " was predestructed while owned"); if(o.slots) bad("early-destroy", nm(id) + " was predestructed while a slot tracking it was running"); }
void h_d_deleter(int id) { if(id >= 0) w->obs[id].deleter++; }
void h_d_slot(int id, bool ok) { Ob& o = w->obs[id]; o.slots++; CNT("probe.slot_ran"); if(!ok || o.pre || o.dtor) bad("slot-late", "a slot tracking " + nm(id) + " ran after it was destroyed"); }
void h_d_slot_leave(int id) { w->obs[id].slots--; }
bool h_d_bad(const char* s) { bad("contract", s); return false; }
static void generate(Plan& p) {
  Rng r(p.seed * 0x9E3779B97F4A7C15ull + 18); r.next(); r.next();
  int nt = r.chance(1, 4) ? 1 : r.range(2, 4); p.set("threads", nt); bool faults = r.chance(1, 2); bool sig = r.chance(1, 2); int id = 0;
  const char* on[] = {"own0","own1","own2","own3"}; for(int v = 0; v < NDV; v++) p.set(on[v], r.range(1, nt));
  for(int ph = 0; ph <= nt + 1; ph++) { int ctx = ph == nt + 1 ? 9 : ph; int n = ph == 0 ? r.range(1, 5) : ctx == 9 ? r.range(0, 4) : r.range(1, 6);
    for(int k = 0; k < n; k++) { Item i; memset(&i, 0, sizeof i); i.type = 'o'; i.id = id++; i.ctx = ctx; int x = r.below(100);
      i.kind = ph == 0 ? (x < 75 ? O_MAKE : x < 90 ? O_POST : O_COPY) : x < 30 ? O_MAKE : x < 42 ? O_POST : x < 47 ? O_DROPINV : x < 60 ? O_COPY : x < 78 ? O_DROP : x < 84 ? O_TOUCH : x < 92 ? O_WEAK : O_SIGNAL;
      i.a[0] = r.below(NDV); if(i.kind == O_MAKE && ph >= 1 && ctx != 9) for(int q = 0; q < 3 && p.get(on[i.a[0]]) != ctx; q++) i.a[0] = r.below(NDV);
      i.a[1] = r.chance(2, 3) ? r.below(DK_MAKE_KINDS) : r.below(DK_KINDS); if(i.kind != O_MAKE) i.a[1] = r.below(12); i.a[2] = r.below(4); if(i.a[2] == 3 && r.chance(1, 2)) i.a[2] = 2; i.a[3] = r.below(10); i.a[4] = r.below(11);
      i.a[5] = faults && r.chance(1, 4) ? r.range(1, 2) : 0; i.a[6] = sig && r.chance(1, 2); if(faults && (i.kind == O_MAKE || i.kind == O_POST) && r.chance(1, 4)) { i.fk = r.chance(1, 2) ? F_ALLOC_NTH : F_ALLOC_FROM; i.fn = r.range(1, i.a[6] ? 8 : 3); }
      p.items.push_back(i); } }
  p.set("steps_hint", 60 * (int)p.items.size());
}
static bool pok(const char*) { return true; }
static void nontrivial(const Plan& p, const Result& r, bool* o) { *o = w->made >= 1 && w->obs.size() >= 1 && (r.preempts >= 1 || w->faults || p.get("threads") == 1); }
World decon_world = {"decon", pok, generate, body, nontrivial};
