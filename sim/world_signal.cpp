// The signals world: workload interpreter, history, oracles. Uninstrumented.
#include "world.hpp"
#include "sigapi.hpp"
#include <algorithm>
#include <exception>
using namespace rt;

enum Op {
  K_CONNECT=0, K_DISC, K_DISC_GROUP, K_DISC_FN, K_DISC_ALL, K_DISC_CHAIN, K_INVOKE, K_BLK_NEW, K_BLK_BLOCK, K_BLK_UNBLOCK,
  K_BLK_COPY, K_BLK_DEL, K_BLK_Q, K_Q_CONN, K_Q_BLOCKED, K_Q_NUM, K_Q_EMPTY, K_SETCOMB, K_GETCOMB, K_DROP,
  K_HV, K_SV, K_HV_Q, K_SV_Q, K_HV_DISC, K_SV_DISC, K_HV_EQ, K_SIG_NEW, K_SIG_DESTROY, K_SIG_MOVE, K_SIG_SWAP,
  K_SLOT_MAKE, K_SLOT_CALL, K_SLOT_Q, K_SLOT_DROP, K_EXT_DISC, K_EXT_Q, K_BLK_SCOPE, K_CHURN, K_YIELD, K_BLK_EXT, K_SLOT_ASSIGN, K_BIG, K_KINDS
};
static const char* op_names[] = {"connect","disconnect","disconnect_group","disconnect_functor","disconnect_all","disconnect_signal","invoke","block_new","block","unblock",
  "block_copy","block_delete","blocking?","connected?","blocked?","num_slots?","empty?","set_combiner","get_combiner","drop_tracked",
  "handle_assign","scoped_op","handle_connected?","scoped_connected?","handle_disconnect","scoped_disconnect","handle_compare","signal_new","signal_destroy","signal_move","signal_swap",
  "slot_make","slot_call","slot_expired?","slot_drop","ext_disconnect_self","ext_connected?","scoped_block","churn","yield","ext_block_self","slot_assign","large_history"};
static Mask big_mask(int kind) { static const int m[7][3] = {{1,8,6},{1,5,3},{4,2,4},{7,8,7},{16,1,3},{15,8,2},{1,12,11}}; kind %= 7; return P(m[kind][0])|P(m[kind][1])|P(m[kind][2]); }
void h_big(int prop, const char* cls, const char* f, int arg) { report(P(prop), cls, fmt(f, arg)); }
bool h_big_lock() { point(); return held() != 0; }
static Mask kmask(int k) {
  switch(k) {
    case K_CONNECT: return P(1)|P(5)|P(12)|P(10);
    case K_DISC: case K_EXT_DISC: return P(2)|P(8);
    case K_DISC_GROUP: case K_DISC_FN: case K_DISC_ALL: case K_DISC_CHAIN: return P(2)|P(3);
    case K_INVOKE: return P(1)|P(6);
    case K_BLK_NEW: case K_BLK_BLOCK: case K_BLK_UNBLOCK: case K_BLK_COPY: case K_BLK_DEL: case K_BLK_Q: case K_BLK_SCOPE: case K_BLK_EXT: return P(4);
    case K_Q_CONN: case K_Q_BLOCKED: case K_Q_NUM: case K_Q_EMPTY: case K_EXT_Q: return P(13);
    case K_SETCOMB: case K_GETCOMB: return P(6)|P(14);
    case K_DROP: case K_SLOT_MAKE: case K_SLOT_CALL: case K_SLOT_Q: case K_SLOT_DROP: return P(7); case K_SLOT_ASSIGN: return P(7)|P(12);
    case K_HV: case K_SV: case K_HV_Q: case K_SV_Q: case K_HV_DISC: case K_SV_DISC: case K_HV_EQ: return P(15);
    case K_SIG_NEW: case K_SIG_DESTROY: case K_SIG_MOVE: case K_SIG_SWAP: return P(16);
    case K_CHURN: return P(17);
  }
  return 0;
}
const u64 INF = ~0ull;
#define CHURN_BOUND(live, other) ((size_t)(150 + 40 * (live) + 20 * (other)))

enum CauseKind { CK_DISC=0, CK_GROUP, CK_FN, CK_ALL, CK_CHAIN, CK_SCOPED, CK_EXPIRY, CK_DESTROY, CK_THROW, CK_SEENFALSE, CK_FAILED, CK_INNERGONE };
static Mask cause_mask(int k) {
  switch(k) { case CK_GROUP: case CK_FN: case CK_ALL: return P(2)|P(3); case CK_CHAIN: return P(2)|P(3)|P(16); case CK_SCOPED: return P(2)|P(15);
    case CK_EXPIRY: return P(2)|P(7); case CK_DESTROY: return P(2)|P(16); case CK_INNERGONE: return P(2)|P(7)|P(16); case CK_THROW: return P(2)|P(7)|P(11); case CK_SEENFALSE: return P(2)|P(13); }
  return P(2);
}
static const char* cause_names[] = {"connection::disconnect","disconnect(group)","disconnect(functor)","disconnect_all_slots","disconnect(signal)","scoped_connection","tracked object expiry","signal destruction","expired_slot thrown by the slot","connected() observed false","failed connect","destruction of the signal it chains to or tracks"};
struct Cause { u64 pb, de; int kind, op; };
struct Conn { ConnSpec sp; bool have=false; int sid=-1; u64 cb=0, ce=0; int st=0; Vec<Cause> causes; int copies=0; bool made=false, released=false; u64 relAt=0; u64 truth_at=0; bool truth=false; int running=0; bool dtor_ran=false; int execs=0; bool handled=false; bool dup=false; };  // dup: the same signal is connected to this one more than once, so executions cannot be told apart
struct SetRec { int ver; u64 b, e; bool failed; };
struct Sig { u64 created=0, db=INF, de=INF; Vec<SetRec> sets; bool moved=false; int fails=0; };
struct Exec { int conn, inv, tid; u64 b, e, P; int outcome, val; int chaininv; bool again = false; };
struct Inv { int sid, tid, op; u64 S, cb, E; int ver, mode; int outcome, exid; bool done, chained, fault, slotcall, rec; int root; Vec<int> execs; int lastval; int nok; int userthrow; int pexec; InvokeOut out; int cver; bool injected; bool cscript = false; };
struct BlkIv { int conn; u64 pb, db, de, pe; };     // possible from pb, definite (db,de), possible until pe
struct QRec { int kind, ix; u64 b, e; int res; int op; };
struct OpLog { int op, tid; u64 b, e; };
struct FrameI { int inv; bool in_deref; u64 P, derefb; int cur; int n0; int churn = 0; int retry = -1; };
struct TS { Vec<FrameI> st; int opdepth=0; int cur=-1; int invdepth=0; };
struct ObjM { bool have=false; int kind=0; int refs=0; bool ref[NREF]={false,false}; bool alive=false; u64 dead=0; u64 dropb=INF; bool dtor_ran=false; };
struct BlkM { bool exist=false; int conn=-1; int iv=-1; bool blocking=false; HB hb; bool busy=false; bool uncertain=false; };
struct HM { int c=-1; bool exist=false; bool busy=false; HB hb; };
struct SlotM { bool exist=false; int conn=-1; HB hb; bool busy=false; bool gone=false; };  // gone: an assignment to it failed half way

struct W {
  const Plan* p; SigApi* api; int cfg;
  Vec<Conn> c; Vec<Sig> s; Vec<Exec> ex; Vec<Inv> inv; Vec<BlkIv> bl; Vec<QRec> q; Vec<OpLog> ol;
  TS ts[MAXT]; ObjM o[NOBJ]; BlkM b[NBLK]; HM h[NH], sv[NS]; SlotM sl[NSLOT];
  int vsid[NVAR]; int vexcl[NVAR]; int vinfl[NVAR]; int vinvk[NVAR]; int vlock[NVAR]; int cmode[NVAR], cn[NVAR];
  Map<int, Vec<const Item*>> ctx; int budget; bool settle; int combver; HB setup_hb; int desc; bool desc0; u64 faultops; int opsdone; bool anyfault;
  HB churnhb; 
};
static W* w;

static void run_ctx(int ctx);
static void exec_op(const Item& it);

// ---- conn helpers -------------------------------------------------------------
// destroying a signal does not end its invocations: only destructions that began before `inprog` count
static u64 tmay(const Conn& c, u64 at, u64 inprog = INF) { u64 m = INF; for(auto& x : c.causes) { if(x.kind == CK_DESTROY && x.pb > inprog) continue; if(c.truth && x.pb <= c.truth_at && at > c.truth_at) continue; if(x.pb < m) m = x.pb; }
  return m; }
static const Cause* tmust(const Conn& c) { const Cause* r = 0; for(auto& x : c.causes) if(x.de != INF && (!r || x.de < r->de)) r = &x; return r; }
static const Cause* tmust_x(const Conn& c) { const Cause* r = 0; for(auto& x : c.causes) if(x.de != INF && x.kind != CK_EXPIRY && x.kind != CK_INNERGONE && (!r || x.de < r->de)) r = &x; return r; }
// the group comparison of each signal: two bits of "desc" per signal, 1 = descending, 2 = keys 2k and 2k+1 name the same group
static int gmode_of(int sid) { return w->desc0 ? 1 : (w->desc >> (2 * (sid % 4))) & 3; }
static int gclass(int sid, int g) { return gmode_of(sid) & 2 ? g / 2 : g; }
static void add_cause(int ci, u64 pb, u64 de, int kind, int op) { Cause x; x.pb = pb; x.de = de; x.kind = kind; x.op = op; w->c[ci].causes.push_back(x); }
static Str cname(int i) { return fmt("connection %d", i); }

// ---- hooks --------------------------------------------------------------------
static TS& me() { return w->ts[tid()]; }
static Mask curmask() { Mask m = 0; for(int i = 0; i < depth(); i++) m |= frame_at(tid(), i)->mask; return m; }
// The known finding of C09: when an allocation made under the library's lock fails, references
// held by the frames being unwound are released with the lock still held.
static bool oom_injected() { for(int i = depth() - 1; i >= 0; i--) { Frame* f = frame_at(tid(), i); if(f->op < 0) break; if(f->fired && (f->fk == F_ALLOC_NTH || f->fk == F_ALLOC_FROM)) return true; } return false; }
static bool fault_fired() { for(int i = depth() - 1; i >= 0; i--) { Frame* f = frame_at(tid(), i); if(f->op < 0) break; if(f->fired) return true; } return false; }
static bool oom_unwind() { return std::uncaught_exceptions() > 0 && oom_injected(); }
static void need_unlocked(const char* what, Mask extra) {
  CNT("probe.lockfree_checked");
  if(held() && oom_unwind()) { CNT("known.destroyed_under_lock_while_unwinding_bad_alloc"); return; }
  if(held()) fatal(P(9)|extra, "lock-held", Str(what) + " ran while the calling thread held a lock internal to the library");
}
void h_fn_new(int c) { if(c >= 0) { w->c[c].copies++; w->c[c].made = true; } }
void h_fn_copy(int c) { if(c < 0) return; if(fault_hit(F_COPY_NTH)) throw CopyEx(); w->c[c].copies++; }
void h_fn_dtor(int c, int running) {
  if(c < 0) return;
  if(running) fatal(P(8)|curmask(), "functor-lifetime", "the functor of " + cname(c) + " was destroyed while it was executing");
  Conn& x = w->c[c];
  if(held() && x.copies > 1 && !fault_fired()) fatal(P(9), "lock-held", "the destructor of a copy of the functor of " + cname(c) + " ran while the calling thread held a lock internal to the library");
  if(--x.copies == 0) {
    x.released = true; x.relAt = now();
    bool conn_op = false; for(int i = depth() - 1; i >= 0; i--) { Frame* f = frame_at(tid(), i); if(f->op >= 0) { conn_op = (f->kind == K_CONNECT && f->in_user == 0 && f->count >= -1 && w->c[c].st == 1) || f->kind == K_SLOT_MAKE; break; } }
    if(conn_op) return;
    need_unlocked("the destructor of a disconnected slot's functor", P(8));
    CNT("probe.functor_released");
    if(!x.dtor_ran && !w->settle && nopreempt_depth() == 0 && !held()) { x.dtor_ran = true; Conn* dummy = &x; (void)dummy; run_ctx(300 + c); }
  }
}
int h_run(int* c, int d) { return *c += d; }
bool h_cmp() { if(fault_hit(F_CMP_NTH)) throw CmpEx(); return true; }
void h_foreign_use(bool ok) { if(!ok) fatal(P(7)|P(10)|(w->anyfault ? P(12) : 0), "foreign-pointer", "a tracked pointer was used that does not exist any more"); }
void h_foreign_copy(bool ok) { h_foreign_use(ok); if(fault_hit(F_COPY_NTH)) throw CopyEx(); }
void h_grp_use(bool ok) { if(!ok) report(P(5)|P(10), "group-key", "a group key was used that does not exist any more"); }
void h_grp_copy(bool ok) { h_grp_use(ok); if(fault_hit(F_COPY_NTH)) throw CopyEx(); }
void h_comb_copy(int) { if(fault_hit(F_COPY_NTH)) throw CopyEx(); }
void h_comb_assign(int running) { if(running) fatal(P(6)|P(14), "combiner-modified", "a combiner was assigned to while an invocation was running it"); if(fault_hit(F_ASSIGN_NTH)) throw AssignEx(); }
void h_comb_dtor(int, int running) { if(running) fatal(P(6)|P(14), "combiner-destroyed", "a combiner was destroyed while an invocation was running it"); }
void h_comb_bad(const char* what) { report(P(14)|P(6), "combiner-contract", what); }

static int new_inv(int sid, u64 S, int op) { Inv v; v.sid = sid; v.tid = tid(); v.op = op; v.S = S; v.cb = 0; v.E = 0; v.ver = -1; v.mode = CM_ALL; v.outcome = X_NONE; v.exid = 0; v.done = v.chained = v.fault = v.slotcall = false; v.rec = w->api->has_rec(); v.root = (int)w->inv.size(); v.lastval = -1; v.nok = 0; v.userthrow = -1; v.pexec = -1; v.cver = -1; v.injected = false; w->inv.push_back(v); return (int)w->inv.size() - 1; }

void h_comb_begin(int sid, int ver, int mode, int n, const void*) {
  (void)n;
  TS& t = me();
  need_unlocked("a combiner", P(14));
  if(t.st.empty()) { fatal(P(14), "stray-combiner", "a combiner ran outside any invocation"); }
  FrameI& f = t.st.back(); Inv* v = &w->inv[f.inv];
  if(!f.in_deref && v->cb == 0 && !v->slotcall) {
    if(v->sid != sid) fatal(P(6)|P(14)|P(16), "wrong-combiner", fmt("invoking signal %d ran the combiner of signal %d", v->sid, sid));
    v->cb = now(); v->ver = ver; v->mode = mode;
  } else if(f.in_deref) {
    int ci = -1, best = 0; for(size_t i = 0; i < w->c.size(); i++) if(w->c[i].sp.ftype == 3 && w->c[i].st >= 1 && w->c[i].sid == v->sid && w->c[i].sp.fid == sid) { int n = w->c[i].causes.empty() ? 0 : 1; for(int ei : v->execs) if(w->ex[ei].conn == (int)i) n += 2; if(ci < 0 || n < best) { ci = (int)i; best = n; } }
    if(ci < 0) fatal(P(16)|P(1), "stray-chain", fmt("signal %d invoked signal %d although they were never connected", v->sid, sid));
    Exec e; e.conn = ci; e.inv = f.inv; e.tid = tid(); e.P = f.P; e.b = now(); e.e = 0; e.outcome = 0; e.val = -1;
    int outer = f.inv; u64 S = f.derefb; int root = w->inv[outer].root;
    e.chaininv = (int)w->inv.size();
    w->ex.push_back(e); int ei = (int)w->ex.size() - 1; w->inv[outer].execs.push_back(ei); f.cur = ei; w->c[ci].execs++;
    int iv = new_inv(sid, S, w->inv[outer].op); Inv& x = w->inv[iv]; x.chained = true; x.root = root; x.pexec = ei; x.cb = now(); x.ver = ver; x.mode = mode;
    FrameI g; g.inv = iv; g.in_deref = false; g.P = S; g.derefb = 0; g.cur = -1; g.n0 = 0; t.st.push_back(g); CNT("probe.chained_invocation");
  } else fatal(P(14)|P(6), "stray-combiner", "a combiner ran twice for one invocation");
  mix(sid * 131 + ver);
  trace("combiner of signal %d (version %d, mode %d) begins, invocation %d", sid, ver, mode, t.st.back().inv);
  point();
}
void h_comb_step(int sid, int k) {
  TS& t = me(); if(t.st.empty() || w->settle || held()) return;
  Inv& v = w->inv[t.st.back().inv]; if(v.cscript || k < v.root % 3) return;
  v.cscript = true; if(w->ctx.count(400 + sid % 4)) { CNT("probe.combiner_script"); run_ctx(400 + sid % 4); }
}
void h_comb_end(bool normal) {
  TS& t = me(); if(t.st.empty()) return;
  FrameI& f = t.st.back(); Inv& v = w->inv[f.inv];
  v.E = now(); v.done = normal;
  trace("combiner of signal %d ends (%s), invocation %d", v.sid, normal ? "normally" : "by exception", f.inv);
  if(v.chained) { Exec& e = w->ex[v.pexec]; e.e = v.E; e.val = v.lastval; if(!normal) e.outcome = 1; t.st.pop_back(); if(!t.st.empty()) { t.st.back().P = now(); } 
    if(!normal && !t.st.empty()) w->inv[t.st.back().inv].userthrow = v.userthrow; }
  else point();
}
void h_deref_begin() { TS& t = me(); if(t.st.empty()) return; FrameI& f = t.st.back(); f.in_deref = true; f.derefb = now(); f.churn = 0; f.n0 = (int)w->inv[f.inv].execs.size(); f.cur = -1; point(); }
void h_deref_end(int exc, int val) {
  TS& t = me(); if(t.st.empty()) return; FrameI& f = t.st.back(); Inv& v = w->inv[f.inv]; f.in_deref = false;
  int n = (int)v.execs.size() - f.n0; int again = f.retry; f.retry = -1;
  if(again >= 0) { if(n == 1) w->ex[v.execs.back()].again = true; else if(n == 0 && exc && exc == (w->ex[again].outcome == 2 ? X_EXPIRED : X_USER)) { point(); return; } }   // throwing the same again is as good
  if(exc == X_BADALLOC || exc == X_CMP || exc == X_COPY) { v.injected = true; return; }      // an injected failure stood in for a slot
  if(n == 0 && f.churn == 1) { if(exc == 0) { v.lastval = val; v.nok++; if(val != 0) report(P(14), "deref-value", "dereference gave another value than the slot"); } else if(exc) report(P(14)|P(11), "deref-exception", "the dereference threw an exception the slot did not throw"); point(); return; }
  if(n != 1 || f.churn) { report(P(14)|P(1), "deref-count", fmt("one dereference of the slot call iterator ran %d slots", n)); return; }
  Exec& e = w->ex[v.execs.back()];
  if(exc == 0 && e.outcome == 0 && e.val != val) report(P(14), "deref-value", fmt("dereference gave %d, the slot returned %d", val, e.val));
  if(exc == 0 && e.outcome != 0) report(P(14)|P(11), "deref-swallowed", "a slot threw but the dereference returned a value");
  if(exc == X_USER && e.outcome != 1) report(P(11)|P(14), "deref-exception", "the dereference threw an exception the slot did not throw");
  if(exc == X_EXPIRED) { if(e.outcome != 2) report(P(7)|P(14), "deref-expired", "expired_slot reached the combiner although the slot did not throw it"); else { add_cause(e.conn, e.b, now(), CK_THROW, -1); CNT("fault.slot_threw_expired"); } }
  if(exc == 0) { v.lastval = val; v.nok++; }
  point();
}
// the combiner asks once more at a position whose slot threw
void h_retry() { TS& t = me(); if(t.st.empty()) return; FrameI& f = t.st.back(); Inv& v = w->inv[f.inv]; f.retry = v.execs.empty() || f.n0 == (int)v.execs.size() ? -1 : v.execs.back(); if(f.retry >= 0) f.P = w->ex[f.retry].P; CNT("probe.dereferenced_again_after_throw"); }
int h_root() { TS& t = me(); return t.st.empty() ? -1 : w->inv[t.st.back().inv].root; }
void h_adv() { TS& t = me(); if(t.st.empty()) return; t.st.back().P = now(); point(); }

static bool tracks(const Conn& c, int o) { for(int i = 0; i < c.sp.nt; i++) if(c.sp.tk[i] != 2 && c.sp.to[i] == o) return true; return false; }
struct ChurnStep { virtual void run() = 0; };
static ChurnStep* churn_pend[MAXT]; // a step that the next slot called by this thread performs
int h_slot(int ci, int iv, int pv, bool pok, const void* ext, int* val) {
  if(ci < 0) { CNT("probe.churn_exec"); need_unlocked("a slot", P(1)); TS& t = me(); if(t.st.empty()) fatal(P(1), "stray-slot", "a slot ran outside any invocation"); FrameI& f = t.st.back(); f.churn++; Inv& v = w->inv[f.inv]; if(!v.rec) { v.lastval = 0; v.nok++; } point(); return 0; }
  TS& t = me(); Conn& c = w->c[ci];
  need_unlocked("a slot", P(1));
  if(t.st.empty()) fatal(P(1)|P(14), "stray-slot", "a slot ran outside any invocation");
  FrameI& f = t.st.back(); Inv& v = w->inv[f.inv];
  if(v.rec && !v.slotcall && !f.in_deref) fatal(P(14)|P(1), "stray-slot", "the slot of " + cname(ci) + " ran although the combiner was not making a first dereference");
  if(!v.slotcall) {
    if(c.sid != v.sid || c.sp.ftype == 3) { report(P(1)|P(16), "foreign-slot", fmt("invoking signal %d ran the slot of connection %d, which belongs to signal %d", v.sid, ci, c.sid)); }
    if(!v.rec && v.cb == 0) v.cb = now();
  }
  if(iv != v.root || pv != v.root * 7 + 3 || !pok) report(P(14), "arguments", fmt("slot of connection %d received arguments other than the invocation's (%d,%d%s)", ci, iv, pv, pok ? "" : ",moved-from"));
  Exec e; e.conn = ci; e.inv = f.inv; e.tid = tid(); e.P = f.P; e.b = now(); e.e = 0; e.outcome = 0; e.val = 0; e.chaininv = -1;
  w->ex.push_back(e); int ei = (int)w->ex.size() - 1; v.execs.push_back(ei); f.cur = ei; c.running++; c.execs++;
  mix(ci * 1009 + f.inv);
  trace("slot of connection %d runs in invocation %d", ci, f.inv);
  for(int i = 0; i < c.sp.nt; i++) if(c.sp.tk[i] != 2 && w->o[c.sp.to[i]].have && !w->o[c.sp.to[i]].alive) fatal(P(7), "tracked-dead", fmt("slot of connection %d ran although tracked object %d was already destroyed", ci, c.sp.to[i]));
  if(ext) { if(conn_published(ci)) { Harness hs; if(!ext_is(ext, ci)) report(P(14)|P(15), "extended-connection", fmt("the extended slot of connection %d received another connection", ci)); else CNT("probe.extended_connection_checked"); } else { Harness hs; if(ext_empty(ext)) report(P(14)|P(15), "extended-connection", fmt("the extended slot of connection %d received an empty connection", ci)); else CNT("probe.extended_connection_checked_early"); } }
  push_frame(2000 + ci, -2, 0, 0, 0);
  point();
  if(churn_pend[tid()]) { ChurnStep* cs = churn_pend[tid()]; churn_pend[tid()] = 0; cs->run(); CNT("probe.churned_inside_invocation"); }
  if(w->budget > 0 && t.invdepth <= 3) { w->budget--; const Item* sv = 0; (void)sv; 
    // ops on the slot's own connection
    auto it = w->ctx.find(100 + ci);
    if(it != w->ctx.end()) for(const Item* x : it->second) {
      if(x->kind == K_EXT_DISC || x->kind == K_EXT_Q || x->kind == K_BLK_EXT) {
        if(!ext || (x->kind == K_BLK_EXT && !conn_published(ci))) continue;
        if(x->kind == K_EXT_DISC) { u64 b = now(); push_frame(x->id, x->kind, 0, 0, kmask(x->kind)); c.causes.push_back(Cause()); Cause& cc = c.causes.back(); cc.pb = b; cc.de = INF; cc.kind = CK_DISC; cc.op = x->id; size_t k = c.causes.size() - 1; ext_disconnect(ext); w->c[ci].causes[k].de = now(); pop_frame(); CNT("op.ext_disconnect_self"); }
        else if(x->kind == K_EXT_Q) { QRec r; r.kind = K_Q_CONN; r.ix = ci; r.b = now(); push_frame(x->id, x->kind, 0, 0, kmask(x->kind)); r.res = ext_connected(ext); pop_frame(); r.e = now(); r.op = x->id; w->q.push_back(r); }
      } else exec_op(*x);
    }
  }
  point();
  Conn& c2 = w->c[ci];
  int oc = c2.sp.outcome & 3; if((c2.sp.outcome & 4) && c2.execs > 1) oc = 0; if(w->settle) oc = 0;
  if(oc == 1) CNT("fault.slot_threw");
  Exec& e2 = w->ex[ei]; e2.outcome = oc; e2.val = 100000 + ei; *val = e2.val;
  if(oc == 1) { FrameI& f2 = me().st.back(); w->inv[f2.inv].userthrow = e2.val; }
  return oc;
}
void h_slot_leave(int ci, int how) {
  if(ci < 0) { TS& t = me(); t.st.back().P = now(); return; }
  TS& t = me(); FrameI& f = t.st.back(); Conn& c = w->c[ci];
  for(int i = 0; i < c.sp.nt; i++) if(c.sp.tk[i] != 2 && w->o[c.sp.to[i]].have && !w->o[c.sp.to[i]].alive) fatal(P(7), "tracked-dead", fmt("tracked object %d was destroyed while the slot of connection %d was executing", c.sp.to[i], ci));
  c.running--; pop_frame();
  // find this exec: the last one of this connection in this invocation that is still open
  for(int k = (int)w->inv[f.inv].execs.size() - 1; k >= 0; k--) { Exec& e = w->ex[w->inv[f.inv].execs[k]]; if(e.conn == ci && e.e == 0) { e.e = now(); f.P = e.e;
      if(how == 0 && !w->inv[f.inv].rec && !w->inv[f.inv].slotcall) { w->inv[f.inv].lastval = e.val; w->inv[f.inv].nok++; }
      if(how == 2 && !w->inv[f.inv].rec && !w->inv[f.inv].slotcall) { add_cause(ci, e.b, INF, CK_THROW, -1); CNT("fault.slot_threw_expired"); }
      break; } }
}
bool h_obj_alive(int o) { return w->o[o].alive; }
void h_obj_dtor(int o) {
  ObjM& x = w->o[o]; u64 t = now();
  trace("tracked object %d is destroyed", o);
  for(auto& c : w->c) if(c.running && tracks(c, o)) fatal(P(7), "tracked-dead", fmt("tracked object %d was destroyed while the slot of connection %d was executing", o, c.sp.id));
  if(x.refs > 0) fatal(P(7)|P(8), "tracked-dead", fmt("object %d was destroyed although references to it remain", o));
  if(nopreempt_depth() == 0) need_unlocked("the destructor of a tracked object", P(7));
  x.alive = false; x.dead = t;
  for(size_t i = 0; i < w->c.size(); i++) for(auto& cc : w->c[i].causes) if(cc.kind == CK_EXPIRY && cc.op == 10000 + o && cc.de == INF) cc.de = t;
  CNT("probe.tracked_object_destroyed");
  if(w->settle || nopreempt_depth()) return;
  bool lib = false; for(int i = depth() - 1; i >= 0; i--) { Frame* f = frame_at(tid(), i); if(f->op >= 0) { lib = f->kind != K_DROP; break; } }
  if(lib) CNT("probe.tracked_object_destroyed_by_library");
  point();
  if(!x.dtor_ran && !held()) { x.dtor_ran = true; run_ctx(200 + o); }
  point();
}

// ---- executing operations ----------------------------------------------------
static bool is_null(int v) { NoPreempt np; return 0 != w->api->sig_null(v); }
static bool var_ok(int v) {
  if(v < 0 || v >= NVAR || w->vsid[v] < 0 || w->vlock[v]) return false;   // vlock: being created, moved, swapped or destroyed further up the stack
  if(w->vexcl[v] && w->vexcl[v] != tid() && !w->settle) return false;
  if(!w->api->sig_exists(v)) return false;
  return true;
}
// a signal object may go away while it is being invoked by its own thread, but not while another operation is using it
static bool var_busy(int v) { return w->vinfl[v] != w->vinvk[v]; }
static void mark_inv16(int v) { if(v >= 0 && v < NVAR && w->vinvk[v]) for(int i = depth() - 1; i >= 0; i--) { Frame* f = frame_at(tid(), i); if(f->kind == K_INVOKE) f->mask |= P(16); } }
static bool conn_ok(int c) { return c >= 0 && c < (int)w->c.size() && w->c[c].have && conn_published(c); }
static void bad_exc(const char* op, int exc, int opid, Mask m) { report(m, "unexpected-exception", fmt("%s (op%d) threw %s although %s", op, opid, exc_names[exc], "nothing was injected that may make it fail")); }
static void op_begin(const Item& it, u64& b) {
  TS& t = me();
  push_frame(it.id, it.kind, it.fk, it.fn, kmask(it.kind));
  if((it.kind == K_Q_NUM || it.kind == K_Q_EMPTY || it.kind == K_DISC_ALL || it.kind == K_DISC_GROUP || it.kind == K_DISC_FN) && var_ok(it.a[0]) && is_null(it.a[0])) top()->mask |= P(16);   // on a moved-from signal
  if(t.opdepth++ == 0) { OpLog l; l.op = it.id; l.tid = tid(); l.b = clock_peek() + 1; l.e = INF; w->ol.push_back(l); t.cur = (int)w->ol.size() - 1; }
  b = now();
  mix(it.id * 31 + it.kind);
}
static bool op_end(u64& e) {
  e = now(); bool fired = top()->fired; if(fired) w->anyfault = true; pop_frame(); TS& t = me();
  if(--t.opdepth == 0) { w->ol[t.cur].e = clock_peek(); t.cur = -1; }
  w->opsdone++;
  return fired;
}
static bool alone() { for(int t = 0; t < MAXT; t++) if(t != tid() && w->ts[t].opdepth) return false; return me().opdepth == 0; }
// nothing is going on but slots that this thread is executing, none of which tracks object o
static bool only_slots_not_tracking(int o) {
  for(int t = 0; t < MAXT; t++) if(t != tid() && w->ts[t].opdepth) return false;
  for(int i = depth() - 1; i >= 0; i--) { Frame* f = frame_at(tid(), i); if(f->op >= 0 && f->kind != K_INVOKE && f->kind != K_SLOT_CALL && f->kind != -2) return false; }
  for(auto& c : w->c) if(c.have && c.sp.ftype == 3 && tracks(c, o)) return false;
  for(auto& f : me().st) { if(f.cur < 0 || w->ex[f.cur].e) return false; if(tracks(w->c[w->ex[f.cur].conn], o)) return false; }
  return true;
}
// end of every operation still running in any thread (this one's outer operations included)
static void pending_ops(Vec<int>& out) { for(int t = 0; t < MAXT; t++) if(w->ts[t].cur >= 0) out.push_back(w->ts[t].cur); }
struct Defer { size_t conn, cause; Vec<int> ops; u64 e; };
static Vec<Defer> defers;

static void invoke_op(const Item& it) {
  int v = it.a[0]; if(!var_ok(v) || me().invdepth >= 3) return;
  if(is_null(v)) return;
  if(me().invdepth >= 1 && w->budget <= 0) return;
  u64 b, e; TS& t = me();
  op_begin(it, b);
  int iv = new_inv(w->vsid[v], b, it.id); 
  FrameI f; f.inv = iv; f.in_deref = false; f.P = b; f.derefb = 0; f.cur = -1; f.n0 = 0; t.st.push_back(f); t.invdepth++;
  w->vinfl[v]++; w->vinvk[v]++;
  if(!w->inv[iv].rec) w->inv[iv].mode = CM_ALL;
  trace("op%d invoke signal var %d (signal %d) -> invocation %d%s", it.id, v, w->vsid[v], iv, it.fk ? fmt(" with fault %s #%d", fault_names[it.fk], it.fn).c_str() : "");
  InvokeOut out; w->api->invoke(v, iv, iv * 7 + 3, it.a[1] & 1, out);
  w->vinfl[v]--; w->vinvk[v]--; t.invdepth--;
  while(t.st.back().inv != iv) t.st.pop_back();
  t.st.pop_back();
  bool fired = op_end(e);
  Inv& x = w->inv[iv]; x.out = out; x.fault = fired; if(x.E == 0) x.E = e; x.outcome = out.exc; x.exid = out.exid;
  if(!x.rec) { x.done = out.exc == X_NONE || out.exc == X_NOSLOTS; x.E = e; if(!x.cb) x.cb = e; 
    for(int ei : x.execs) if(w->ex[ei].outcome == 2) for(auto& cc : w->c[w->ex[ei].conn].causes) if(cc.kind == CK_THROW && cc.pb == w->ex[ei].b) cc.de = e; }
  trace("op%d invocation %d returned (%s)", it.id, iv, exc_names[out.exc]);
  // outcome
  if(out.exc == X_USER) { if(x.userthrow != out.exid) report(P(11), "exception-identity", fmt("invocation %d threw a slot exception that is not the one its slot threw", iv)); else CNT("probe.slot_exception_propagated"); }
  else if(out.exc == X_BADALLOC || out.exc == X_CMP || out.exc == X_COPY || out.exc == X_ASSIGN) { if(!fired) bad_exc("operator()", out.exc, it.id, P(11)|P(12)); }
  else if(out.exc == X_NOSLOTS) { if(!w->api->throws_no_slots() || x.nok) report(P(14), "no_slots_error", fmt("invocation %d threw no_slots_error although %d slots returned a value", iv, x.nok)); else CNT("probe.no_slots_error"); }
  else if(out.exc != X_NONE) bad_exc("operator()", out.exc, it.id, P(11)|P(14));
  else {
    if(x.userthrow >= 0 && x.mode != CM_CATCH && x.mode != CM_RETRY) { bool same = false; for(int ei : x.execs) if(w->ex[ei].outcome == 1) same = true; if(same) report(P(11) | (w->api->has_rec() ? 0 : P(14)), "exception-lost", fmt("a slot threw in invocation %d but the invocation returned normally", iv)); }
    if(x.rec) { if(x.cb == 0) report(P(14)|P(1), "combiner-not-run", fmt("invocation %d returned without running the combiner", iv)); else if(out.val != x.lastval) report(P(14), "result", fmt("invocation %d returned %d, its combiner %d", iv, out.val, x.lastval)); }
    else if(w->api->has_value()) {
      if(w->api->throws_no_slots() && !x.nok) report(P(14), "no_slots_error", fmt("invocation %d ran no slot and did not throw no_slots_error", iv));
      else if((out.has != 0) != (x.nok > 0) || (x.nok && out.val != x.lastval)) report(P(14), "result", fmt("invocation %d: library combiner returned %s%d, last slot value is %s%d", iv, out.has ? "" : "none ", out.val, x.nok ? "" : "none ", x.lastval));
      else CNT("probe.library_combiner_result");
    }
  }
}

static void disc_many(const Item& it, int kind) {
  int v = it.a[0]; if(!var_ok(v)) return;
  int sid = w->vsid[v]; bool isnull = is_null(v);
  if(kind == CK_CHAIN && (!w->api->can_chain() || !var_ok(it.a[1]) || it.a[1] == v)) return;
  int isid = kind == CK_CHAIN ? w->vsid[it.a[1]] : -1;
  if(kind == CK_CHAIN && is_null(it.a[1])) return;
  u64 b, e; op_begin(it, b);
  w->vinfl[v]++; if(kind == CK_CHAIN) w->vinfl[it.a[1]]++;
  size_t n0 = w->c.size(); (void)n0;
  Vec<int> matched, idx;
  auto match = [&](const Conn& c) {
    if(c.sid != sid || isnull || c.st == 0 || c.st == 3) return false;
    if(kind == CK_GROUP) return c.sp.group >= 0 && gclass(sid, c.sp.group) == gclass(sid, it.a[1]);
    if(kind == CK_FN) return c.sp.ftype == it.a[1] && c.sp.fid == it.a[2];
    if(kind == CK_CHAIN) return c.sp.ftype == 3 && c.sp.fid == isid;
    return true; };
  // possible causes must be on record before the operation takes effect
  for(size_t i = 0; i < w->c.size(); i++) if(match(w->c[i])) { add_cause((int)i, b, INF, kind, it.id); matched.push_back((int)i); idx.push_back((int)w->c[i].causes.size() - 1); }
  trace("op%d %s var %d arg %d", it.id, op_names[it.kind], v, it.a[1]);
  int exc = kind == CK_GROUP ? w->api->disc_group(v, it.a[1], it.a[3]) : kind == CK_FN ? w->api->disc_fn(v, it.a[1], it.a[2], it.a[3]) : kind == CK_ALL ? w->api->disc_all(v) : w->api->disc_chain(v, it.a[1]);
  w->vinfl[v]--; if(kind == CK_CHAIN) w->vinfl[it.a[1]]--;
  bool fired = op_end(e);
  for(size_t i = 0; i < matched.size(); i++) { Conn& c = w->c[matched[i]]; if(exc == X_NONE && c.ce && c.ce < b && c.st == 2) c.causes[idx[i]].de = e; }
  // connections whose connect began while this ran may have been hit, too
  for(size_t i = 0; i < w->c.size(); i++) if(match(w->c[i]) && std::find(matched.begin(), matched.end(), (int)i) == matched.end() && w->c[i].cb < e) add_cause((int)i, w->c[i].cb, INF, kind, it.id);
  if(matched.size()) CNT("probe.selective_disconnect_matched");
  if(exc != X_NONE && !(fired && (exc == X_CMP || (exc == X_COPY && it.kind == K_DISC_GROUP)))) bad_exc(op_names[it.kind], exc, it.id, P(3)|P(12));
}
static void expect_released(int ci, const char* why) {
  // only when nothing else is going on: the functor must be gone as soon as the disconnect returns
  Conn& c = w->c[ci];
  if(alone() && c.made && c.st == 2 && c.copies > 0 && !c.running) { for(int i = 0; i < NSLOT; i++) if(w->sl[i].exist && w->sl[i].conn == ci) return; report(P(8), "functor-retained", fmt("functor of connection %d still alive after %s completed with nothing else running", ci, why)); }
}
static bool grab(bool& busy, HB& hb) { if(busy) return false; busy = true; hb_acquire(hb); return true; }
static void drop(bool& busy, HB& hb) { busy = false; hb_release(hb); }

static void note_block_begin(BlkM& m, u64 b) { BlkIv iv; iv.conn = m.conn; iv.pb = b; iv.db = INF; iv.de = INF; iv.pe = INF; w->bl.push_back(iv); m.iv = (int)w->bl.size() - 1; }

static void churn_op(const Item& it);
static Item mkq(int kind, int a0) { Item x; x.type = 'o'; x.id = 0; x.ctx = 0; x.kind = kind; memset(x.a, 0, sizeof x.a); x.a[0] = a0; x.fk = x.fn = 0; return x; }

static bool chain_reaches(int from, int to) {      // would invoking signal 'from' run signal 'to'? (cycles of signals are not generated)
  if(from == to) return true;
  for(auto& o : w->c) if(o.sp.ftype == 3 && o.st && o.sid == from && chain_reaches(o.sp.fid, to)) return true;
  return false;
}
static void exec_op(const Item& it) {
  u64 b, e;
  int A = it.a[0], B = it.a[1], C_ = it.a[2];
  // the thread may be held up before it starts the operation; no scheduling point may
  // lie between the preconditions checked below and the start of the operation
  push_frame(it.id + 12000, it.kind, 0, 0, 0); point(); pop_frame();
  switch(it.kind) {
  case K_CONNECT: {
    if(A < 0 || A >= (int)w->c.size() || !w->c[A].have || w->c[A].st || w->c[A].made) return;
    Conn& c0 = w->c[A]; int v = c0.sp.var; if(!var_ok(v) || is_null(v)) return;
    if(c0.sp.ftype == 3) { if(!w->api->can_chain() || !var_ok(c0.sp.inner) || is_null(c0.sp.inner) || chain_reaches(w->vsid[c0.sp.inner], w->vsid[v])) return;
      for(auto& o : w->c) if(o.sp.ftype == 3 && o.st && o.sid == w->vsid[v] && o.sp.fid == w->vsid[c0.sp.inner]) { if(!w->p->get("dup")) return; o.dup = c0.dup = true; CNT("probe.signal_connected_twice"); } }
    op_begin(it, b);
    c0.st = 1; c0.cb = b; c0.sid = w->vsid[v];
    if(c0.sp.ftype == 3) c0.sp.fid = w->vsid[c0.sp.inner];
    w->vinfl[v]++; if(c0.sp.ftype == 3) w->vinfl[c0.sp.inner]++;
    for(int i = 0; i < c0.sp.nt; i++) { int o = c0.sp.to[i];
      if(c0.sp.tk[i] == 2) { if(!var_ok(o)) { c0.sp.nt = i; break; } w->vinfl[o]++; }
      else { ObjM& x = w->o[o]; if(!x.have) { c0.sp.nt = i; break; } if(x.dropb != INF || !x.alive) add_cause(A, x.dropb == INF ? x.dead : x.dropb, x.alive ? INF : x.dead, CK_EXPIRY, 10000 + o); } }
    // signals tracked: remember their identity in to[] via negative code
    int tsid[3] = {-1,-1,-1}; for(int i = 0; i < c0.sp.nt; i++) if(c0.sp.tk[i] == 2) { tsid[i] = w->vsid[c0.sp.to[i]]; if(is_null(c0.sp.to[i])) { add_cause(A, b, b, CK_EXPIRY, it.id); } }
    ConnSpec sp = c0.sp; 
    trace("op%d connect %d to var %d (type %d group %d %s)%s", it.id, A, v, sp.ftype, sp.group, sp.front ? "front" : "back", it.fk ? fmt(" fault %s #%d", fault_names[it.fk], it.fn).c_str() : "");
    int exc = w->api->connect(sp);
    w->vinfl[v]--; if(sp.ftype == 3) w->vinfl[sp.inner]--;
    for(int i = 0; i < sp.nt; i++) if(sp.tk[i] == 2) w->vinfl[sp.to[i]]--;
    bool fired = op_end(e);
    Conn& c = w->c[A];
    for(int i = 0; i < sp.nt; i++) if(sp.tk[i] == 2) c.sp.to[i] = 100 + tsid[i];
    if(exc == X_NONE) { c.st = 2; c.ce = e; }
    else { c.st = 3; c.ce = e; CNT("probe.connect_failed");
      if(!fired || !(exc == X_BADALLOC || exc == X_COPY || exc == X_CMP)) bad_exc("connect", exc, it.id, P(12));
      if(c.copies && alone()) report(P(12)|P(8), "failed-connect-leak", fmt("connect op%d threw but the functor is still held (%d copies)", it.id, c.copies)); }
    // objects dropped while the connect was running
    for(int i = 0; i < sp.nt; i++) if(sp.tk[i] != 2) { ObjM& x = w->o[sp.to[i]]; if(x.dropb != INF && x.dropb >= b) { bool have = false; for(auto& cc : c.causes) if(cc.kind == CK_EXPIRY && cc.op == 10000 + sp.to[i]) have = true; if(!have) add_cause(A, x.dropb, x.alive ? INF : x.dead, CK_EXPIRY, 10000 + sp.to[i]); } }
    break; }
  case K_DISC: {
    if(!conn_ok(A)) return;
    op_begin(it, b); add_cause(A, b, INF, CK_DISC, it.id); size_t k = w->c[A].causes.size() - 1; w->c[A].handled |= B != 0;
    trace("op%d disconnect %d", it.id, A);
    int exc = conn_disconnect(A, B); op_end(e);
    if(exc == X_NONE) { w->c[A].causes[k].de = e; expect_released(A, "disconnect()"); } else bad_exc("connection::disconnect", exc, it.id, P(12)|P(2));
    break; }
  case K_DISC_GROUP: disc_many(it, CK_GROUP); break;
  case K_DISC_FN: disc_many(it, CK_FN); break;
  case K_DISC_ALL: disc_many(it, CK_ALL); break;
  case K_DISC_CHAIN: disc_many(it, CK_CHAIN); break;
  case K_INVOKE: invoke_op(it); break;
  case K_BLK_NEW: {
    if(A < 0 || A >= NBLK || !conn_ok(B) || w->b[A].exist) return; BlkM& m = w->b[A]; if(!grab(m.busy, m.hb)) return;
    op_begin(it, b); m.conn = B; m.iv = -1; m.exist = true; m.blocking = false; if(C_) note_block_begin(m, b); int iv = m.iv;
    trace("op%d new block %d on connection %d (%s)", it.id, A, B, C_ ? "blocking" : "not blocking");
    int exc = blk_new(A, B, C_); bool fired = op_end(e);
    if(exc == X_NONE) { if(C_) { w->bl[iv].db = e; m.blocking = true; } }
    else { m.exist = false; if(iv >= 0) { w->bl[iv].pe = e; m.iv = -1; } if(!fired || exc != X_BADALLOC) bad_exc("shared_connection_block", exc, it.id, P(4)|P(12)); }
    drop(m.busy, m.hb); break; }
  case K_BLK_BLOCK: case K_BLK_UNBLOCK: case K_BLK_DEL: case K_BLK_Q: {
    if(A < 0 || A >= NBLK || !w->b[A].exist) return; BlkM& m = w->b[A]; if(!grab(m.busy, m.hb)) return; if(!m.exist) { drop(m.busy, m.hb); return; }
    op_begin(it, b);
    trace("op%d %s %d (connection %d)", it.id, op_names[it.kind], A, m.conn);
    if(it.kind == K_BLK_BLOCK) { bool was = m.blocking; if(!was) note_block_begin(m, b); int iv = m.iv; int exc = blk_block(A); bool fired = op_end(e);
      if(exc == X_NONE) { if(!was && iv >= 0) w->bl[iv].db = e; m.blocking = true; } else { if(!was) { w->bl[iv].pe = e; m.iv = -1; } if(!fired || exc != X_BADALLOC) bad_exc("block()", exc, it.id, P(4)|P(12)); } }
    else if(it.kind == K_BLK_Q) { int r = blk_blocking(A); int ci = m.conn >= 0 && conn_published(m.conn) ? blk_connis(A, m.conn) : 1; op_end(e); if((r != 0) != m.blocking) report(P(4), "blocking()", fmt("blocking() of block %d is %d, expected %d", A, r, (int)m.blocking)); if(!ci) report(P(4)|P(15), "block-connection", fmt("block %d refers to another connection", A)); }
    else { if(m.iv >= 0) w->bl[m.iv].de = b; int iv = m.iv; int exc = it.kind == K_BLK_UNBLOCK ? blk_unblock(A) : blk_del(A); op_end(e); if(iv >= 0) w->bl[iv].pe = e; m.iv = -1; m.blocking = false; if(it.kind == K_BLK_DEL) m.exist = false; if(exc) bad_exc(op_names[it.kind], exc, it.id, P(4)|P(12)); }
    drop(m.busy, m.hb); break; }
  case K_BLK_COPY: {
    if(A < 0 || A >= NBLK || B < 0 || B >= NBLK || A == B || !w->b[B].exist) return;
    BlkM& d = w->b[A]; BlkM& s = w->b[B]; if(d.busy || s.busy) return; grab(d.busy, d.hb); grab(s.busy, s.hb);
    op_begin(it, b); int oldiv = d.exist ? d.iv : -1; if(oldiv >= 0) w->bl[oldiv].de = b;
    BlkM nd; nd.conn = s.conn; nd.iv = -1; if(s.blocking) note_block_begin(nd, b);
    trace("op%d block %d = block %d", it.id, A, B);
    int exc = blk_copy(A, B, 0); op_end(e);
    if(oldiv >= 0) w->bl[oldiv].pe = e;
    d.conn = s.conn; d.exist = true; d.iv = nd.iv; d.blocking = s.blocking; if(nd.iv >= 0) w->bl[nd.iv].db = e;
    if(exc) bad_exc("shared_connection_block copy", exc, it.id, P(4)|P(12));
    drop(d.busy, d.hb); drop(s.busy, s.hb); break; }
  case K_BLK_SCOPE: {   // a block that lives for the duration of a nested invocation
    int bi = NBLK - 1; if(!conn_ok(B) || w->b[bi].exist) return; BlkM& m = w->b[bi]; if(!grab(m.busy, m.hb)) return;
    Item x = it; x.kind = K_BLK_NEW; op_begin(x, b); m.conn = B; m.exist = true; note_block_begin(m, b); int iv = m.iv; int exc = blk_new(bi, B, 1); op_end(e);
    if(exc == X_NONE) { w->bl[iv].db = e; m.blocking = true;
      Item y = it; y.kind = K_INVOKE; y.id = it.id + 3000; y.a[0] = it.a[0]; y.a[1] = 0; y.fk = 0; invoke_op(y);
      y.kind = K_BLK_DEL; y.id = it.id + 6000; op_begin(y, b); w->bl[iv].de = b; blk_del(bi); op_end(e); w->bl[iv].pe = e; }
    else w->bl[iv].pe = e;
    m.exist = false; m.blocking = false; m.iv = -1; drop(m.busy, m.hb); break; }
  case K_Q_CONN: case K_Q_BLOCKED: {
    if(!conn_ok(A)) return; op_begin(it, b); int r = 0; int exc = it.kind == K_Q_CONN ? conn_connected(A, &r) : conn_blocked(A, &r); op_end(e);
    trace("op%d %s connection %d -> %d", it.id, op_names[it.kind], A, r);
    if(exc) bad_exc(op_names[it.kind], exc, it.id, P(13)|P(12)); else { QRec q; q.kind = it.kind; q.ix = A; q.b = b; q.e = e; q.res = r; q.op = it.id; w->q.push_back(q); if(it.kind == K_Q_CONN && !r) add_cause(A, 0, e, CK_SEENFALSE, it.id), w->c[A].causes.back().pb = b; }
    break; }
  case K_Q_NUM: case K_Q_EMPTY: {
    if(!var_ok(A)) return; op_begin(it, b); w->vinfl[A]++; int r = 0; int exc = it.kind == K_Q_NUM ? w->api->num_slots(A, &r) : w->api->empty(A, &r); w->vinfl[A]--; op_end(e);
    trace("op%d %s var %d -> %d", it.id, op_names[it.kind], A, r);
    if(exc) bad_exc(op_names[it.kind], exc, it.id, P(13)|P(12)); else { QRec q; q.kind = it.kind; q.ix = is_null(A) ? -1 : w->vsid[A]; q.b = b; q.e = e; q.res = r; q.op = it.id; w->q.push_back(q); }
    break; }
  case K_SETCOMB: {
    if(!var_ok(A) || is_null(A)) return; op_begin(it, b); SetRec r; r.ver = ++w->combver; r.b = b; r.e = INF; r.failed = false; int sid = w->vsid[A]; w->s[sid].sets.push_back(r); size_t k = w->s[sid].sets.size() - 1;
    trace("op%d set_combiner var %d version %d mode %d", it.id, A, r.ver, B);
    w->vinfl[A]++; int exc = w->api->set_combiner(A, sid, r.ver, B % CM_KINDS, 1 + C_ % 3); w->vinfl[A]--; bool fired = op_end(e);
    w->s[sid].sets[k].e = e; if(exc) { w->s[sid].sets[k].failed = true; if(!fired || !(exc == X_BADALLOC || exc == X_COPY || exc == X_ASSIGN)) bad_exc("set_combiner", exc, it.id, P(12)|P(14)); }
    break; }
  case K_GETCOMB: {
    if(!var_ok(A) || is_null(A)) return; op_begin(it, b); int ver = -1; w->vinfl[A]++; int exc = w->api->get_combiner(A, &ver); w->vinfl[A]--; bool fired = op_end(e);
    if(exc) { if(!fired) bad_exc("combiner()", exc, it.id, P(12)|P(14)); } else if(w->api->has_rec()) { QRec q; q.kind = K_GETCOMB; q.ix = w->vsid[A]; q.b = b; q.e = e; q.res = ver; q.op = it.id; w->q.push_back(q); }
    break; }
  case K_DROP: {
    if(A < 0 || A >= NOBJ || !w->o[A].have || B < 0 || B >= NREF || !w->o[A].ref[B]) return; ObjM& o = w->o[A];
    op_begin(it, b); o.ref[B] = false; o.refs--; bool last = o.refs == 0;
    if(last) { o.dropb = b; for(size_t i = 0; i < w->c.size(); i++) if(w->c[i].st >= 1 && tracks(w->c[i], A)) add_cause((int)i, b, INF, CK_EXPIRY, 10000 + A); }
    trace("op%d drop reference %d of object %d%s", it.id, B, A, last ? " (last)" : "");
    if(last && in_threads()) { CNT("fault.tracked_dropped"); for(auto& c : w->c) if(c.running && tracks(c, A)) { CNT("probe.dropped_while_slot_runs"); break; } }
    obj_drop(A, B); op_end(e);
    if(last && !alone() && only_slots_not_tracking(A)) CNT("probe.released_inside_other_slot");
    if(last && w->o[A].alive && (alone() || only_slots_not_tracking(A))) report(P(7), "tracked-retained", fmt("object %d is still alive although its last owner released it and nothing else is running", A));
    break; }
  case K_HV: {  // A=h B=srckind C=src a3=how
    int how = it.a[3]; if(A < 0 || A >= NH) return; HM& d = w->h[A]; HM* s = 0;
    if(B == 0) { if(!conn_ok(C_) || (how >= 2 && how <= 4)) return; } else if(B == 1) { if(C_ < 0 || C_ >= NH || C_ == A) return; s = &w->h[C_]; } else { if(C_ < 0 || C_ >= NS || !w->sv[C_].exist) return; s = &w->sv[C_]; }
    if(how >= 5) s = 0;
    if(d.busy || (s && s->busy)) return; grab(d.busy, d.hb); if(s) grab(s->busy, s->hb);
    op_begin(it, b); int sc = B == 0 ? C_ : s ? s->c : -1;
    trace("op%d handle h%d <- %s%d how %d", it.id, A, B == 0 ? "conn" : B == 1 ? "h" : "scoped", C_, how);
    int exc = hv_assign(A, B, C_, how); op_end(e);
    if(how >= 5) {} else if(how <= 1) d.c = sc; else if(how <= 3) { d.c = sc; s->c = -1; } else { int x = d.c; d.c = s->c; s->c = x; }
    if(d.c >= 0) w->c[d.c].handled = true;
    if(exc) bad_exc("connection assignment", exc, it.id, P(15)|P(12));
    drop(d.busy, d.hb); if(s) drop(s->busy, s->hb); break; }
  case K_SV: {  // A=s B=op C=srckind a3=src
    int op = B, sk = C_, src = it.a[3]; if(A < 0 || A >= NS) return; HM& d = w->sv[A]; HM* s = 0;
    if(op <= 3) { if(sk == 0) { if(!conn_ok(src)) return; } else { sk = 1; if(src < 0 || src >= NH) return; s = &w->h[src]; } if(op >= 2 && !d.exist) return; }
    else if(op == 4 || op == 5 || op == 8) { if(src < 0 || src >= NS || src == A || !w->sv[src].exist) return; if(op != 4 && !d.exist) return; s = &w->sv[src]; }
    else if(op == 7) { if(!d.exist || src < 0 || src >= NH) return; s = &w->h[src]; }
    else { if(!d.exist) return; }
    if(d.busy || (s && s->busy)) return; grab(d.busy, d.hb); if(s) grab(s->busy, s->hb);
    op_begin(it, b);
    int oldc = d.exist ? d.c : -1; int sc = op <= 3 ? (sk == 0 ? src : s->c) : s ? s->c : -1;
    bool disc = (op <= 6 || op == 9) && oldc >= 0; size_t k = 0;
    if(disc) { add_cause(oldc, b, INF, CK_SCOPED, it.id); k = w->c[oldc].causes.size() - 1; }
    trace("op%d scoped s%d op %d src %d", it.id, A, op, src);
    int exc = sv_op(A, op, sk, src); op_end(e);
    if(disc) { w->c[oldc].causes[k].de = e; CNT("probe.scoped_disconnect"); }
    switch(op) { case 0: case 1: case 2: case 3: d.exist = true; d.c = sc; break; case 4: case 5: d.exist = true; d.c = sc; s->c = -1; break; case 6: d.exist = false; d.c = -1; break; case 7: s->c = d.c; d.c = -1; break; case 8: { int x = d.c; d.c = s->c; s->c = x; break; } case 9: d.c = -1; break; }
    if(d.c >= 0) w->c[d.c].handled = true;
    if(exc) bad_exc("scoped_connection", exc, it.id, P(15)|P(12));
    drop(d.busy, d.hb); if(s) drop(s->busy, s->hb);
    if(disc) expect_released(oldc, "a scoped_connection let go of it");
    break; }
  case K_HV_Q: case K_SV_Q: {
    HM* d; if(it.kind == K_HV_Q) { if(A < 0 || A >= NH) return; d = &w->h[A]; } else { if(A < 0 || A >= NS || !w->sv[A].exist) return; d = &w->sv[A]; }
    if(!grab(d->busy, d->hb)) return; op_begin(it, b); int r = 0; int exc = it.kind == K_HV_Q ? hv_connected(A, &r) : sv_connected(A, &r); op_end(e);
    if(exc) bad_exc("connected()", exc, it.id, P(15)|P(12)); else if(d->c < 0) { if(r) report(P(15), "empty-handle", "connected() is true on an empty connection object"); }
    else { QRec q; q.kind = K_Q_CONN; q.ix = d->c; q.b = b; q.e = e; q.res = r; q.op = it.id; w->q.push_back(q); if(!r) { add_cause(d->c, b, e, CK_SEENFALSE, it.id); } }
    drop(d->busy, d->hb); break; }
  case K_HV_DISC: case K_SV_DISC: {
    HM* d; if(it.kind == K_HV_DISC) { if(A < 0 || A >= NH) return; d = &w->h[A]; } else { if(A < 0 || A >= NS || !w->sv[A].exist) return; d = &w->sv[A]; }
    if(!grab(d->busy, d->hb)) return; op_begin(it, b); size_t k = 0; if(d->c >= 0) { add_cause(d->c, b, INF, CK_DISC, it.id); k = w->c[d->c].causes.size() - 1; }
    int exc = it.kind == K_HV_DISC ? hv_disconnect(A) : sv_disconnect(A); op_end(e); if(d->c >= 0) w->c[d->c].causes[k].de = e; int dc = d->c;
    if(exc) bad_exc("disconnect()", exc, it.id, P(15)|P(12)); drop(d->busy, d->hb); if(dc >= 0) expect_released(dc, "disconnect()"); break; }
  case K_HV_EQ: {
    if(A < 0 || A >= NH || B < 0 || B >= NH || A == B) return; HM& x = w->h[A]; HM& y = w->h[B]; if(x.busy || y.busy) return; grab(x.busy, x.hb); grab(y.busy, y.hb);
    op_begin(it, b); int eq = 0, lt = 0, gt = 0; int exc = hv_eq(A, B, &eq, &lt, &gt); op_end(e);
    if(exc) bad_exc("connection comparison", exc, it.id, P(15)|P(12));
    else { bool neq = eq & 2; eq &= 1;
      if(x.c == y.c && !eq) report(P(15), "handle-compare", "two handles of the same connection compare unequal");
      bool ax = x.c >= 0 && tmay(w->c[x.c], e) > e && w->c[x.c].ce < b, ay = y.c >= 0 && tmay(w->c[y.c], e) > e && w->c[y.c].ce < b;
      if(neq && (ax || x.c < 0) && (ay || y.c < 0)) report(P(15), "handle-compare", "operator!= is not the negation of operator==");
      if(x.c != y.c && (ax || ay) && eq) report(P(15), "handle-compare", "handles of different connections compare equal");
      if(ax && ay && x.c != y.c && !(lt ^ gt)) report(P(15), "handle-order", "operator< does not order two distinct live connections");
      if(ax && x.c == y.c && (lt || gt)) report(P(15), "handle-order", "operator< orders a connection before itself"); }
    drop(x.busy, x.hb); drop(y.busy, y.hb); break; }
  case K_SIG_NEW: {
    if(A < 0 || A >= NVAR || !w->vexcl[A] || w->vexcl[A] != tid() || w->api->sig_exists(A) || w->vlock[A] || w->s.size() >= 12) return;
    int sid = (int)w->s.size(); Sig s; { SetRec r; r.ver = 0; r.b = 0; r.e = 0; r.failed = false; s.sets.push_back(r); } w->s.push_back(s); op_begin(it, b); w->vlock[A]++; int exc = w->api->sig_new(A, sid, B % CM_KINDS, 1 + C_ % 3, gmode_of(sid)); w->vlock[A]--; bool fired = op_end(e);
    w->s[sid].created = e; if(exc) { if(!fired) bad_exc("signal()", exc, it.id, P(16)|P(12)); w->vsid[A] = -1; } else w->vsid[A] = sid; break; }
  case K_SIG_DESTROY: {
    if(!var_ok(A) || (!w->vexcl[A] && !w->settle) || var_busy(A)) return; if(w->vinvk[A]) CNT("fault.signal_destroyed_inside_its_invocation"); mark_inv16(A); int sid = is_null(A) ? -1 : w->vsid[A]; op_begin(it, b);
    Vec<std::pair<int,int>> ks; 
    if(sid >= 0) { w->s[sid].db = b; for(size_t i = 0; i < w->c.size(); i++) { Conn& c = w->c[i]; if(c.st == 0) continue; bool hit = c.sid == sid || (c.sp.ftype == 3 && c.sp.fid == sid); for(int j = 0; j < c.sp.nt; j++) if(c.sp.tk[j] == 2 && c.sp.to[j] == 100 + sid) hit = true;
        if(hit) { add_cause((int)i, b, INF, c.sid == sid ? CK_DESTROY : CK_INNERGONE, it.id); ks.push_back(std::make_pair((int)i, (int)c.causes.size() - 1)); } } }
    trace("op%d destroy signal %d (var %d)", it.id, sid, A);
    w->vsid[A] = -1; w->vlock[A]++; int exc = w->api->sig_destroy(A); w->vlock[A]--; op_end(e);
    if(sid >= 0) { w->s[sid].de = e; if(in_threads()) CNT("fault.signal_destroyed"); Vec<int> pend; pending_ops(pend); for(auto& k : ks) { Cause& cc = w->c[k.first].causes[k.second]; if(pend.empty()) { cc.de = e; continue; } Defer d; d.conn = k.first; d.cause = k.second; d.ops = pend; d.e = e; defers.push_back(d); } }
    if(exc) bad_exc("~signal", exc, it.id, P(16)|P(12)); break; }
  case K_SIG_MOVE: {  // A=dst B=src
    if(A == B) {   // moving or swapping a signal with itself changes nothing
      if(!var_ok(A) || w->vexcl[A] != tid() || var_busy(A) || w->vlock[A]) return; bool was = is_null(A); op_begin(it, b); trace("op%d signal var %d %s itself", it.id, A, C_ & 1 ? "swapped with" : "move-assigned to");
      w->vlock[A]++; int exc = C_ & 1 ? w->api->sig_swap(A, A, C_ & 2) : w->api->sig_move(A, A, 0); w->vlock[A]--; op_end(e); if(exc) bad_exc("signal self-move", exc, it.id, P(16)|P(12));
      if(w->vsid[A] >= 0) w->s[w->vsid[A]].moved = true; if(is_null(A) != was) report(P(16), "moved-to", "a signal that was moved to itself or swapped with itself lost what it held"); CNT("probe.signal_self_moved"); break; }
    if(A == B || !var_ok(B) || !w->vexcl[B] || A < 0 || A >= NVAR || w->vexcl[A] != tid() || var_busy(B) || w->vlock[A]) return; bool exist = w->api->sig_exists(A);
    if(exist && (!var_ok(A) || var_busy(A))) return; if(w->vinvk[A] || w->vinvk[B]) CNT("fault.signal_moved_inside_its_invocation"); mark_inv16(A); mark_inv16(B);
    // destroying the destination's old connections follows the same rules as destruction
    int old = exist && !is_null(A) ? w->vsid[A] : -1; if(exist && is_null(A)) old = -1;
    bool srcnull = is_null(B); op_begin(it, b); Vec<std::pair<int,int>> ks;
    if(old >= 0) { w->s[old].db = b; for(size_t i = 0; i < w->c.size(); i++) { Conn& c = w->c[i]; if(c.st == 0) continue; bool hit = c.sid == old || (c.sp.ftype == 3 && c.sp.fid == old); for(int j = 0; j < c.sp.nt; j++) if(c.sp.tk[j] == 2 && c.sp.to[j] == 100 + old) hit = true; if(hit) { add_cause((int)i, b, INF, c.sid == old ? CK_DESTROY : CK_INNERGONE, it.id); ks.push_back(std::make_pair((int)i, (int)c.causes.size() - 1)); } } }
    trace("op%d move signal var %d -> var %d", it.id, B, A);
    w->vlock[A]++; w->vlock[B]++; int exc = w->api->sig_move(A, B, exist ? 0 : 1); w->vlock[A]--; w->vlock[B]--; bool fired = op_end(e);
    if(exc) { if(!(fired && exc == X_BADALLOC && !exist)) bad_exc("signal move", exc, it.id, P(16)|P(12)); break; }
    int sid = w->vsid[B]; w->vsid[A] = sid; if(sid >= 0) w->s[sid].moved = true;
    if(old >= 0) { w->s[old].de = e; Vec<int> pend; pending_ops(pend); for(auto& k : ks) { Cause& cc = w->c[k.first].causes[k.second]; if(pend.empty()) { cc.de = e; continue; } Defer d; d.conn = k.first; d.cause = k.second; d.ops = pend; d.e = e; defers.push_back(d); } }
    if(!is_null(B)) report(P(16), "moved-from", "a moved-from signal is not null");
    if(is_null(A) != srcnull) report(P(16), "moved-to", "the destination of a move does not hold what the source held"); 
    CNT("probe.signal_moved");
    // the source variable now holds a null signal: it keeps existing, has no connections
    { Sig ns; w->s.push_back(ns); w->vsid[B] = (int)w->s.size() - 1; }
    break; }
  case K_SIG_SWAP: {
    if(A == B || !var_ok(A) || !var_ok(B) || !w->vexcl[A] || !w->vexcl[B] || var_busy(A) || var_busy(B)) return; mark_inv16(A); mark_inv16(B); op_begin(it, b); bool na = is_null(A), nb = is_null(B);
    w->vlock[A]++; w->vlock[B]++; int exc = w->api->sig_swap(A, B, C_ & 1); w->vlock[A]--; w->vlock[B]--; op_end(e); std::swap(w->vsid[A], w->vsid[B]); w->s[w->vsid[A]].moved = w->s[w->vsid[B]].moved = true;
    if(exc) bad_exc("signal swap", exc, it.id, P(16)|P(12)); if((is_null(A) != 0) != nb || (is_null(B) != 0) != na) report(P(16), "swap", "swap lost a signal"); break; }
  case K_SLOT_MAKE: {
    if(A < 0 || A >= NSLOT || w->sl[A].exist || B < 0 || B >= (int)w->c.size() || !w->c[B].have || w->c[B].st || w->c[B].made) return; SlotM& m = w->sl[A]; if(!grab(m.busy, m.hb)) return;
    Conn& c = w->c[B]; for(int i = 0; i < c.sp.nt; i++) if(c.sp.tk[i] == 2 || !w->o[c.sp.to[i]].have) { c.sp.nt = i; break; }
    op_begin(it, b); c.st = 3; c.made = true; int exc = w->api->slot_make(A, c.sp); bool fired = op_end(e); if(exc) { if(!fired) bad_exc("slot()", exc, it.id, P(7)|P(12)); } else { m.exist = true; m.conn = B; }
    drop(m.busy, m.hb); break; }
  case K_SLOT_CALL: case K_SLOT_Q: {
    if(A < 0 || A >= NSLOT || !w->sl[A].exist || me().invdepth >= 3 || (w->sl[A].gone && it.kind == K_SLOT_CALL)) return; SlotM& m = w->sl[A]; if(!grab(m.busy, m.hb)) return;
    u64 mayx = INF, must = INF; Conn& c = w->c[m.conn];
    op_begin(it, b);
    if(it.kind == K_SLOT_Q) { int r = 0; if(m.gone || w->anyfault) top()->mask |= P(12); int exc = w->api->slot_expired(A, &r); op_end(e); if(m.gone) { drop(m.busy, m.hb); break; }
      for(int i = 0; i < c.sp.nt; i++) { ObjM& o = w->o[c.sp.to[i]]; if(o.dropb < mayx) mayx = o.dropb; if(!o.alive && o.dead < must) must = o.dead; }
      if(exc) bad_exc("slot::expired", exc, it.id, P(7)|P(12)); else if(r && mayx > e) report(P(7), "slot-expired", "slot::expired() is true although every tracked object is owned"); else if(!r && must < b) report(P(7), "slot-expired", "slot::expired() is false although a tracked object is destroyed"); }
    else {
      int iv = new_inv(-1, b, it.id); w->inv[iv].slotcall = true; FrameI f; f.inv = iv; f.in_deref = false; f.P = b; f.derefb = 0; f.cur = -1; f.n0 = 0; me().st.push_back(f); me().invdepth++;
      InvokeOut out; w->api->slot_call(A, iv, iv * 7 + 3, out); me().invdepth--; while(me().st.back().inv != iv) me().st.pop_back(); me().st.pop_back(); bool fired = op_end(e);
      Inv& x = w->inv[iv]; x.E = e; x.done = true; int ran = (int)x.execs.size(); Conn& c2 = w->c[m.conn];
      for(int i = 0; i < c2.sp.nt; i++) { ObjM& o = w->o[c2.sp.to[i]]; if(o.dropb < mayx) mayx = o.dropb; if(!o.alive && o.dead < must) must = o.dead; }
      int oc = ran ? w->ex[x.execs[0]].outcome : 0;
      if(ran > 1) report(P(7)|P(1), "slot-call", "calling a slot ran its function twice");
      if(ran && must < b) report(P(7), "slot-call", "a slot whose tracked object is destroyed ran");
      if(!ran && out.exc == X_EXPIRED && mayx > e) report(P(7), "slot-call", "slot call threw expired_slot although every tracked object is owned");
      if(!ran && out.exc != X_EXPIRED && !(fired && (out.exc == X_BADALLOC || out.exc == X_COPY))) report(P(7), "slot-call", fmt("slot call ran nothing and ended with %s", exc_names[out.exc]));
      if(ran && oc == 0 && out.exc) report(P(7)|P(11), "slot-call", fmt("slot call ended with %s although its function returned", exc_names[out.exc]));
      if(ran && oc == 1 && out.exc != X_USER) report(P(11), "slot-call", "the exception of a slot function was lost");
      if(out.exc == X_EXPIRED && !ran) CNT("probe.slot_call_expired");
    }
    drop(m.busy, m.hb); break; }
  case K_SLOT_DROP: { if(A < 0 || A >= NSLOT || !w->sl[A].exist) return; SlotM& m = w->sl[A]; if(!grab(m.busy, m.hb)) return; op_begin(it, b); m.exist = false; m.gone = false; w->api->slot_drop(A); op_end(e); drop(m.busy, m.hb); break; }
  case K_SLOT_ASSIGN: {
    if(A < 0 || A >= NSLOT || B < 0 || B >= NSLOT || !w->sl[A].exist || !w->sl[B].exist || w->sl[B].gone || w->sl[A].busy || w->sl[B].busy) return; SlotM& m = w->sl[A]; SlotM& n = w->sl[B];
    grab(m.busy, m.hb); if(A != B) grab(n.busy, n.hb); op_begin(it, b); trace("op%d slot object %d = slot object %d", it.id, A, B);
    int exc = w->api->slot_assign(A, B); bool fired = op_end(e);
    if(exc == X_NONE) { m.conn = n.conn; m.gone = false; CNT("probe.slot_assigned"); }
    else { if(!fired || !(exc == X_BADALLOC || exc == X_COPY)) bad_exc("slot assignment", exc, it.id, P(7)|P(12)); else CNT("probe.slot_assignment_failed");
      m.gone = true; Item y = mkq(K_SLOT_Q, A); drop(m.busy, m.hb); if(A != B) drop(n.busy, n.hb); y.id = it.id + 3000; exec_op(y); break; }   // whatever it holds now, it must still be usable
    drop(m.busy, m.hb); if(A != B) drop(n.busy, n.hb); break; }
  case K_CHURN: churn_op(it); break;
  case K_BIG: {
    if(me().invdepth) return; op_begin(it, b); top()->mask |= big_mask(A)|P(10); trace("op%d large history %d, size %d", it.id, A, B);
    int exc = big_run(A, B, (unsigned)it.a[2], it.a[3]); op_end(e); if(exc) bad_exc("large history", exc, it.id, big_mask(A)); CNT("probe.large_histories"); break; }
  case K_YIELD: point(); break;
  }
}
static void run_ctx(int ctx) { auto i = w->ctx.find(ctx); if(i == w->ctx.end()) return; if(w->budget <= 0 && ctx >= 100) return; if(ctx >= 100) w->budget--; for(const Item* x : i->second) exec_op(*x); }

// ---- C17: long connect/disconnect histories keep a bounded amount of garbage -------
static size_t churn_base, churn_worst; static int churn_win[MAXT]; static bool churn_busy[MAXT]; static int churn_total;
static void churn_sample() { size_t lb = live_blocks(); lb = lb > churn_base ? lb - churn_base : 0; if(lb > churn_worst) churn_worst = lb; }
static void churn_op(const Item& it) {
  int v = it.a[0]; if(!var_ok(v) || is_null(v) || tid() < 1 || tid() > 4 || churn_busy[tid()] || churn_total > 2500) return;
  int pat = it.a[1] % 5, n = it.a[2], win = it.a[3] < 1 ? 1 : it.a[3] > 12 ? 12 : it.a[3]; int base = (tid() - 1) * 16; bool inside = it.a[1] >= 5; if(inside && n > 250) n = 250;
  u64 b, e; op_begin(it, b); w->vinfl[v]++; churn_busy[tid()] = true; top()->in_user = 1; if(churn_win[tid()] < win) churn_win[tid()] = win; churn_total += n;
  int inv_every = it.a[5]; if(inv_every && inv_every < n / 40) inv_every = n / 40;
  struct Step : ChurnStep { const Item& it; bool slots[16]; int order[16]; int on, pat, win, base, v; bool done; Rng r;
    Step(const Item& i) : it(i), on(0), done(false), r(i.a[4] * 7919 + 13) { memset(slots, 0, sizeof slots); }
    void run() {
      done = true; int slot = -1; for(int k = 0; k < win; k++) if(!slots[k]) { slot = k; break; }
      bool tracked = pat == 4;
      if(slot < 0 || (pat == 3 && on && r.chance(1, 2))) {
        int idx = pat == 1 ? on - 1 : pat == 2 ? (int)r.below(on) : 0; int k = order[idx];
        if(tracked) w->api->churn_drop(base + k); else w->api->churn_disc(base + k);
        slots[k] = false; for(int j = idx; j + 1 < on; j++) order[j] = order[j + 1]; on--; slot = slot < 0 ? k : slot;
      }
      int g = it.a[6] == 0 ? -1 : it.a[6] == 1 ? (int)r.below(3) : (int)r.below(4) - 1;
      int ex = w->api->churn_connect(v, base + slot, g, it.a[7] == 1 || (it.a[7] == 2 && r.chance(1, 2)), tracked);
      if(ex == X_NONE) { slots[slot] = true; order[on++] = slot; } else bad_exc("connect", ex, it.id, P(12)|P(17));
    } } st(it);
  st.pat = pat; st.win = win; st.base = base; st.v = v;
  for(int i = 0; i < n; i++) {
    bool inv = inside || (inv_every && i % inv_every == inv_every - 1); st.done = false;
    if(inside) churn_pend[tid()] = &st; else st.run();
    if(inv) { Item y = it; y.kind = K_INVOKE; y.id = it.id + 3000; y.a[0] = v; y.a[1] = 0; y.fk = 0; invoke_op(y); }
    churn_pend[tid()] = 0; if(!st.done) st.run();
    churn_sample();
    CNT("op.churn_cycle");
  }
  int on = st.on; int* order = st.order;
  for(int k = 0; k < on; k++) { if(pat == 4) w->api->churn_drop(base + order[k]); else w->api->churn_disc(base + order[k]); }
  w->vinfl[v]--; churn_busy[tid()] = false; op_end(e);
  CNT("probe.churn_completed");
}
static void churn_check() {
  if(!w->p->get("churn")) return;
  int live = 0; for(int t = 1; t < MAXT; t++) live += churn_win[t];
  int other = 0; for(auto& c : w->c) if(c.have) other++;
  size_t bound = CHURN_BOUND(live, other);
  if(getenv("CHURN_STAT")) printf("CHURN worst %zu live %d other %d bound %zu\n", churn_worst, live, other, bound);
  if(churn_worst > bound) report(P(17), "garbage-growth", fmt("with at most %d churning and %d other connections live the signals held %zu heap blocks more than at the start (bound %zu)", live, other, churn_worst, bound));
}

// ---- history oracles ----------------------------------------------------------
static int klass(const Conn& c) { return c.sp.group >= 0 ? 1 : c.sp.front ? 0 : 2; }
// -1: a must precede b, 1: b must precede a, 0: the documentation leaves it open
static int order_rule(const Conn& a, const Conn& b) {
  int ka = klass(a), kb = klass(b); if(ka != kb) return ka < kb ? -1 : 1;
  int ga = gclass(a.sid, a.sp.group), gb = gclass(a.sid, b.sp.group);
  if(ka == 1 && ga != gb) { bool lt = ga < gb; if(gmode_of(a.sid) & 1) lt = !lt; return lt ? -1 : 1; }
  bool fa = a.sp.front, fb = b.sp.front;
  if(fa != fb) return fa ? -1 : 1;
  if(a.ce && a.ce < b.cb) return fa ? 1 : -1;
  if(b.ce && b.ce < a.cb) return fa ? -1 : 1;
  return 0;
}
static bool maybe_blocked(int ci, u64 b, u64 e) { for(auto& x : w->bl) if(x.conn == ci && x.pb < e && x.pe > b) return true; return false; }
static bool surely_blocked(int ci, u64 b, u64 e) { // every instant of [b,e] inside some definite interval
  u64 t = b; bool adv = true; while(adv) { adv = false; for(auto& x : w->bl) if(x.conn == ci && x.db < t && x.de > t) { if(x.de > e) return true; t = x.de; adv = true; } 
    // the instant t == x.de itself must be covered by another interval: the loop requires db < t < de of a later one
  } return false; }
static Mask miss_mask(const Inv& v, const Conn& c, int ci) {
  Mask m = P(1);
  for(auto& l : w->c) if(l.sid == v.sid) for(auto& x : l.causes) if(x.kind >= CK_GROUP && x.kind <= CK_CHAIN && x.pb < v.E) m |= P(3);
  for(auto& x : w->bl) if(x.conn == ci) m |= P(4); else if(x.conn >= 0 && w->c[x.conn].sid == v.sid && x.pb < v.E) m |= P(4);
  if(c.sp.nt) m |= P(7);
  for(auto& l : w->c) if(l.sid == v.sid && l.st && l.cb > v.S && l.cb < v.E) m |= P(6);
  for(auto& l : w->c) if(l.sid == v.sid) for(auto& x : l.causes) if(x.pb > v.S && x.pb < v.E) m |= P(6);
  if(v.sid >= 0) { for(auto& x : w->s[v.sid].sets) if(x.b < v.E && x.e > v.S && x.ver > 0) m |= P(6); if(w->s[v.sid].moved || w->s[v.sid].db < v.E) m |= P(16); }
  for(auto& e : w->ex) if(e.outcome && e.b < v.S) m |= P(11);
  if(w->anyfault) m |= P(12);
  if(c.handled) m |= P(15);
  if(c.sp.ftype == 3 || v.chained) m |= P(16);
  if(c.sp.group >= 0) m |= P(5);
  return m;
}
static void check_history() {
  // a destroyed signal stays callable through its relays while some operation still uses it, or any that overlaps such a one
  for(auto& d : defers) { u64 m = d.e; for(int l : d.ops) m = std::max(m, w->ol[l].e);
    for(bool again = true; again && m != INF;) { again = false; for(auto& l : w->ol) if(l.b < m && l.e > m) { m = l.e; again = true; } }
    w->c[d.conn].causes[d.cause].de = m; }
  // failed connects count as never connected
  Map<int, int> pairs;
  size_t nc = w->c.size(); Vec<u8> seen(nc * nc, 0);
  for(size_t ii = 0; ii < w->inv.size(); ii++) {
    Inv& v = w->inv[ii]; if(v.slotcall || v.sid < 0) continue;
    Vec<int> cnt(nc, 0);
    // The invocation takes its slots and its combiner at one moment in lo..hi.
    u64 lo = v.S, hi = v.cb;
    for(int ei : v.execs) { Conn& c = w->c[w->ex[ei].conn]; if(!c.dup && c.sid == v.sid && c.cb > lo && c.cb <= v.cb) lo = c.cb; }
    if(v.rec) { SetRec* mine = 0; for(auto& s : w->s[v.sid].sets) if(s.ver == v.ver) mine = &s;
      if(mine && !mine->failed) { if(mine->b > lo && mine->b <= v.cb) lo = mine->b; for(auto& s : w->s[v.sid].sets) if(!s.failed && s.b > mine->e && s.e < hi && s.e > v.S) hi = s.e; } }
    if(lo > v.S) CNT("probe.start_moment_narrowed"); if(hi < v.cb) CNT("probe.start_moment_narrowed");
    for(size_t k = 0; k < v.execs.size(); k++) {
      Exec& x = w->ex[v.execs[k]]; Conn& c = w->c[x.conn];
      if(x.again && c.dup) continue;
      if(++cnt[x.conn] == 2 && !x.again && !c.dup) report(P(1)|P(14), "executed-twice", fmt("slot of connection %d ran twice in invocation %d", x.conn, (int)ii));
      if(c.st == 3 && !c.dup) report(P(12)|P(1), "failed-connect-ran", fmt("slot of connection %d ran although its connect threw", x.conn));
      if(c.dup) continue;
      const Cause* m = tmust(c);
      if(m && m->de < x.P) { Mask mm = cause_mask(m->kind); if(m->pb > v.S) mm |= P(6); if(w->anyfault) mm |= P(12); if(c.sp.ftype == 3 || v.chained) mm |= P(16);
        report(mm, fmt("ran-after-%s", m->kind == CK_EXPIRY ? "expiry" : m->kind == CK_DESTROY || m->kind == CK_INNERGONE ? "destroy" : "disconnect").c_str() , fmt("slot of connection %d ran at %llu in invocation %d; the previous step of that invocation was at %llu, after %s (op%d) had completed at %llu", x.conn, (unsigned long long)x.b, (int)ii, (unsigned long long)x.P, cause_names[m->kind], m->op, (unsigned long long)m->de)); }
      if(surely_blocked(x.conn, x.P, x.b)) report(P(4), "ran-while-blocked", fmt("slot of connection %d ran at %llu in invocation %d although it was blocked from before %llu on", x.conn, (unsigned long long)x.b, (int)ii, (unsigned long long)x.P));
      if(c.cb > hi) report(P(6), "ran-new-connection", fmt("slot of connection %d, connected at %llu, ran in invocation %d which took its slots and combiner before %llu", x.conn, (unsigned long long)c.cb, (int)ii, (unsigned long long)hi));
      for(size_t l = 0; l < k; l++) { int a = w->ex[v.execs[l]].conn; if(a == x.conn || w->c[a].dup) continue; Conn& ca = w->c[a];
        Mask om = P(5); if(w->anyfault) om |= P(12); if(w->s[v.sid].moved) om |= P(16);
        if(order_rule(ca, c) > 0) report(om, "order", fmt("in invocation %d the slot of connection %d ran before that of connection %d", (int)ii, a, x.conn));
        seen[a * nc + x.conn] = 1; if(seen[x.conn * nc + a]) report(om, "order-unstable", fmt("connections %d and %d ran in different orders in different invocations", a, x.conn)); }
    }
    // completeness
    bool full = v.done && v.outcome == X_NONE && v.mode != CM_STOP && v.mode != CM_SKIP; if(!v.rec) full = v.done;
    if(v.done && v.outcome != X_NONE && v.outcome != X_NOSLOTS && v.rec && v.mode != CM_STOP && v.mode != CM_SKIP && v.cb) full = true;   // combiner completed, clean-up failed later
    if(v.cb == 0 || v.injected) continue;
    for(size_t ci = 0; ci < nc; ci++) {
      Conn& c = w->c[ci]; if(c.sid != v.sid || c.st != 2 || c.ce > lo || (cnt[ci] && !c.dup)) continue;
      bool required = full;
      if(!required && v.mode != CM_SKIP && !c.dup) for(int ei : v.execs) if(!w->c[w->ex[ei].conn].dup && order_rule(c, w->c[w->ex[ei].conn]) < 0) { required = true; break; }   // a later slot ran
      if(!required) continue;
      u64 upto = v.E; 
      if(tmay(c, v.S, v.cb) <= upto || maybe_blocked((int)ci, v.S, upto)) continue;
      if(c.dup) { int need = 0, ran = 0, can = 0; for(size_t j = 0; j < nc; j++) { Conn& d = w->c[j]; if(d.sid != v.sid || d.sp.ftype != 3 || d.sp.fid != c.sp.fid || !d.st) continue; ran += cnt[j]; can += d.st != 3 && d.cb <= hi; if(d.st == 2 && d.ce <= lo && tmay(d, v.S, v.cb) > upto && !maybe_blocked((int)j, v.S, upto)) need++; } if(ran > can) report(P(1)|P(14)|P(16), "executed-twice", fmt("signal %d ran %d times in invocation %d although it had been connected %d times", c.sp.fid, ran, (int)ii, can)); if(ran >= need) continue; }
      if(c.ce > v.S) { report(miss_mask(v, c, (int)ci)|P(6), "mixed-start", fmt("invocation %d used a slot or combiner that was put in place after connection %d had been made, but did not run its slot", (int)ii, (int)ci)); continue; }
      CNT("probe.miss_candidate");
      report(miss_mask(v, c, (int)ci), "not-executed", fmt("slot of connection %d was connected, unblocked and alive throughout invocation %d (%llu..%llu) but did not run", (int)ci, (int)ii, (unsigned long long)v.S, (unsigned long long)v.E));
    }
    if(full) CNT("probe.full_invocation_checked");
    // combiner is a register
    if(v.rec) { SetRec* mine = 0; for(auto& s : w->s[v.sid].sets) if(s.ver == v.ver) mine = &s;
      if(!mine || mine->failed) report(P(6)|P(14)|P(12), "combiner-version", fmt("invocation %d used a combiner that was never set", (int)ii));
      else { if(mine->b > v.cb) report(P(6)|P(14), "combiner-version", fmt("invocation %d used a combiner set only later", (int)ii));
        for(auto& s : w->s[v.sid].sets) if(!s.failed && s.b > mine->e && s.e < v.S) report(P(6)|P(14), "combiner-stale", fmt("invocation %d used combiner version %d although version %d had been set before it began", (int)ii, v.ver, s.ver)); } }
  }
  for(auto& q : w->q) {
    if(q.kind == K_Q_CONN) { Conn& c = w->c[q.ix]; const Cause* m = 0; for(auto& x : c.causes) if(x.de != INF && x.op != q.op && (!m || x.de < m->de)) m = &x;
      if(q.res && m && m->de < q.b) report(P(13)|cause_mask(m->kind)|(c.handled ? P(15) : 0), "connected-true", fmt("connected() of connection %d was true (op%d) after %s (op%d) had completed", q.ix, q.op, cause_names[m->kind], m->op));
      u64 t = INF; for(auto& x : c.causes) if(!(x.kind == CK_SEENFALSE) && x.pb < t && !(c.truth && x.pb <= c.truth_at && q.b > c.truth_at)) t = x.pb;
      if(!q.res && t > q.e && c.st == 2 && c.ce < q.b) { Mask mm = P(13)|P(2); if(c.sp.nt) mm |= P(7); if(c.handled) mm |= P(15); for(auto& l : w->c) if(l.sid == c.sid) for(auto& x : l.causes) if(x.kind >= CK_GROUP && x.kind <= CK_CHAIN) mm |= P(3); if(w->anyfault) mm |= P(12); if(w->s[c.sid].moved) mm |= P(16); report(mm, "connected-false", fmt("connected() of connection %d was false (op%d) although nothing had disconnected it", q.ix, q.op)); } }
    else if(q.kind == K_Q_BLOCKED) { Conn& c = w->c[q.ix]; const Cause* m = tmust_x(c);
      if(q.res && tmay(c, q.b) > q.e && !maybe_blocked(q.ix, q.b, q.e) && c.st == 2 && c.ce < q.b) report(P(13)|P(4), "blocked-true", fmt("blocked() of connection %d was true (op%d) although it is connected and not blocked", q.ix, q.op));
      if(!q.res && surely_blocked(q.ix, q.b, q.e)) report(P(13)|P(4), "blocked-false", fmt("blocked() of connection %d was false (op%d) while a shared_connection_block asserted a block", q.ix, q.op));
      if(!q.res && m && m->de < q.b) report(P(13), "blocked-false-disconnected", fmt("blocked() of connection %d was false (op%d) although it had been disconnected", q.ix, q.op)); }
    else if(q.kind == K_Q_NUM || q.kind == K_Q_EMPTY) { int lo = 0, hi = 0; Mask km = P(13);
      if(q.ix >= 0) for(auto& c : w->c) if(c.sid == q.ix && c.st != 0) { const Cause* m = tmust(c); if(c.st == 2 && c.ce < q.b && tmay(c, q.b) > q.e) lo++; if(c.st != 3 && c.cb < q.e && !(m && m->de < q.b)) hi++; if(m && m->de < q.b) km |= cause_mask(m->kind) & ~P(2); }
      if(w->anyfault) km |= P(12);
      if(q.ix >= 0 && w->s[q.ix].moved) km |= P(16);
      if(q.ix < 0) km |= P(16);
      if(w->p->get("churn")) { hi += 64; }
      if(q.kind == K_Q_NUM) { if(q.res < lo || q.res > hi) report(km, "num_slots", fmt("num_slots() of signal %d was %d (op%d), possible range %d..%d", q.ix, q.res, q.op, lo, hi)); }
      else { if(q.res && lo > 0) report(km, "empty", fmt("empty() of signal %d was true (op%d) with %d slots connected", q.ix, q.op, lo)); if(!q.res && hi == 0) report(km, "empty", fmt("empty() of signal %d was false (op%d) with no slot connected", q.ix, q.op)); } }
    else if(q.kind == K_GETCOMB) { SetRec* mine = 0; for(auto& s : w->s[q.ix].sets) if(s.ver == q.res) mine = &s;
      if(!mine || mine->failed || mine->b > q.e) report(P(14)|P(6), "combiner-version", "combiner() returned a combiner that was never set");
      else for(auto& s : w->s[q.ix].sets) if(!s.failed && s.b > mine->e && s.e < q.b) report(P(14)|P(6), "combiner-stale", fmt("combiner() returned version %d although version %d had been set", q.res, s.ver)); }
  }
  CNT("probe.histories_checked");
}

// ---- settle: exact sequential verdict once all threads are done ---------------------
static int settle_id;
static Item mk(int kind, int a0 = 0, int a1 = 0, int a2 = 0, int a3 = 0) { Item x; x.type = 'o'; x.id = 9000 + settle_id++; x.ctx = 0; x.kind = kind; memset(x.a, 0, sizeof x.a); x.a[0] = a0; x.a[1] = a1; x.a[2] = a2; x.a[3] = a3; x.fk = x.fn = 0; return x; }
static void settle_queries() {
  for(size_t i = 0; i < w->c.size(); i++) { Conn& c = w->c[i]; if(c.st != 2 || !conn_published((int)i)) continue;
    exec_op(mk(K_Q_CONN, (int)i)); QRec& r = w->q.back(); Conn& c2 = w->c[i]; if(r.res) { c2.truth = true; c2.truth_at = r.e; } else c2.truth = false; exec_op(mk(K_Q_BLOCKED, (int)i)); }
  for(int v = 0; v < NVAR; v++) if(var_ok(v)) { exec_op(mk(K_Q_NUM, v)); exec_op(mk(K_Q_EMPTY, v)); }
}
static void settle_invoke() { for(int v = 0; v < NVAR; v++) if(var_ok(v) && !is_null(v)) exec_op(mk(K_INVOKE, v, v & 1)); }
// many connections die at once, then the signal is only invoked, or only connected to
static void churn_burst(int v) {
  int how = w->p->get("burst"); if(!how || !var_ok(v) || is_null(v)) return; Rng r((u64)how * 7919 + v); int n = r.range(40, 250), keep = r.chance(1, 2) ? 0 : (int)r.range(1, 6), kill = r.below(4), after = r.below(3); bool tracked = kill == 0;
  exec_op(mk(K_DISC_ALL, v)); exec_op(mk(K_INVOKE, v)); if(!var_ok(v)) return;
  size_t base = live_blocks(); Vec<int> ix;
  push_frame(mk(0).id, K_CHURN, 0, 0, P(17)); int gm = r.below(3), ng = r.range(1, 40);
  for(int k = 0; k < n; k++) { int ex = w->api->churn_connect(v, 64 + k, gm == 0 ? -1 : gm == 1 ? (int)r.below(ng) : (int)r.below(4) - 1, r.chance(1, 3), tracked); if(ex) bad_exc("connect", ex, 0, P(12)|P(17)); ix.push_back(64 + k); }
  for(size_t i = ix.size(); i > 1; i--) std::swap(ix[i-1], ix[r.below((u32)i)]);
  int dead = n - keep; pop_frame();
  if(kill == 1 && !keep) { exec_op(mk(K_DISC_ALL, v)); }
  push_frame(mk(0).id, K_CHURN, 0, 0, P(17));
  for(int k = 0; k < dead; k++) { if(tracked) w->api->churn_drop(ix[k]); else w->api->churn_disc(ix[k]); }
  pop_frame();
  trace("%d connections of signal var %d died at once, %d stay (%s)", dead, v, keep, after == 2 ? "then only connects follow" : "then only invocations follow");
  if(after < 2) for(int k = 0; k < 2; k++) exec_op(mk(K_INVOKE, v));
  else { push_frame(mk(0).id, K_CHURN, 0, 0, P(17)); for(int k = 0; k < 2 * n; k++) { int ex = w->api->churn_connect(v, 64 + 250, -1, 0, 0); if(ex) bad_exc("connect", ex, 0, P(12)|P(17)); w->api->churn_disc(64 + 250); } pop_frame(); }
  size_t lb = live_blocks(); lb = lb > base ? lb - base : 0; CNT("probe.burst_measured");
  if(getenv("CHURN_STAT")) printf("BURST after %zu keep %d n %d how %d/%d\n", lb, keep, n, kill, after);
  if(lb > CHURN_BOUND(keep, 0) - 100) report(P(17), "garbage-growth", fmt("%d of %d connections died at once; after %s the signal still holds %zu heap blocks more than before they were made (%d live; bound %zu)", dead, n, after < 2 ? "two more invocations" : "as many connects and disconnects again", lb, keep, CHURN_BOUND(keep, 0) - 100));
  push_frame(mk(0).id, K_CHURN, 0, 0, P(17)); for(int k = dead; k < n; k++) { if(tracked) w->api->churn_drop(ix[k]); else w->api->churn_disc(ix[k]); } pop_frame();
}
static void settle() {
  w->settle = true; settle_id = 0; w->budget = 0;
  for(int v = 0; v < NVAR; v++) if(w->vsid[v] >= 0 && w->api->sig_exists(v)) { if(!is_null(v) && w->api->has_rec()) exec_op(mk(K_SETCOMB, v, CM_ALL)); }
  settle_queries(); settle_invoke();
  for(int b = 0; b < NBLK; b++) if(w->b[b].exist) { exec_op(mk(K_BLK_Q, b)); exec_op(mk(b & 1 ? K_BLK_UNBLOCK : K_BLK_DEL, b)); }
  settle_queries(); settle_invoke();
  // disconnect some of what is left, one way or another
  int k = 0; for(size_t i = 0; i < w->c.size(); i++) if(w->c[i].st == 2 && w->c[i].truth) { if(k % 3 == 0) exec_op(mk(K_DISC, (int)i)); k++; }
  settle_queries(); settle_invoke();
  for(int o = 0; o < NOBJ; o++) for(int r = 0; r < NREF; r++) exec_op(mk(K_DROP, o, r));
  settle_queries(); settle_invoke();
  for(int s = 0; s < NS; s++) exec_op(mk(K_SV, s, 6));
  for(int v = 0; v < NVAR; v++) churn_burst(v);
  for(int v = 0; v < NVAR; v++) if(w->vsid[v] >= 0 && w->api->sig_exists(v)) exec_op(mk(K_SIG_DESTROY, v));
  for(size_t i = 0; i < w->c.size(); i++) if(w->c[i].st == 2 && conn_published((int)i)) exec_op(mk(K_Q_CONN, (int)i));
  for(int s = 0; s < NSLOT; s++) exec_op(mk(K_SLOT_DROP, s));
  push_frame(9999, K_SIG_DESTROY, 0, 0, P(8)|P(16)); w->api->reset(); pop_frame();
  for(size_t i = 0; i < w->c.size(); i++) if(w->c[i].copies) report(P(8), "functor-leak", fmt("%d copies of the functor of connection %d survive the destruction of every signal", w->c[i].copies, (int)i));
  for(int o = 0; o < NOBJ; o++) if(w->o[o].have && w->o[o].alive) report(P(7)|P(8), "tracked-leak", fmt("tracked object %d survives the destruction of every signal and owner", o));
  if(size_t lk = leaked_blocks()) report(P(8)|(w->anyfault ? P(12) : 0)|(w->p->get("churn") ? P(17) : 0), "leak", fmt("%zu heap blocks are never released:", lk) + describe_leaks(6));
}
static void thread_main(int t) { run_ctx(t); }

static void body(const Plan& p) {
  static W* keep = 0; delete keep; keep = new W(); w = keep; defers.clear();
  w->p = &p; w->cfg = p.get("cfg"); w->api = sig_api(w->cfg); w->budget = p.get("budget", 60); w->settle = false; w->combver = 0; w->desc0 = w->api->descending(); w->desc = p.get("desc"); w->opsdone = 0; w->anyfault = false;
  for(int i = 0; i < NVAR; i++) { w->vsid[i] = -1; w->vexcl[i] = 0; w->vinfl[i] = 0; w->vinvk[i] = 0; w->vlock[i] = 0; }
  for(int i = 0; i < NBLK; i++) hb_clear(w->b[i].hb);
  for(int i = 0; i < NH; i++) hb_clear(w->h[i].hb);
  for(int i = 0; i < NS; i++) hb_clear(w->sv[i].hb);
  for(int i = 0; i < NSLOT; i++) hb_clear(w->sl[i].hb);
  w->c.resize(NCONN);
  for(auto& it : p.items) {
    if(it.type == 'o') w->ctx[it.ctx].push_back(&it);
    else if(it.type == 'c' && it.id >= 0 && it.id < NCONN) { Conn& c = w->c[it.id]; c.have = true; ConnSpec& s = c.sp; s.id = it.id; s.var = it.ctx; s.ftype = it.kind; s.fid = it.a[0]; s.group = it.a[1]; s.front = it.a[2]; s.inner = it.a[3]; s.outcome = it.a[6]; s.boundmode = it.a[7];
      for(int k = 4; k <= 5; k++) if(it.a[k]) { int x = it.a[k] - 1; s.tk[s.nt] = x / 16 % 8; s.to[s.nt] = x % 16; s.tr[s.nt] = x / 128; s.nt++; } if(s.ftype == 3 && !w->api->can_chain()) c.have = false; }
    else if(it.type == 'j' && it.id >= 0 && it.id < NOBJ) { ObjM& o = w->o[it.id]; o.have = true; o.kind = it.kind; o.refs = it.a[0]; o.alive = true; for(int r = 0; r < it.a[0] && r < NREF; r++) o.ref[r] = true; obj_make(it.id, it.kind, it.a[0]); }
    else if(it.type == 'v' && it.id >= 0 && it.id < NVAR) { int sid = (int)w->s.size(); Sig s; w->s.push_back(s); w->vsid[it.id] = sid; w->vexcl[it.id] = it.kind; w->cmode[it.id] = it.a[0]; w->cn[it.id] = it.a[1];
      int exc = w->api->sig_new(it.id, sid, it.a[0] % CM_KINDS, 1 + it.a[1] % 3, gmode_of(sid)); if(exc) fatal(P(16), "setup", "signal construction failed"); }
  }
  for(size_t i = 0; i < w->s.size(); i++) { w->s[i].created = now(); SetRec r; r.ver = 0; r.b = 0; r.e = 0; r.failed = false; w->s[i].sets.push_back(r); }
  // tracked kinds must match the kind of the object
  for(auto& c : w->c) if(c.have) for(int i = 0; i < c.sp.nt; i++) if(c.sp.tk[i] != 2) { ObjM& o = w->o[c.sp.to[i]]; int& k = c.sp.tk[i]; bool std_ = k == 1 || k == 5 || k == 6; if(o.have && o.kind == 1 && !std_) k = 1; if(o.have && o.kind == 0 && std_) k = 0; if(!o.have) { c.sp.nt = i; break; } }
  if(p.get("churn") || p.get("big")) set_step_limit(12000000);   // a clean-up that visits every dead entry is quadratic here, not endless
  trace("setup"); run_ctx(0);
  int n = p.get("threads", 2); if(w->cfg == 3) n = 1;
  trace("threads"); churn_base = live_blocks(); churn_worst = 0; memset(churn_pend, 0, sizeof churn_pend); churn_total = 0; for(int t = 0; t < MAXT; t++) { churn_win[t] = 0; churn_busy[t] = false; }
  threads(n, thread_main); churn_check();
  trace("settle"); settle();
  check_history();
}

// ---- generation ------------------------------------------------------------------
struct Prof { const char* name; int w[K_KINDS]; int fault_pct; int track_pct; int throw_pct; int block; int excl; int chain; int script_pct; };
enum { PF_MIX };
static void weights(const char* n, int* W_, int& fault, int& track, int& thr, int& excl, int& chain, int& script) {
  for(int i = 0; i < K_KINDS; i++) W_[i] = 0;
  W_[K_CONNECT] = 12; W_[K_DISC] = 8; W_[K_INVOKE] = 16; W_[K_DISC_GROUP] = 1; W_[K_DISC_FN] = 1; W_[K_DISC_ALL] = 1; W_[K_DISC_CHAIN] = 0; W_[K_BLK_NEW] = 2; W_[K_BLK_BLOCK] = 1; W_[K_BLK_UNBLOCK] = 1; W_[K_BLK_DEL] = 1; W_[K_Q_CONN] = 2; W_[K_Q_BLOCKED] = 1; W_[K_Q_NUM] = 2; W_[K_Q_EMPTY] = 1; W_[K_SETCOMB] = 1; W_[K_DROP] = 2; W_[K_EXT_DISC] = 1;
  fault = 0; track = 15; thr = 3; excl = 10; chain = 15; script = 35;
  Str s = n;
  if(s == "C01") { W_[K_CONNECT] = 16; W_[K_INVOKE] = 22; }
  else if(s == "C02") { W_[K_DISC] = 20; W_[K_EXT_DISC] = 5; W_[K_DISC_ALL] = 3; W_[K_DISC_GROUP] = 3; W_[K_DISC_FN] = 3; W_[K_SV] = 4; script = 55; }
  else if(s == "C03") { W_[K_DISC_GROUP] = 12; W_[K_DISC_FN] = 12; W_[K_DISC_ALL] = 6; W_[K_DISC_CHAIN] = 6; W_[K_CONNECT] = 18; chain = 30; W_[K_DISC] = 3; }
  else if(s == "C04") { W_[K_BLK_NEW] = 14; W_[K_BLK_BLOCK] = 10; W_[K_BLK_UNBLOCK] = 10; W_[K_BLK_DEL] = 6; W_[K_BLK_COPY] = 6; W_[K_BLK_Q] = 5; W_[K_Q_BLOCKED] = 10; W_[K_BLK_SCOPE] = 5; W_[K_DISC] = 4; script = 50; }
  else if(s == "C05") { W_[K_CONNECT] = 30; W_[K_DISC] = 12; W_[K_DROP] = 3; W_[K_DISC_GROUP] = 3; W_[K_INVOKE] = 14; W_[K_SETCOMB] = 0; }
  else if(s == "C06") { script = 85; W_[K_CONNECT] = 20; W_[K_SETCOMB] = 10; W_[K_GETCOMB] = 3; W_[K_DISC] = 14; W_[K_INVOKE] = 20; }
  else if(s == "C07") { track = 75; W_[K_DROP] = 16; W_[K_SLOT_MAKE] = 4; W_[K_SLOT_CALL] = 8; W_[K_SLOT_Q] = 3; W_[K_SLOT_ASSIGN] = 3; W_[K_SLOT_DROP] = 1; W_[K_Q_CONN] = 4; thr = 8; W_[K_SIG_DESTROY] = 2; excl = 25; script = 45; }
  else if(s == "C08") { W_[K_DISC] = 18; W_[K_EXT_DISC] = 6; script = 70; W_[K_DISC_ALL] = 3; W_[K_SV] = 3; thr = 8; track = 30; W_[K_DROP] = 5; }
  else if(s == "C09") { script = 85; track = 45; W_[K_DROP] = 10; W_[K_Q_NUM] = 5; W_[K_Q_EMPTY] = 4; W_[K_Q_CONN] = 5; W_[K_DISC_GROUP] = 3; W_[K_DISC_FN] = 3; W_[K_DISC_ALL] = 3; W_[K_BLK_NEW] = 4; W_[K_DISC_CHAIN] = 3; W_[K_GETCOMB] = 2; }
  else if(s == "C10") { script = 40; track = 35; W_[K_Q_CONN] = 6; W_[K_Q_BLOCKED] = 6; W_[K_Q_NUM] = 4; W_[K_Q_EMPTY] = 3; W_[K_BLK_NEW] = 6; W_[K_BLK_BLOCK] = 4; W_[K_BLK_UNBLOCK] = 4; W_[K_SETCOMB] = 4; W_[K_GETCOMB] = 3; W_[K_DISC_CHAIN] = 2; W_[K_DROP] = 6; W_[K_SV] = 3; }
  else if(s == "C11") { thr = 50; script = 35; W_[K_INVOKE] = 24; W_[K_DISC] = 8; }
  else if(s == "C12") { fault = 45; track = 30; W_[K_CONNECT] = 26; W_[K_SETCOMB] = 4; W_[K_GETCOMB] = 2; W_[K_BLK_NEW] = 4; W_[K_SIG_NEW] = 1; W_[K_SV] = 3; W_[K_SLOT_MAKE] = 2; W_[K_SLOT_CALL] = 2; W_[K_SLOT_ASSIGN] = 2; W_[K_SLOT_Q] = 1; W_[K_DROP] = 4; W_[K_DISC_GROUP] = 3; script = 25; }
  else if(s == "C13") { W_[K_Q_CONN] = 12; W_[K_Q_BLOCKED] = 8; W_[K_Q_NUM] = 12; W_[K_Q_EMPTY] = 8; W_[K_DROP] = 5; track = 35; W_[K_EXT_Q] = 3; W_[K_BLK_NEW] = 6; W_[K_BLK_DEL] = 4; }
  else if(s == "C14") { W_[K_INVOKE] = 26; W_[K_SETCOMB] = 12; W_[K_GETCOMB] = 6; thr = 10; W_[K_EXT_DISC] = 4; W_[K_EXT_Q] = 3; chain = 25; }
  else if(s == "C15") { W_[K_SV] = 26; W_[K_HV] = 14; W_[K_HV_Q] = 6; W_[K_SV_Q] = 6; W_[K_HV_DISC] = 4; W_[K_SV_DISC] = 3; W_[K_HV_EQ] = 8; W_[K_SIG_DESTROY] = 2; excl = 25; W_[K_DISC] = 3; }
  else if(s == "C16") { excl = 80; W_[K_SIG_NEW] = 4; W_[K_SIG_DESTROY] = 6; W_[K_SIG_MOVE] = 8; W_[K_SIG_SWAP] = 6; chain = 60; W_[K_DISC_CHAIN] = 3; W_[K_Q_NUM] = 5; W_[K_Q_CONN] = 4; }
  else if(s == "C17") { W_[K_CHURN] = 14; W_[K_CONNECT] = 4; W_[K_DISC] = 2; W_[K_INVOKE] = 6; script = 30; }
}
static void generate(Plan& p) {
  Rng r(p.seed * 0x9E3779B97F4A7C15ull + 12345); for(int i = 0; i < 3; i++) r.next();
  int W_[K_KINDS], fault, track, thr, excl, chain, script; weights(p.profile.c_str(), W_, fault, track, thr, excl, chain, script);
  // swarm: switch a random subset of the optional operation kinds off, others up
  for(int i = 0; i < K_KINDS; i++) if(i != K_INVOKE && i != K_CONNECT && i != K_DISC && W_[i]) { if(r.chance(1, 6)) W_[i] = 0; else if(r.chance(1, 8)) W_[i] *= 4; }
  bool churn = W_[K_CHURN] > 0 && p.profile == "C17";
  int cfgw = r.below(100); int cfg = cfgw < 38 ? 0 : cfgw < 51 ? 5 : cfgw < 55 ? 6 : cfgw < 63 ? 1 : cfgw < 73 ? 2 : cfgw < 81 ? 3 : cfgw < 89 ? 4 : cfgw < 93 ? 7 : cfgw < 97 ? 8 : 9;
  if(p.profile == "C06" || p.profile == "C16") { if(cfg == 1 || cfg == 4 || cfg >= 6) cfg = 0; }
  if(p.profile == "C10" && cfg == 3) cfg = 0;
  int nt = cfg == 3 ? 1 : r.chance(1, 10) ? 1 : r.chance(5, 10) ? 2 : r.chance(7, 10) ? 3 : 4;
  if(r.chance(1, 12)) fault = std::max(fault, 25); 
  bool faults = fault > 0 && (p.profile == "C12" || r.chance(1, 2));
  p.set("cfg", cfg); p.set("threads", nt); p.set("budget", 10 + r.below(70)); if((cfg == 0 || cfg == 3 || cfg == 5) && r.chance(1, 2)) p.set("desc", r.chance(1, 2) ? 0x55 * r.below(4) : r.below(256)); if(churn) { p.set("churn", 1); if(r.chance(1, 3)) p.set("burst", 1 + r.below(100000)); } if(r.chance(1, p.profile == "C03" ? 2 : p.profile == "C16" ? 4 : 8)) p.set("dup", 1);
  int nv = r.chance(1, 2) ? 1 : r.chance(2, 3) ? 2 : 3; bool ex = (int)r.below(100) < excl; if(ex) nv = std::max(nv, 2); bool ch = (cfg == 0 || cfg == 3 || cfg == 5) && (int)r.below(100) < chain; if(ch) nv = std::max(nv, 2);
  if(p.profile == "C16") nv = r.range(2, 4);
  int id = 0;
  int exown[NVAR] = {0,0,0,0};
  bool simplecomb = r.chance(1, 2);
  for(int v = 0; v < nv; v++) { Item i; memset(&i, 0, sizeof i); i.type = 'v'; i.id = v; i.kind = ex && (v > 0 || r.chance(1, 3)) ? 1 + (int)r.below(nt) : 0; if(p.profile == "C16" && ex && r.chance(1, 2)) i.kind = 1; exown[v] = i.kind; i.a[0] = simplecomb ? CM_ALL : r.chance(1, 2) ? CM_ALL : (int)r.below(CM_KINDS); i.a[1] = r.below(3); p.items.push_back(i); }
  for(int v = nv; v < NVAR; v++) exown[v] = 1;
  int no = track ? r.range(1, NOBJ - 1) : 0;
  for(int o = 0; o < no; o++) { Item i; memset(&i, 0, sizeof i); i.type = 'j'; i.id = o; i.kind = r.chance(2, 5); i.a[0] = r.chance(3, 4) ? 1 : 2; p.items.push_back(i); }
  int nconn = churn ? r.range(1, 6) : r.range(2, r.chance(1, 3) ? 20 : 9);
  int gmode = r.below(4); // 0 ungrouped only, 1 grouped only, else mixed
  if(p.profile == "C05" || p.profile == "C03") gmode = r.chance(1, 6) ? r.below(2) : 2;
  bool manytrack = track && r.chance(1, 6), slowexpiry = track && r.chance(1, 8); if(slowexpiry) { no = 1; track = 90; }
  bool slotmode = no && W_[K_SLOT_ASSIGN] && r.chance(1, 8); if(slotmode) { track = 90; W_[K_SLOT_ASSIGN] = 30; W_[K_SLOT_CALL] += 6; W_[K_SLOT_MAKE] = 6; W_[K_SLOT_DROP] += 2; for(auto& i : p.items) if(i.type == 'j') i.kind = r.chance(3, 4); }   // assignments between slot objects
  // mass expiry: many slots expire at once and are cleaned up together by a connect within an invocation
  bool mass = no && !churn && r.chance(1, p.profile == "C12" ? 10 : p.profile == "C07" || p.profile == "C09" || p.profile == "C08" ? 20 : 60);
  if(mass) { nconn = r.range(15, NCONN - 1); for(auto& i : p.items) if(i.type == 'j' && i.id == 0) i.a[0] = 1; }
  int ng = r.range(1, r.chance(1, 3) ? 7 : 4), nf = r.range(1, 4);
  Vec<int> convar;
  for(int c = 0; c < nconn; c++) {
    Item i; memset(&i, 0, sizeof i); i.type = 'c'; i.id = c; i.ctx = r.below(nv); i.kind = r.below(100) < 45 ? 0 : r.chance(1, 2) ? 1 : 2;
    i.a[0] = r.below(nf); bool g = gmode == 0 ? false : gmode == 1 ? true : r.chance(1, 2); i.a[1] = g ? (int)r.below(ng) : -1; i.a[2] = r.chance(1, 3);
    i.a[3] = -1;
    if(ch && i.ctx < nv - 1 && r.chance(1, 3)) { i.kind = 3; i.a[3] = r.range(i.ctx + 1, nv - 1); i.a[0] = -1; }
    if(i.kind == 0 && r.chance(1, 6)) { i.kind = r.chance(1, 2) ? 4 : r.chance(1, 2) ? 5 : 6; if(i.kind != 6) i.a[0] = i.kind == 4 ? c : -1; }
    if(no && (int)r.below(100) < track) { int o = r.below(no); i.a[4] = 1 + 16 * (int[]){0, 0, 3, 4, 1, 5, 6}[r.below(7)] + o; if(slotmode && r.chance(2, 3)) i.a[4] = 1 + 16 * 6 + o; if(manytrack && r.chance(1, 2)) i.a[4] += 128 * (int)r.range(5, 24); if(r.chance(1, 4)) i.a[5] = 1 + 16 * 0 + (int)r.below(no); else if(nv > 1 && r.chance(1, 8)) i.a[5] = 1 + 16 * 2 + (int)r.below(nv); }
    if(i.kind != 3 && (int)r.below(100) < thr) i.a[6] = r.chance(3, 5) ? 1 : 2; if(i.a[6] && r.chance(1, 3)) i.a[6] |= 4;
    i.a[7] = r.chance(1, 2);
    if(mass) { i.ctx = 0; if(i.kind == 3) { i.kind = 0; i.a[3] = -1; i.a[0] = r.below(nf); } i.a[6] = 0; i.a[4] = c == 0 || c >= nconn - 3 ? 0 : 1 + 16 * (i.a[4] ? (i.a[4] - 1) / 16 % 8 : 0); if(c && i.a[4] && r.chance(5, 6)) i.a[5] = 0; if(c == 0) { i.kind = 0; i.a[0] = r.below(nf); i.a[1] = -1; i.a[2] = 1; i.a[5] = 0; } }
    convar.push_back(i.ctx);
    p.items.push_back(i);
  }
  auto pick = [&](const int* ww) { int s = 0; for(int i = 0; i < K_KINDS; i++) s += ww[i]; int x = r.below(s); for(int i = 0; i < K_KINDS; i++) { x -= ww[i]; if(x < 0) return i; } return (int)K_INVOKE; };
  int nextc = 0; Vec<int> pool; for(int c = 0; c < nconn; c++) pool.push_back(c); for(size_t i = pool.size(); i > 1; i--) std::swap(pool[i-1], pool[r.below((u32)i)]);
  auto add = [&](int ctx, int k) {
    Item i; memset(&i, 0, sizeof i); i.type = 'o'; i.id = id++; i.ctx = ctx; i.kind = k; int own = ctx >= 1 && ctx < 100 ? ctx : 0; (void)own;
    auto var = [&]() { for(int t = 0; t < 4; t++) { int v = r.below(nv); if(!exown[v] || exown[v] == ctx || ctx >= 100) return v; } return (int)r.below(nv); };
    switch(k) {
      case K_CONNECT: i.a[0] = nextc < (int)pool.size() ? pool[nextc++] : (int)r.below(nconn); break;
      case K_DISC: i.a[0] = r.below(nconn); i.a[1] = r.below(3); break;
      case K_DISC_GROUP: i.a[0] = var(); i.a[1] = r.below(ng + 1); i.a[3] = r.below(2); break;
      case K_DISC_FN: i.a[0] = var(); i.a[1] = r.below(3); i.a[2] = r.below(nf); i.a[3] = r.below(2); if(r.chance(1, 4)) { i.a[1] = r.chance(2, 3) ? 4 : 6; i.a[2] = i.a[1] == 4 ? r.below(nconn) : r.below(nf); } break;
      case K_DISC_ALL: i.a[0] = var(); break;
      case K_DISC_CHAIN: i.a[0] = r.below(nv); i.a[1] = r.below(nv); break;
      case K_INVOKE: i.a[0] = var(); i.a[1] = r.below(2); break;
      case K_BLK_NEW: i.a[0] = r.below(NBLK - 1); i.a[1] = r.below(nconn); i.a[2] = r.chance(3, 4) ? 1 + r.below(2) : 0; break;
      case K_BLK_BLOCK: case K_BLK_UNBLOCK: case K_BLK_DEL: case K_BLK_Q: i.a[0] = r.below(NBLK - 1); break;
      case K_BLK_COPY: i.a[0] = r.below(NBLK - 1); i.a[1] = r.below(NBLK - 1); break;
      case K_BLK_SCOPE: i.a[0] = var(); i.a[1] = r.below(nconn); break;
      case K_Q_CONN: case K_Q_BLOCKED: i.a[0] = r.below(nconn); break;
      case K_Q_NUM: case K_Q_EMPTY: case K_GETCOMB: i.a[0] = var(); break;
      case K_SETCOMB: i.a[0] = var(); i.a[1] = r.chance(1, 2) ? CM_ALL : (int)r.below(CM_KINDS); i.a[2] = r.below(3); break;
      case K_DROP: i.a[0] = no ? r.below(no) : 0; i.a[1] = r.chance(3, 4) ? 0 : 1; break;
      case K_HV: i.a[0] = r.below(NH); i.a[1] = r.below(3); i.a[2] = i.a[1] == 0 ? r.below(nconn) : r.below(4); i.a[3] = r.below(8); break;
      case K_SV: i.a[0] = r.below(NS); i.a[1] = r.chance(1, 3) ? (int)r.below(2) : (int)r.below(13); i.a[2] = r.chance(1, 3); i.a[3] = i.a[1] <= 3 ? (i.a[2] ? r.below(NH) : r.below(nconn)) : i.a[1] == 7 ? r.below(NH) : r.below(NS); break;
      case K_HV_Q: case K_HV_DISC: i.a[0] = r.below(NH); break;
      case K_SV_Q: case K_SV_DISC: i.a[0] = r.below(NS); break;
      case K_HV_EQ: i.a[0] = r.below(NH); i.a[1] = r.below(NH); break;
      case K_SIG_NEW: i.a[0] = r.below(NVAR); i.a[1] = CM_ALL; break;
      case K_SIG_DESTROY: i.a[0] = r.below(nv); break;
      case K_SIG_MOVE: case K_SIG_SWAP: i.a[0] = r.below(NVAR); i.a[1] = r.below(nv); i.a[2] = r.below(2); if(k == K_SIG_MOVE && r.chance(1, 6)) { i.a[0] = i.a[1]; i.a[2] = r.below(4); } break;
      case K_SLOT_MAKE: i.a[0] = r.below(NSLOT); i.a[1] = r.below(nconn); break;
      case K_SLOT_ASSIGN: i.a[0] = r.below(NSLOT); i.a[1] = r.below(NSLOT); break;
      case K_SLOT_CALL: case K_SLOT_Q: case K_SLOT_DROP: i.a[0] = r.below(NSLOT); break;
      case K_CHURN: i.a[0] = var(); i.a[1] = r.below(5) + (r.chance(1, 4) ? 5 : 0); i.a[2] = r.chance(1, 10) ? r.range(500, 1200) : r.chance(1, 3) ? r.range(200, 500) : r.range(60, 200); i.a[3] = r.range(1, 10); i.a[4] = r.below(1000); i.a[5] = r.chance(1, 2) ? 0 : r.range(2, 20); i.a[6] = r.below(3); i.a[7] = r.below(3); break;
    }
    if(faults && (int)r.below(100) < fault) {
      int f = r.below(10); 
      if(f < 5) { i.fk = F_ALLOC_NTH; i.fn = 1 + r.below(r.chance(1, 3) ? 20 : 12); } else if(f < 7) { i.fk = F_ALLOC_FROM; i.fn = 1 + r.below(10); }
      else if(f < 8) { i.fk = F_COPY_NTH; i.fn = 1 + r.below(r.chance(1, 2) ? 6 : 14); } else if(f < 9) { i.fk = F_CMP_NTH; i.fn = 1 + r.below(r.chance(1, 2) ? 4 : 12); } else { i.fk = k == K_SETCOMB ? F_ASSIGN_NTH : F_ALLOC_NTH; i.fn = 1; }
      if(k == K_CHURN) { i.fk = i.fn = 0; }
    }
    if(slotmode && faults && k == K_SLOT_ASSIGN && ctx && r.chance(1, 2)) { i.fk = r.chance(1, 2) ? F_COPY_NTH : F_ALLOC_NTH; i.fn = 1 + r.below(4); }
    p.items.push_back(i);
  };
  // setup: connect part of the connections (and slot objects, handles)
  int pre = r.below(nconn + 1); if(r.chance(1, 4)) pre = nconn; if(p.profile == "C05" && r.chance(1, 2)) pre = nconn / 3;
  if(mass) { for(size_t i = 0; i < pool.size(); i++) pool[i] = (int)i; pre = nconn - 3; }
  for(int i = 0; i < pre; i++) { add(0, K_CONNECT); if(mass) p.items.back().fk = p.items.back().fn = 0; }
  if(mass) {
    add(100, K_DROP); Item& d = p.items.back(); d.a[0] = d.a[1] = 0; d.fk = d.fn = 0;
    add(100, K_CONNECT); if(faults && r.chance(4, 5)) { p.items.back().fk = F_ALLOC_NTH; p.items.back().fn = 20 + r.below(60); }
    add(1, K_INVOKE); Item& v = p.items.back(); v.a[0] = 0; v.fk = v.fn = 0; }
  if(W_[K_SLOT_MAKE]) for(int i = 0; i < 2 + (int)r.below(2) + slotmode; i++) add(0, K_SLOT_MAKE);
  if(W_[K_BLK_NEW] > 1 && r.chance(1, 2)) { int k = r.range(1, 3); for(int i = 0; i < k; i++) add(0, K_BLK_NEW); }
  if(W_[K_SV] > 5 ) { int k = r.range(1, 4); for(int i = 0; i < k; i++) { add(0, r.chance(1, 2) ? K_SV : K_HV); } }
  if(faults && p.profile != "C12") for(auto& i : p.items) if(i.type == 'o') { i.fk = i.fn = 0; }   // fault-free setup outside C12
  int per = nt == 1 ? r.range(4, 14) : r.range(2, nt == 2 ? 8 : 5); if(churn) per = r.range(1, 3);
  for(int t = 1; t <= nt; t++) for(int i = 0; i < per; i++) { int k = pick(W_); if(k == K_EXT_DISC || k == K_EXT_Q) k = K_INVOKE; add(t, k); }
  { if(!churn && r.chance(1, 20)) {
      int pr = atoi(p.profile.c_str() + 1), k = r.below(7); switch(pr) { case 3: k = r.chance(1, 3) ? 1 : r.chance(3, 4) ? 6 : 4; break; case 4: k = r.chance(1, 2) ? 2 : r.chance(2, 3) ? 6 : 0; break; case 5: k = r.chance(1, 2) ? 1 : 6; break; case 6: case 11: k = r.chance(1, 2) ? 0 : 6; break; case 12: k = 6; break; case 7: k = r.chance(2, 3) ? 3 : k; break; case 8: k = r.chance(1, 3) ? 0 : k; break; case 15: k = r.chance(3, 4) ? 5 : k; break; case 16: k = r.chance(1, 2) ? 0 : 4; break; }
      add(1 + r.below(nt), K_BIG); Item& i = p.items.back(); i.fk = i.fn = 0; i.a[0] = k; i.a[1] = r.chance(1, 3) ? r.range(258, 300) : r.range(2, 70); i.a[2] = r.below(1 << 30); i.a[3] = cfg == 3 ? 2 : (int[]){0, 1, 3}[r.below(3)]; p.set("big", 1); } }
  { bool any = false; for(auto& i : p.items) if(i.type == 'o' && i.ctx >= 1 && (i.kind == K_INVOKE || i.kind == K_CHURN)) any = true; if(!any) add(1, K_INVOKE); }
  for(int c = 0; c < nconn; c++) if((int)r.below(100) < script) { int k = r.range(1, 3); for(int i = 0; i < k; i++) { int kk = pick(W_); if(kk == K_CHURN && r.chance(2, 3)) kk = K_INVOKE; if(kk == K_INVOKE && r.chance(1, 2)) kk = K_CONNECT; if(kk == K_DISC && r.chance(1, 3)) { add(100 + c, K_DISC); p.items.back().a[0] = c; continue; } if((kk == K_SIG_DESTROY || kk == K_SIG_MOVE) && r.chance(2, 3)) { int own = convar[c]; if(r.chance(1, 3)) { add(100 + c, K_DISC_ALL); p.items.back().a[0] = own; } add(100 + c, kk); bool src = r.chance(1, 2); Item& q = p.items.back(); if(kk == K_SIG_DESTROY || !src) q.a[0] = own; else q.a[1] = own; continue; } add(100 + c, kk); } }
  for(int o = 0; o < no; o++) if(r.chance(script, 130)) { int k = r.range(1, 2); for(int i = 0; i < k; i++) { int kk = pick(W_); if(kk == K_CHURN || kk == K_EXT_DISC || kk == K_EXT_Q) kk = K_Q_NUM; add(200 + o, kk); } }
  for(int c = 0; c < nconn; c++) if(r.chance(script, 300)) { int kk = pick(W_); if(kk == K_CHURN || kk == K_EXT_DISC || kk == K_EXT_Q) kk = K_Q_NUM; add(300 + c, kk); }
  if(cfg == 0 || cfg == 3 || cfg == 5) for(int v = 0; v < nv; v++) if(r.chance(script, 250)) { int k = r.range(1, 2); for(int i = 0; i < k; i++) { int kk = pick(W_); if(kk == K_CHURN || kk == K_EXT_DISC || kk == K_EXT_Q) kk = K_DISC; add(400 + v, kk); } }
  p.set("steps_hint", 300 + 700 * (int)p.items.size());
}
static bool profile_ok(const char* n) { int W_[K_KINDS], a, b, c, d, e, f; weights(n, W_, a, b, c, d, e, f); return true; }
static void nontrivial(const Plan& p, const Result& r, bool* out) { (void)p; *out = w->opsdone >= 3 && w->ex.size() >= 1 && (r.preempts >= 1 || w->anyfault || p.get("cfg") == 3 || p.get("threads") == 1); }
World signal_world = {"signal", profile_ok, generate, body, nontrivial};
SigApi* sig_api_0(); SigApi* sig_api_1(); SigApi* sig_api_2(); SigApi* sig_api_3(); SigApi* sig_api_4(); SigApi* sig_api_5(); SigApi* sig_api_6(); SigApi* sig_api_7(); SigApi* sig_api_8(); SigApi* sig_api_9();
int& h_cell(int v) { static int cells[1 << 16]; static unsigned n; int& c = cells[n++ & 0xffff]; c = v; return c; }
int* h_box(int v) { int* p = (int*)rt::raw_alloc(8); p[0] = v; p[1] = 0x5e5; return p; }
void h_unbox(int* p) { if(!p) return; if(p[1] != 0x5e5) { h_comb_bad("a result was destroyed twice"); return; } p[1] = 0; rt::raw_free(p); }
static SigApi* sig_api_of(int c) { switch(c) { case 1: return sig_api_1(); case 2: return sig_api_2(); case 3: return sig_api_3(); case 4: return sig_api_4(); case 5: return sig_api_5(); case 6: return sig_api_6(); case 7: return sig_api_7(); case 8: return sig_api_8(); case 9: return sig_api_9(); } return sig_api_0(); }
SigApi* sig_api(int c) { SigApi* a = sig_api_of(c); return a ? a : sig_api_0(); }
