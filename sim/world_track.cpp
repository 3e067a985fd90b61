// C20: signals2::trackable. Sequential, re-entrant histories checked against an
// exact model (trackable objects are documented as not thread-safe).
#include "world.hpp"
#include "xapi.hpp"
using namespace rt;
namespace {
const Mask M20 = P(PB_TRACK);
enum { T_NEW, T_DEL, T_COPY, T_ASSIGN, T_CONNECT, T_DISC, T_INVOKE, T_QCONN, T_QNUM, T_DISCALL, T_INNERDEL, T_INNERNEW, T_SPDROP, T_SLOTMAKE, T_SLOTCONN, T_SLOTQ, T_SLOTDROP, T_SIGDEL, T_KINDS_OP };
const char* tn[T_KINDS_OP] = {"new object","delete object","copy object","assign object","connect","disconnect","invoke","connected","num_slots","disconnect_all","delete inner signal","new inner signal","drop shared_ptr","make slot","connect slot","expired","drop slot","delete signal"};
struct Dep { int o1, o2, in, sp; u32 g1, g2, gi, gp; };            // what a slot depends on, with generations
struct Conn { int sig; bool made, disc; Dep d; int pos; u32 sgen; bool opt; };
struct SlotV { bool on; Dep d; int kind; int c; };
struct Inv { int sig, id; u32 sgen; Vec<int> start; Vec<int> ran; bool faulty; };
struct St { const Plan* p; bool o[NTO]; u32 og[NTO]; bool in[NTI]; u32 ig[NTI]; bool sp[NTSP]; u32 pg[NTSP]; bool sg[NTS]; u32 sgen[NTS]; Conn c[NTC]; SlotV s[2]; Vec<Inv*> stack; int nextinv, nextpos; bool used[NTC]; int budget; int runs, kills, inprog[NTC]; int opsdone; bool ctxdone[NTC]; int busysig[NTS]; int ihold[NTI][64], phold[NTSP][64]; };
St* w;
void bad(const char* cls, const Str& m) { report(M20, cls, m); }
bool ok_dep(const Dep& d) { return !(d.o1 >= 0 && (!w->o[d.o1] || w->og[d.o1] != d.g1)) && !(d.o2 >= 0 && (!w->o[d.o2] || w->og[d.o2] != d.g2)) && !(d.in >= 0 && (!w->in[d.in] || w->ig[d.in] != d.gi) && !w->ihold[d.in][d.gi & 63]) && !(d.sp >= 0 && (!w->sp[d.sp] || w->pg[d.sp] != d.gp) && !w->phold[d.sp][d.gp & 63]); }   // a running slot keeps what it tracks by ownership alive
bool live(int c) { Conn& k = w->c[c]; return k.made && !k.disc && w->sg[k.sig] && w->sgen[k.sig] == k.sgen && ok_dep(k.d); }
Dep mkdep(int kind, int o1, int o2, int sp) { Dep d; d.o1 = kind == TK_SIGNAL || kind == TK_SIGREF ? -1 : o1; d.o2 = kind == TK_TWO ? o2 : -1; d.in = kind == TK_SIGNAL || kind == TK_SIGREF ? sp % NTI : -1; d.sp = kind == TK_MIXED ? sp % NTSP : -1;
  d.g1 = d.o1 >= 0 ? w->og[d.o1] : 0; d.g2 = d.o2 >= 0 ? w->og[d.o2] : 0; d.gi = d.in >= 0 ? w->ig[d.in] : 0; d.gp = d.sp >= 0 ? w->pg[d.sp] : 0; return d; }
bool can(int kind, int o1, int o2, int sp) { if(kind == TK_SIGNAL || kind == TK_SIGREF) return w->in[sp % NTI]; if(!w->o[o1]) return false; if(kind == TK_TWO && !w->o[o2]) return false; if(kind == TK_MIXED && !w->sp[sp % NTSP]) return false; return true; }
void added(int c, int s, const Dep& d) { Conn& k = w->c[c]; k.made = true; k.disc = false; k.sig = s; k.sgen = w->sgen[s]; k.d = d; k.pos = w->nextpos++; }
void check_counts(int s) { int n = 0, e = 0; if(!w->sg[s]) return; if(t_num(s, &n, &e)) { bad("exception", "num_slots/empty threw"); return; } int m = 0; for(int c = 0; c < NTC; c++) if(w->c[c].made && w->c[c].sig == s && live(c)) m++; if(n != m) bad("num_slots", fmt("num_slots is %d with %d live connections", n, m)); if((e != 0) != (m == 0)) bad("empty", fmt("empty() is %d with %d live connections", e, m)); }
void check_conn(int c) { int o = 0; if(!w->c[c].made) return; if(t_connected(c, &o)) { bad("exception", "connected() threw"); return; } if((o != 0) != live(c)) bad("connected", fmt("connection %d reports connected()=%d but %s", c, o, live(c) ? "everything it needs is alive and it was never disconnected" : "an object bound in its slot was destroyed or it was disconnected")); }
void run_ctx(int ctx);
void skipped(Inv& v, int upto, const char* when) { for(size_t k = 0; k < v.start.size(); k++) { int c = v.start[k]; if(upto >= 0 && w->c[c].pos >= upto) continue; if(v.ran[k] || !live(c) || w->c[c].pos < 0) continue; bad("skipped", fmt("the slot of connection %d was connected during the whole of invocation %d but did not run (%s)", c, v.id, when)); v.ran[k] = 1; } }
void exec(const Item& i) {
  int e = 0; Frame* f = top(); w->opsdone++;
  switch(i.kind) {
    case T_NEW: { int o = i.a[0]; if(w->o[o]) return; e = t_new(o, i.a[1]); if(!e) { w->o[o] = true; w->og[o]++; } break; }
    case T_DEL: { int o = i.a[0]; if(!w->o[o]) return; w->o[o] = false; w->kills++; CNT("op.delete_trackable"); e = t_del(o); break; }
    case T_COPY: { int o = i.a[0], s = i.a[1]; if(w->o[o] || !w->o[s]) return; e = t_copy(o, s); if(!e) { w->o[o] = true; w->og[o]++; } CNT("op.copy_trackable"); break; }
    case T_ASSIGN: { int o = i.a[0], s = i.a[1]; if(!w->o[o] || !w->o[s]) return; 
      // the documentation leaves open whether assignment keeps the target's own connections: only objects without connections are assigned to
      for(int c = 0; c < NTC; c++) if(w->c[c].made && live(c) && (w->c[c].d.o1 == o || w->c[c].d.o2 == o)) return; for(int k = 0; k < 2; k++) if(w->s[k].on && (w->s[k].d.o1 == o || w->s[k].d.o2 == o)) return;
      e = t_assign(o, s); CNT("op.assign_trackable"); break; }
    case T_CONNECT: { int c = i.a[0], s = i.a[1], kind = i.a[2], o1 = i.a[3], o2 = i.a[4], sp = i.a[5]; if(w->c[c].made || !w->sg[s] || !can(kind, o1, o2, sp)) return; if(kind == TK_SIGNAL || kind == TK_SIGREF) sp %= NTI; else sp %= NTSP;
      Dep d = mkdep(kind, o1, o2, sp); e = t_connect(c, s, kind, o1, o2, sp); CNT("op.connect_bound"); if(!e) added(c, s, d); break; }
    case T_DISC: { int c = i.a[0]; if(!w->c[c].made) return; e = t_disc(c); w->c[c].disc = true; break; }
    case T_INVOKE: { int s = i.a[0]; if(!w->sg[s] || w->stack.size() > 3 || w->budget-- <= 0) return; Inv v; v.sig = s; v.sgen = w->sgen[s]; v.id = w->nextinv++; for(int pos = 0; ; ) { int b = -1; for(int c = 0; c < NTC; c++) if(w->c[c].made && w->c[c].sig == s && live(c) && w->c[c].pos >= pos && (b < 0 || w->c[c].pos < w->c[b].pos)) b = c; if(b < 0) break; v.start.push_back(b); v.ran.push_back(0); pos = w->c[b].pos + 1; }
      w->stack.push_back(&v); w->busysig[s]++; CNT("op.invoke_bound"); e = t_invoke(s, v.id); w->busysig[s]--; w->stack.pop_back(); if(!e) skipped(v, -1, "at its end"); break; }
    case T_QCONN: check_conn(i.a[0]); break;
    case T_QNUM: check_counts(i.a[0]); break;
    case T_DISCALL: { int s = i.a[0]; if(!w->sg[s]) return; e = t_disc_all(s); for(int c = 0; c < NTC; c++) if(w->c[c].made && w->c[c].sig == s && w->c[c].sgen == w->sgen[s]) w->c[c].disc = true; break; }
    case T_INNERDEL: { int k = i.a[0] % NTI; if(!w->in[k]) return; w->in[k] = false; w->kills++; CNT("op.delete_bound_signal"); e = t_inner_del(k); break; }
    case T_INNERNEW: { int k = i.a[0] % NTI; if(w->in[k]) return; e = t_inner_new(k); if(!e) { w->in[k] = true; w->ig[k]++; } break; }
    case T_SPDROP: { int k = i.a[0] % NTSP; if(!w->sp[k]) return; w->sp[k] = false; w->kills++; e = t_sp_drop(k); break; }
    case T_SLOTMAKE: { int k = i.a[0] & 1, c = i.a[1], kind = i.a[2], o1 = i.a[3], o2 = i.a[4], sp = i.a[5]; if(w->c[c].made || w->used[c] || kind == TK_EXT || !can(kind, o1, o2, sp)) return; if(kind == TK_SIGNAL || kind == TK_SIGREF) sp %= NTI; else sp %= NTSP; Dep d = mkdep(kind, o1, o2, sp); e = t_slot_make(k, c, kind, o1, o2, sp); if(!e) { w->s[k].on = true; w->s[k].d = d; w->s[k].kind = kind; w->s[k].c = c; w->used[c] = true; } break; }
    case T_SLOTCONN: { int k = i.a[0] & 1, s = i.a[1]; if(!w->s[k].on || !w->sg[s] || w->c[w->s[k].c].made) return; Dep d = w->s[k].d; e = t_slot_connect(k, w->s[k].c, s); CNT("op.connect_slot_object"); if(!e) added(w->s[k].c, s, d); break; }
    case T_SLOTQ: { int k = i.a[0] & 1; if(!w->s[k].on) return; int o = 0; e = t_slot_expired(k, &o); if(!e && (o != 0) != !ok_dep(w->s[k].d)) bad("expired", fmt("slot::expired() is %d but the objects bound in it %s alive", o, ok_dep(w->s[k].d) ? "are" : "are not all")); break; }
    case T_SLOTDROP: { int k = i.a[0] & 1; if(!w->s[k].on) return; w->s[k].on = false; e = t_slot_drop(k); break; }
    case T_SIGDEL: { int s = i.a[0]; if(!w->sg[s] || w->busysig[s] ) return; w->sg[s] = false; e = t_sig_del(s); CNT("op.delete_signal"); break; }
  }
  if(e == XX_BADALLOC && f->fired) { CNT("probe.alloc_failure_reported"); }
  else if(e) bad("exception", fmt("%s threw (%d)", tn[i.kind], e));
}
void run_ctx(int ctx) { for(size_t k = 0; k < w->p->items.size(); k++) { const Item& i = w->p->items[k]; if(i.type != 'o' || i.ctx != ctx) continue; int n = ctx; (void)n; push_frame(i.id, i.kind, i.fk, i.fn, M20); if(trace_on) trace("op%d %s %d %d %d %d %d %d", i.id, tn[i.kind], i.a[0], i.a[1], i.a[2], i.a[3], i.a[4], i.a[5]); exec(i); pop_frame(); } }
void body(const Plan& p) {
  St st; memset((void*)&st.o, 0, offsetof(St, stack) - offsetof(St, o)); w = &st; st.p = &p; st.nextinv = 0; st.nextpos = 1; memset(st.used, 0, sizeof st.used); st.budget = 40; st.runs = st.kills = st.opsdone = 0; memset(st.inprog, 0, sizeof st.inprog); memset(st.ctxdone, 0, sizeof st.ctxdone); memset(st.busysig, 0, sizeof st.busysig); memset(st.ihold, 0, sizeof st.ihold); memset(st.phold, 0, sizeof st.phold);
  push_frame(-1, 0, 0, 0, M20); t_setup(); pop_frame();
  for(int k = 0; k < NTI; k++) st.in[k] = true; for(int k = 0; k < NTS; k++) st.sg[k] = true; for(int k = 0; k < NTSP; k++) st.sp[k] = true;
  run_ctx(0);
  push_frame(-1, 0, 0, 0, M20);
  for(int c = 0; c < NTC; c++) check_conn(c); for(int s = 0; s < NTS; s++) check_counts(s);
  for(int s = 0; s < NTS; s++) { Item i; memset(&i, 0, sizeof i); i.kind = T_INVOKE; i.a[0] = s; st.budget = 5; for(int c = 0; c < NTC; c++) st.ctxdone[c] = true; exec(i); }
  for(int c = 0; c < NTC; c++) check_conn(c); for(int s = 0; s < NTS; s++) check_counts(s);
  // destroy the remaining objects one at a time: every slot bound to one must go silent
  for(int o = 0; o < NTO; o++) if(st.o[o]) { Item i; memset(&i, 0, sizeof i); i.kind = T_DEL; i.a[0] = o; exec(i); for(int c = 0; c < NTC; c++) check_conn(c); for(int s = 0; s < NTS; s++) { Item j; memset(&j, 0, sizeof j); j.kind = T_INVOKE; j.a[0] = s; st.budget = 5; exec(j); } }
  t_reset(); pop_frame();
  mix(st.runs * 31 + st.kills);
  if(size_t lk = leaked_blocks()) report(M20, "leak", "memory left after the run:" + describe_leaks(5));
}
}
void h_t_slot(int c, int inv, bool ok) {
  w->runs++; CNT("probe.bound_slot_ran");
  if(!ok) bad("dead-object", fmt("the slot of connection %d ran with a destroyed object", c));
  Inv* v = 0; for(auto x : w->stack) if(x->id == inv) v = x;
  if(!v || w->stack.back() != v) { bad("args", "a slot ran with the wrong argument"); return; }
  Conn& k = w->c[c];
  if(!k.made || k.sig != v->sig) { bad("unconnected", fmt("connection %d ran on a signal it is not connected to", c)); return; }
  if(!live(c)) { bad("ran-after-death", fmt("the slot of connection %d ran after an object bound in it was destroyed (or after it was disconnected)", c)); }
  int at = -1; for(size_t q = 0; q < v->start.size(); q++) if(v->start[q] == c) at = (int)q;
  if(at < 0) bad("snapshot", fmt("connection %d ran in an invocation that began before it was connected", c));
  else { if(v->ran[at]++) bad("twice", fmt("connection %d ran twice in one invocation", c)); skipped(*v, k.pos, "a later slot already runs"); for(size_t q = at + 1; q < v->start.size(); q++) if(v->ran[q] && live(v->start[q])) bad("order", "slots ran out of connection order"); }
  if(!w->ctxdone[c] && !w->inprog[c]) { w->ctxdone[c] = true; w->inprog[c]++; Dep d = k.d; if(d.in >= 0) w->ihold[d.in][d.gi & 63]++; if(d.sp >= 0) w->phold[d.sp][d.gp & 63]++; run_ctx(c + 1); if(d.in >= 0) w->ihold[d.in][d.gi & 63]--; if(d.sp >= 0) w->phold[d.sp][d.gp & 63]--; w->inprog[c]--; }
}
void h_t_dtor(int o) { if(w->o[o]) bad("harness", "object died early"); }
static void generate(Plan& p) {
  Rng r(p.seed * 0x9E3779B97F4A7C15ull + 20); r.next(); r.next(); p.set("threads", 1); int id = 0; bool faults = r.chance(1, 3);
  int no = r.range(1, NTO), nc = r.range(2, NTC); int ns = r.chance(1, 3) ? 2 : 1; int nextc = 0; Vec<int> cs; for(int c = 0; c < nc; c++) cs.push_back(c); for(size_t q = cs.size(); q > 1; q--) std::swap(cs[q-1], cs[r.below((u32)q)]);
  static const int base[T_KINDS_OP] = {4, 8, 3, 2, 26, 6, 14, 6, 5, 1, 3, 2, 2, 4, 5, 3, 1, 1}; int wt[T_KINDS_OP]; int sum = 0; for(int k = 0; k < T_KINDS_OP; k++) { wt[k] = base[k]; if(k != T_CONNECT && k != T_INVOKE && k != T_DEL && r.chance(1, 5)) wt[k] = 0; sum += wt[k]; }
  int kmask = r.chance(1, 3) ? (int)r.below(TK_KINDS) : -1;
  auto add = [&](int ctx, int k) { Item i; memset(&i, 0, sizeof i); i.type = 'o'; i.id = id++; i.ctx = ctx; i.kind = k;
    auto kind = [&]() { return kmask >= 0 && r.chance(1, 2) ? kmask : (int)r.below(TK_KINDS); };
    switch(k) {
      case T_NEW: i.a[0] = r.below(no); i.a[1] = r.below(2); break;
      case T_DEL: i.a[0] = r.below(no); break; case T_COPY: case T_ASSIGN: i.a[0] = r.below(no); i.a[1] = r.below(no); break;
      case T_CONNECT: i.a[0] = nextc < nc ? cs[nextc++] : cs[r.below(nc)]; i.a[1] = r.below(ns); i.a[2] = kind(); i.a[3] = r.below(no); i.a[4] = r.below(no); i.a[5] = r.below(2); break;
      case T_SLOTMAKE: i.a[0] = r.below(2); i.a[1] = nextc < nc ? cs[nextc++] : cs[r.below(nc)]; i.a[2] = kind(); i.a[3] = r.below(no); i.a[4] = r.below(no); i.a[5] = r.below(2); break;
      case T_SLOTCONN: i.a[0] = r.below(2); i.a[1] = r.below(ns); break;
      case T_DISC: case T_QCONN: i.a[0] = cs[r.below(nc)]; break; case T_INVOKE: case T_QNUM: case T_DISCALL: case T_SIGDEL: i.a[0] = r.below(ns); break;
      default: i.a[0] = r.below(2); }
    if(faults && r.chance(1, 4) && (k == T_NEW || k == T_COPY || k == T_CONNECT || k == T_SLOTMAKE || k == T_SLOTCONN || k == T_INNERNEW)) { i.fk = r.chance(1, 2) ? F_ALLOC_NTH : F_ALLOC_FROM; i.fn = r.range(1, 12); }
    p.items.push_back(i); };
  auto pick = [&]() { int x = r.below(sum); for(int k = 0; k < T_KINDS_OP; k++) { x -= wt[k]; if(x < 0) return k; } return (int)T_INVOKE; };
  for(int o = 0; o < no; o++) { add(0, T_NEW); p.items.back().a[0] = o; p.items.back().fk = p.items.back().fn = 0; }
  int pre = r.range(1, nc); for(int k = 0; k < pre; k++) add(0, T_CONNECT);
  int n = r.range(3, 14); for(int k = 0; k < n; k++) add(0, pick()); add(0, T_INVOKE);
  for(int c = 0; c < nc; c++) if(r.chance(1, 3)) { int m = r.range(1, 3); for(int k = 0; k < m; k++) { int kk = pick(); if(r.chance(1, 3)) kk = T_DEL; add(c + 1, kk); } }
  p.set("steps_hint", 100 * (int)p.items.size());
}
static bool pok(const char*) { return true; }
static void nontrivial(const Plan&, const Result&, bool* o) { *o = w->runs >= 1 && w->kills >= 1; }
World track_world = {"track", pok, generate, body, nontrivial};
