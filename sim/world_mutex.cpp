// C19: signals2::mutex and dummy_mutex. The reference model is the textbook one:
// intervals of ownership per mutex, never overlapping; try_lock truthful.
#include "world.hpp"
#include "xapi.hpp"
using namespace rt;
namespace {
const Mask M19 = P(PB_MUTEX);
struct Hold { u64 b, e; int tid; };
struct Try { u64 b, e; int tid; int m; };
struct St {
  int holder[NMX]; u64 cb[MAXT][NMX]; Vec<Hold> holds[NMX]; Vec<Try> fails; u64 blk0[MAXT], st0[MAXT]; int cur[NMX];
  int crits; int contended; int trys, tryfail; int dheld; Vec<int> prog[MAXT]; const Plan* p;
};
St* w;
const char* knames[M_KINDS] = {"lock/unlock","try_lock","lock_guard","unique_lock(try_to_lock)","std::lock","nested","nested try_lock","publish","consume","dummy_mutex","unique_lock(defer)","local mutex","try_lock retry","pause"};
void run_items(int ctx) { for(size_t k = 0; k < w->p->items.size(); k++) { const Item& i = w->p->items[k]; if(i.type != 'o' || i.ctx != ctx) continue;
    push_frame(i.id, i.kind, 0, 0, M19); if(trace_on) trace("op%d %s m%d m%d n%d", i.id, knames[i.kind], i.a[0], i.a[1], i.a[2]);
    point(USER); mx_op(i.kind, i.a[0], i.a[1], i.a[2], i.a[3], i.a[4]); 
    if(held()) fatal(M19, "lock-leak", fmt("%s left %d lock(s) held after balanced lock/unlock calls", knames[i.kind], held()));
    pop_frame(); CNT("op.mutex"); } }
void body(const Plan& p) {
  St st; w = &st; st.p = &p; for(int m = 0; m < NMX; m++) { st.holder[m] = -1; st.cur[m] = -1; } st.crits = st.contended = st.trys = st.tryfail = st.dheld = 0;
  push_frame(-1, 0, 0, 0, M19); mx_setup(); pop_frame();
  threads(p.get("threads", 2), run_items);
  // every failed attempt needs somebody who may have owned the mutex during it
  for(auto& t : st.fails) { bool ok = false; for(auto& h : st.holds[t.m]) if(h.b < t.e && h.e > t.b) ok = true;
    if(!ok) report(M19, "try_lock-refused", fmt("try_lock of mutex %d by thread %d returned false although nobody held the mutex at any time during the call", t.m, t.tid)); }
  for(int m = 0; m < NMX; m++) if(st.holder[m] >= 0) report(M19, "harness", "holder left");
  run_items(0);
  push_frame(-1, 0, 0, 0, M19); mx_reset(); pop_frame();
  mix(st.crits * 7 + st.contended * 3 + st.tryfail);
  if(size_t lk = leaked_blocks()) report(M19 | P(8), "leak", "memory left after the run:" + describe_leaks(5));
}
}
void h_mx(int ev, int m, int ok) {
  int t = tid();
  in_lock_op(ev == MX_LOCK || ev == MX_TRY || ev == MX_REL);
  switch(ev) {
    case MX_LOCK: w->cb[t][m] = now(); break;
    case MX_TRY: w->cb[t][m] = now(); w->blk0[t] = times_blocked(); w->st0[t] = own_steps(); w->trys++; CNT("op.try_lock"); break;
    case MX_TRIED:
      if(times_blocked() != w->blk0[t]) report(M19, "try_lock-blocked", fmt("try_lock of mutex %d by thread %d waited for another thread", m, t));
      if(own_steps() - w->st0[t] > 200) report(M19, "try_lock-blocked", fmt("try_lock of mutex %d by thread %d took %llu steps", m, t, (unsigned long long)(own_steps() - w->st0[t])));
      if(!ok) { Try x = { w->cb[t][m], now(), t, m }; w->fails.push_back(x); w->tryfail++; CNT("probe.try_lock_failed"); break; }
      // fall through
    case MX_LOCKED: {
      if(w->holder[m] >= 0) report(M19, "mutual-exclusion", fmt("thread %d acquired mutex %d while thread %d held it", t, m, w->holder[m]));
      Hold h = { w->cb[t][m], ~0ull, t }; w->holds[m].push_back(h); w->cur[m] = (int)w->holds[m].size() - 1; w->holder[m] = t; now(); break; }
    case MX_REL: if(w->holder[m] == t) w->holder[m] = -1; w->cb[t][m] = (u64)w->cur[m]; break;
    case MX_RELEASED: w->holds[m][(size_t)w->cb[t][m]].e = now(); break;
    case MX_CRIT: w->crits++; CNT("probe.critical_section"); if(!ok) report(M19, "critical-section", fmt("data guarded by mutex %d changed under its owner, thread %d", m, t)); break;
    case MX_BOX: CNT("probe.message_seen"); if(!ok) report(M19, "visibility", "a message published before unlock was not visible after lock"); break;
    case MX_DLOCK: case MX_DTRY: case MX_DREL: w->blk0[t] = times_blocked(); break;
    case MX_DLOCKED: case MX_DRELEASED: case MX_DTRIED:
      if(times_blocked() != w->blk0[t]) report(M19, "dummy-blocked", "dummy_mutex blocked its caller");
      if(ev == MX_DTRIED && !ok) report(M19, "dummy-try_lock", "dummy_mutex::try_lock returned false");
      if(ev == MX_DTRIED) CNT("probe.dummy_try_lock"); break;
  }
}
static void generate(Plan& p) {
  Rng r(p.seed * 0x9E3779B97F4A7C15ull + 19); r.next(); r.next();
  int nt = r.range(2, 5); p.set("threads", nt); int nm = r.range(1, NMX); int id = 0; int wgt[M_KINDS]; int sum = 0;
  for(int k = 0; k < M_KINDS; k++) { wgt[k] = r.chance(1, 4) ? 0 : r.range(1, 4); if(k == M_RAW || k == M_TRY) wgt[k] += 2; sum += wgt[k]; }
  for(int t = 0; t <= nt; t++) { int n = t ? r.range(1, 6) : 3; for(int k = 0; k < n; k++) {
      Item i; memset(&i, 0, sizeof i); i.type = 'o'; i.id = id++; i.ctx = t; int x = r.below(sum); int kk = 0; while(x >= wgt[kk]) x -= wgt[kk++]; i.kind = kk;
      i.a[0] = r.below(nm); i.a[1] = r.below(nm); i.a[2] = r.range(0, 4); i.a[3] = r.below(2); i.a[4] = r.chance(1, 4);
      if(kk == M_PUB) { i.a[2] = t % NBOX; i.a[0] = i.a[2] % nm; if(t == 0 || t > NBOX) i.kind = M_RAW; } else if(kk == M_CONS) { i.a[2] = r.below(NBOX); i.a[0] = i.a[2] % nm; }
      p.items.push_back(i); } }
  // one publication per box: a second write of the box would itself be a race
  bool pub[8] = {}; for(auto& i : p.items) if(i.kind == M_PUB) { if(pub[i.ctx]) i.kind = M_GUARD; pub[i.ctx] = true; }
  p.set("steps_hint", 30 * (int)p.items.size());
}
static bool pok(const char*) { return true; }
static void nontrivial(const Plan&, const Result& r, bool* o) { *o = r.switches >= 4 && r.preempts >= 1; }
World mutex_world = {"mutex", pok, generate, body, nontrivial};
