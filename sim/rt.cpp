// Simulation runtime. Compiled WITHOUT instrumentation. See rt.hpp.
#include "rt.hpp"
#include <cstdarg>
#include <cxxabi.h>
#include <exception>
#include <pthread.h>
#include <csignal>
#include <csetjmp>
#include <cerrno>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/single_threaded.h>
#include <algorithm>
#include <unordered_map>
#include <execinfo.h>
#include <elf.h>
#include <link.h>
#include <fcntl.h>
#include <ctime>
#include <sys/stat.h>
#include <sys/time.h>

namespace rt {

const char* fault_names[F_KINDS] = {"none","alloc_nth","alloc_from","copy_nth","cmp_nth","assign_nth"};

Str fmt(const char* f, ...) { char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return Str(b); }

// ---- counters -------------------------------------------------------------
u64 counters[256]; static const char* counter_names[256]; static int ncounters;
int counter_ix(const char* n) { for(int i=0;i<ncounters;i++) if(!strcmp(counter_names[i],n)) return i; counter_names[ncounters]=n; return ncounters++; }
void* raw_alloc(size_t n) { return malloc(n); } void raw_free(void* p) { free(p); }
void dump_counters(FILE* f) { for(int i=0;i<ncounters;i++) fprintf(f, "counter %s %llu\n", counter_names[i], (unsigned long long)counters[i]); }
bool trace_on = false;

// ---- arena ------------------------------------------------------------------
static const uintptr_t BASE = 0x200000000000ull;
static const size_t ARENA = 16u<<20;
static const size_t NG = ARENA/8;
struct Cell { u32 k[MAXT][4]; };            // per thread: W, R, AW, AR ; (clk<<8)|mask
static Cell* cells; static u8* st; static u8* own; static u16* syncid; static u16* mtxid; static u32* blk;
struct Block { u32 off, size; u8 state; int op; int tid; };
static Vec<Block> blocks;
static size_t bump, nlive, blive, npeak;
enum { ST_NONE = 0, ST_FREED = 0xFD };

struct VC { u32 c[MAXT]; void join(const VC& o){ for(int i=0;i<MAXT;i++) if(o.c[i]>c[i]) c[i]=o.c[i]; } };
static Vec<VC> syncs;
struct Mtx { void* addr; int owner; int count; bool rec, alive; VC vc; u32 readers; VC rvc; u32 seq; };
static Vec<Mtx> mtxs; 

enum FState { FREE_, RUNNABLE, BLOCKED, JOINING, DONE };
struct Fiber {
  void* sp; char* stack; FState state; int wait_m;
  VC vc, frel, apend; Frame fr[MAXFRAME]; int depth; bool mop; int nopre; int harness; int held; u64 nblocked, fsteps; u64 eh[2]; char* tls; Vec<std::pair<void(*)(void*),void*>>* tlsd;
  void (*fn)(int);
};
static Fiber fib[MAXT];
static const size_t STK = 4096*1024;
static void* ctl_sp;

enum PMode { PM_RW, PM_PCT };
struct Sim {
  bool active=false, threads=false; int cur=0; int nthr=0;
  u64 steps=0, clock=0, switches=0, preempts=0, consec=0, limit=3000000;
  u64 hash=0, il=0; u64 usec=0; Vec<std::pair<void(*)(void*),void*>> atex;
  const Plan* plan=nullptr; Result* res=nullptr; void (*body)(const Plan&)=nullptr;
  Rng rng{1};
  PMode mode=PM_RW; int puser=0, psync=0; u64 gapmean=0; long gap=0;
  int prio[MAXT]; Vec<u64> chg; size_t chgi=0; int lowp=0;
  std::unordered_map<u64,int,std::hash<u64>,std::equal_to<u64>,MA<std::pair<const u64,int>>> decs; 
  std::unordered_map<u64,u32,std::hash<u64>,std::equal_to<u64>,MA<std::pair<const u64,u32>>> occ;
};
static Sim R;

static inline u64 mixh(u64 h, u64 x) { h ^= x + 0x9E3779B97F4A7C15ull + (h<<6) + (h>>2); return h*0xff51afd7ed558ccdull; }
void mix(u64 x) { R.hash = mixh(R.hash, x); }
u64 now() { return ++R.clock; }
u64 clock_peek() { return R.clock; }
int tid() { return R.cur; }
bool in_threads() { return R.threads; }
int held() { return fib[R.cur].held; }
u64 times_blocked() { return fib[R.cur].nblocked; }
void in_lock_op(bool b) { fib[R.cur].mop=b; }
u64 own_steps() { return fib[R.cur].fsteps; }
int nopreempt_depth() { return fib[R.cur].nopre; }
NoPreempt::NoPreempt() { fib[R.cur].nopre++; } NoPreempt::~NoPreempt() { fib[R.cur].nopre--; }
Harness::Harness() { fib[R.cur].harness++; } Harness::~Harness() { fib[R.cur].harness--; }
Frame* top() { Fiber& f=fib[R.cur]; return &f.fr[f.depth-1]; }
int depth() { return fib[R.cur].depth; }
int depth_of(int t) { return fib[t].depth; }
Frame* frame_at(int t, int i) { return &fib[t].fr[i]; }
void set_step_limit(u64 n) { R.limit = n; }
void push_frame(int op, int kind, int fk, int fn, Mask m) {
  Fiber& f=fib[R.cur]; if(f.depth>=MAXFRAME) fatal(0,"harness","frame overflow");
  u32 o = op>=0 ? R.occ[(u64)R.cur<<32|(u32)op]++ : 0;
  Frame& x=f.fr[f.depth++]; x.op=op; x.kind=kind; x.occ=o; x.steps=0; x.fk=fk; x.fn=fn; x.count=0; x.fired=0; x.mask=m; x.in_user=0;
}
void pop_frame() { fib[R.cur].depth--; }

static Mask frames_mask(int t) { Mask m=0; for(int i=0;i<fib[t].depth;i++) m|=fib[t].fr[i].mask; return m; }
static Mask all_masks() { Mask m=0; for(int t=0;t<=R.nthr;t++) m|=frames_mask(t); return m; }
Str where() { Fiber& f=fib[R.cur]; Str s=fmt("thread %d", R.cur); for(int i=0;i<f.depth;i++) if(f.fr[i].op>=0) s+=fmt(" op%d", f.fr[i].op); return s; }

// ---- context switch -----------------------------------------------------------
extern "C" void rt_switch(void** save, void* to);
asm(R"(
.text
.globl rt_switch
.type rt_switch,@function
rt_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size rt_switch,.-rt_switch
)");

static void sched_away(bool blocked);
// thread_local storage of the program: every simulated thread has its own copy of the block
static char* tls_base; static size_t tls_size; static char* tls_image;
static void run_tls_dtors(int t) { auto*& l=fib[t].tlsd; while(l && !l->empty()) { auto d=l->back(); l->pop_back(); d.first(d.second); } }
static void fiber_main() {
  int t=R.cur;
  try { fib[t].fn(t); }
  catch(...) { fatal(all_masks()|P(9)|P(11),"escape","an exception escaped a simulated thread at "+where()); }
  run_tls_dtors(t);
  fib[t].state=DONE; fib[t].depth=1;
  fib[t].fr[0].op=-2; 
  if(fib[t].held) fatal(P(9)|P(10),"lock-leak",fmt("thread %d ended holding %d lock(s)", t, fib[t].held));
  sched_away(true);
  abort();
}
static void fiber_init(int t, void (*fn)(int)) {
  Fiber& f=fib[t];
  if(!f.stack) { f.stack=(char*)mmap(0,STK+4096,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); mprotect(f.stack,4096,PROT_NONE); }
  f.state=RUNNABLE; f.depth=0; f.nopre=0; f.harness=0; f.held=0; f.nblocked=f.fsteps=0; f.mop=false; f.eh[0]=f.eh[1]=0; f.fn=fn;
  memset(&f.frel,0,sizeof(VC)); memset(&f.apend,0,sizeof(VC));
  u64* top=(u64*)(f.stack+4096+STK); 
  *--top=0;                 // fake return address (keeps entry 16-byte aligned)
  *--top=(u64)(void*)fiber_main; 
  for(int i=0;i<6;i++) *--top=0;
  f.sp=top;
  int sv=R.cur; R.cur=t; push_frame(-1,-1,0,0,0); R.cur=sv;
}
static void switch_to(int t) {
  if(t==R.cur) return;
  R.il=mixh(R.il,((u64)R.cur<<56)|((u64)t<<48)|((u64)(u32)fib[R.cur].fr[fib[R.cur].depth-1].op<<24)^fib[R.cur].fr[fib[R.cur].depth-1].steps);
  R.hash=mixh(R.hash,R.steps*8+t); R.switches++; R.consec=0;
  int me=R.cur; 
  u64* g=(u64*)abi::__cxa_get_globals();
  fib[me].eh[0]=g[0]; fib[me].eh[1]=g[1]&0xffffffffu; 
  g[0]=fib[t].eh[0]; *(u32*)(g+1)=(u32)fib[t].eh[1];
  if(tls_size) { memcpy(fib[me].tls,tls_base,tls_size); memcpy(tls_base,fib[t].tls,tls_size); }
  R.cur=t;
  if(trace_on) trace("-- switch thread %d -> %d (%s step %u)", me, t, fib[me].fr[fib[me].depth-1].op>=0?fmt("op%d",fib[me].fr[fib[me].depth-1].op).c_str():"between ops", fib[me].fr[fib[me].depth-1].steps);
  rt_switch(&fib[me].sp, fib[t].sp);
}
static inline u64 key(int tid,int op,u32 occ,u32 step){ return ((u64)tid<<60)|((u64)((op+2)&0xffff)<<44)|((u64)(occ&0xfff)<<32)|step; }
static void record(int target) { Frame& f=fib[R.cur].fr[fib[R.cur].depth-1]; Dec d; d.tid=R.cur; d.op=f.op; d.occ=f.occ; d.step=f.steps; d.target=target; R.res->decs.push_back(d); }
static int pick_other(bool blocked) {
  int cand[MAXT], n=0; for(int t=1;t<=R.nthr;t++) if(t!=R.cur && fib[t].state==RUNNABLE) cand[n++]=t;
  if(!n) return -1;
  if(R.plan->has_sched) { // default: next runnable, cyclic
    for(int i=1;i<=R.nthr;i++){ int t=(R.cur-1+i)%R.nthr+1; if(t!=R.cur && fib[t].state==RUNNABLE) return t; } return -1; }
  if(R.mode==PM_PCT) { int b=cand[0]; for(int i=1;i<n;i++) if(R.prio[cand[i]]>R.prio[b]) b=cand[i]; if(!blocked && R.prio[b]<R.prio[R.cur]) return -1; return b; }
  return cand[R.rng.below(n)];
}
static void draw_gap() { if(!R.gapmean) { R.gap=1L<<60; return; } u64 m=R.gapmean; // geometric-ish
  R.gap = 1 + (long)R.rng.below((u32)m) + (long)(R.rng.chance(1,4)? R.rng.below((u32)(3*m)) : 0); }

static void step(StepKind k) {
  R.steps++;
  Fiber& me=fib[R.cur]; Frame& f=me.fr[me.depth-1]; f.steps++; me.fsteps++;
  if(R.steps>R.limit) fatal(all_masks()|P(9),"no-progress",fmt("no end after %llu steps at ",(unsigned long long)R.steps)+where());
  if(!R.threads || me.nopre) return;
  int target=-1;
  if(R.plan->has_sched) {
    auto it=R.decs.find(key(R.cur,f.op,f.occ,f.steps));
    if(it!=R.decs.end()) target=it->second;
    else if(++R.consec>40000) { target=pick_other(false); R.consec=0; if(target>0) record(target); if(target>0) switch_to(target); return; }
    if(target>0 && target!=R.cur && target<=R.nthr && fib[target].state==RUNNABLE) { R.preempts++; record(target); switch_to(target); }
    return;
  }
  bool sw=false;
  if(R.mode==PM_PCT) { while(R.chgi<R.chg.size() && R.steps>=R.chg[R.chgi]) { R.chgi++; R.prio[R.cur]=--R.lowp; sw=true; }
    if(++R.consec>20000) { R.consec=0; R.prio[R.cur]=--R.lowp; sw=true; } }
  else {
    if(--R.gap<=0) { draw_gap(); sw=true; }
    else if(k==USER && R.puser && R.rng.chance(R.puser,100)) sw=true;
    else if(k==SYNC && R.psync && R.rng.chance(R.psync,100)) sw=true;
    else if(++R.consec>20000) { R.consec=0; sw=true; }
  }
  if(!sw) return;
  target=pick_other(false);
  if(target<0) return;
  R.preempts++; record(target); switch_to(target);
}
void point(StepKind k) { if(R.active) step(k); }
// current fiber cannot continue: blocked or done
static void sched_away(bool blocked) {
  Frame& f=fib[R.cur].fr[fib[R.cur].depth-1]; f.steps++;
  if(!R.threads) fatal(all_masks()|P(9),"deadlock","single thread blocked on a lock that is never released: "+where());
  int target=-1;
  if(R.plan->has_sched) { auto it=R.decs.find(key(R.cur,f.op,f.occ,f.steps)); if(it!=R.decs.end()) target=it->second;
    if(!(target>0 && target!=R.cur && target<=R.nthr && fib[target].state==RUNNABLE)) target=-1; }
  if(target<0) target=pick_other(true);
  if(target<0) {
    bool all=true; for(int t=1;t<=R.nthr;t++) if(fib[t].state!=DONE) all=false;
    if(!all) { Str s; for(int t=1;t<=R.nthr;t++) if(fib[t].state==BLOCKED) s+=fmt(" [thread %d waits for a lock held by thread %d, op%d]",t,mtxs[fib[t].wait_m].owner,fib[t].fr[fib[t].depth-1].op);
      fatal(all_masks()|P(9),"deadlock","no runnable thread:"+s); }
    switch_to(0); return;
  }
  record(target); switch_to(target);
}

// the running thread gives way, when another one can run
static void give_way() {
  if(!R.active) return;
  R.steps++; if(R.steps>R.limit) fatal(all_masks()|P(9),"no-progress",fmt("no end after %llu steps at ",(unsigned long long)R.steps)+where());
  if(!R.threads || fib[R.cur].nopre) return;
  Frame& f=fib[R.cur].fr[fib[R.cur].depth-1]; f.steps++; fib[R.cur].fsteps++;
  int target=-1;
  if(R.plan->has_sched) { auto it=R.decs.find(key(R.cur,f.op,f.occ,f.steps)); if(it!=R.decs.end()) target=it->second;
    if(!(target>0 && target!=R.cur && target<=R.nthr && fib[target].state==RUNNABLE)) target=-1; }
  if(target<0) { if(!R.plan->has_sched && R.mode==PM_PCT) R.prio[R.cur]=--R.lowp; target=pick_other(true); }
  if(target<0) return;
  record(target); switch_to(target);
}

void threads(int n, void (*fn)(int)) {
  if(n>MAXT-1) n=MAXT-1;
  R.nthr=n; Fiber& m=fib[0];
  for(int t=1;t<=n;t++) { fiber_init(t,fn); fib[t].vc=m.vc; fib[t].vc.c[t]=m.vc.c[t]+1; }
  m.vc.c[0]++;
  m.state=JOINING; R.threads=true; R.consec=0;
  int first=1;
  if(R.plan->has_sched) { auto it=R.decs.find(key(0,-2,0,0)); if(it!=R.decs.end() && it->second>=1 && it->second<=n) first=it->second; }
  else { first = 1+R.rng.below(n);
    if(R.mode==PM_PCT) { int perm[MAXT]; for(int i=1;i<=n;i++) perm[i]=i; for(int i=n;i>1;i--) std::swap(perm[i],perm[1+R.rng.below(i)]); for(int i=1;i<=n;i++) R.prio[i]=perm[i]; first=1; for(int i=1;i<=n;i++) if(R.prio[i]>R.prio[first]) first=i; } }
  Dec d; d.tid=0; d.op=-2; d.occ=0; d.step=0; d.target=first; R.res->decs.push_back(d);
  switch_to(first);
  R.threads=false; m.state=RUNNABLE;
  for(int t=1;t<=n;t++) m.vc.join(fib[t].vc);
}

// ---- violations ------------------------------------------------------------
void report(Mask m, const char* cls, const Str& msg) {
  for(auto& v : R.res->v) if(v.cls==cls && v.mask==m) return;
  Violation v; v.mask=m; v.cls=cls; v.msg=msg; v.at=R.clock; R.res->v.push_back(v);
  if(trace_on) trace("!! %s: %s", cls, msg.c_str());
}
[[noreturn]] void fatal(Mask m, const char* cls, const Str& msg) {
  if(!R.active) { fprintf(stderr,"fatal outside run: %s: %s\n",cls,msg.c_str()); _exit(3); }
  R.active=false; 
  Violation v; v.mask=m?m:all_masks(); v.cls=cls; v.msg=msg; v.at=R.clock; R.res->v.push_back(v); R.res->fatal=true;
  if(trace_on) { trace("!! %s: %s", cls, msg.c_str()); if(getenv("SIM_BT")) { fflush(stdout); void* a[40]; int n=backtrace(a,40); backtrace_symbols_fd(a,n,1); } }
  void* dummy; rt_switch(&dummy, ctl_sp); abort();
}
void trace(const char* f, ...) { if(!trace_on) return; va_list ap; va_start(ap,f); printf("  [%5llu] t%d ",(unsigned long long)R.clock,R.cur); vprintf(f,ap); putchar('\n'); va_end(ap); }

// ---- HB hand-overs -----------------------------------------------------------
void hb_clear(HB& h){ memset(&h,0,sizeof h); }
void hb_release(HB& h){ VC& v=fib[R.cur].vc; for(int i=0;i<MAXT;i++) if(v.c[i]>h.c[i]) h.c[i]=v.c[i]; v.c[R.cur]++; }
void hb_acquire(const HB& h){ VC& v=fib[R.cur].vc; for(int i=0;i<MAXT;i++) if(h.c[i]>v.c[i]) v.c[i]=h.c[i]; }

// ---- memory access ---------------------------------------------------------
enum { KW=0, KR=1, KAW=2, KAR=3 };
static inline bool arena_off(const void* p, size_t& off) { off=(uintptr_t)p-BASE; return off<ARENA; }
// static data of the library (any object of the program whose name lies in namespace boost): shadowed like the heap, and put back before every run
static uintptr_t sd_lo, sd_hi; static u8* sd_lib; static Vec<u32> sd_touched;
struct SdRange { uintptr_t a; size_t n; Vec<char>* image; };
static Vec<SdRange> sd_ranges;
static const size_t SD_MAX = 8u<<20;
static inline bool sd_is_lib(const void* p) { uintptr_t a=(uintptr_t)p; return a-sd_lo < sd_hi-sd_lo && sd_lib[(a-sd_lo)/8]; }
static inline bool mem_off(const void* p, size_t& off) {
  if(arena_off(p,off)) return true;
  if(!sd_is_lib(p)) return false;
  off=ARENA+((uintptr_t)p-sd_lo); return true;
}
static void bad_mem(size_t off, size_t n, bool wr, const char* what) {
  u32 b=blk[off/8]; Str s=fmt("%s: %s of %zu bytes at arena+%zu",what,wr?"write":"read",n,off);
  if(b) s+=fmt(" (block #%u of %u bytes, allocated by op%d)",b,blocks[b].size,blocks[b].op);
  fatal(frames_mask(R.cur)|P(10),"memory",s+"; "+where());
}
static inline void check_mem(size_t off, size_t n, bool wr) {
  size_t g=off/8, e=(off+n-1)/8;
  for(size_t i=g;i<=e;i++) {
    u8 s=st[i];
    if(s==ST_FREED) bad_mem(off,n,wr,"use after free");
    if(s==ST_NONE) bad_mem(off,n,wr,"access outside any allocation");
    if(s<8 && (i==e) && ((off+n-1)&7)>=s) bad_mem(off,n,wr,"access past the end of an allocation");
  }
}
static void race_found(size_t g, int u, int kind, int uk) {
  static const char* kn[]={"write","read","atomic write","atomic read"};
  u32 b=blk[g]; Str s=fmt("%s by thread %d not ordered with %s by thread %d",kn[kind],R.cur,kn[uk],u);
  if(b) s+=fmt(" (block #%u of %u bytes +%zu, allocated by op%d)",b,blocks[b].size,g*8-blocks[b].off,blocks[b].op);
  fatal(all_masks()|P(10),"data-race",s+"; "+where());
}
static inline void race1(size_t g, u32 mask, int kind) {
  Cell& c=cells[g]; int me=R.cur; VC& v=fib[me].vc;
  for(int u=0;u<MAXT;u++) {
    if(u==me) continue;
    u32* k=c.k[u];
    u32 vu=v.c[u];
    if((k[KW]&mask) && (k[KW]>>8)>vu) race_found(g,u,kind,KW);
    if(kind!=KAR) {
      if(kind!=KAW && (k[KAW]&mask) && (k[KAW]>>8)>vu) race_found(g,u,kind,KAW);
      if(kind!=KR) {
        if((k[KR]&mask) && (k[KR]>>8)>vu) race_found(g,u,kind,KR);
        if(kind==KW && (k[KAR]&mask) && (k[KAR]>>8)>vu) race_found(g,u,kind,KAR);
      }
    }
  }
  u32& mine=c.k[me][kind]; u32 clk=v.c[me];
  if((mine>>8)==clk) mine|=mask; else mine=(clk<<8)|mask;
}
static inline void race(size_t off, size_t n, int kind) {
  size_t b=off, e=off+n;
  while(b<e) { size_t g=b/8; size_t ge=std::min(e,(g+1)*8); u32 m=0; for(size_t i=b;i<ge;i++) m|=1u<<(i&7); race1(g,m,kind); b=ge; }
}
static inline bool shared_touch(size_t off) {
  u8& o=own[off/8]; u8 me=R.cur+1; if(o==me) return false; if(o==0) { o=me; if(off>=ARENA) sd_touched.push_back(off/8); return false; } o=0xFF; return true;
}
static inline void acc(const void* p, size_t n, bool wr) {
  size_t off; if(!mem_off(p,off) || !R.active) return;
  if(!n) return;
  if(shared_touch(off)) step(PLAIN); else if(++R.steps>R.limit) step(PLAIN);
  check_mem(off,n,wr); race(off,n,wr?KW:KR);
}
bool in_arena(const void* p){ size_t o; return arena_off(p,o); }
bool is_live(const void* p){ size_t o; return arena_off(p,o) && st[o/8]!=ST_NONE && st[o/8]!=ST_FREED; }
size_t live_blocks(){ return nlive; } size_t live_bytes(){ return blive; } size_t peak_blocks(){ return npeak; }
// what the program would destroy when it ends, and what static objects still reach, is not leaked
static void scan(uintptr_t a, size_t n, Vec<u32>& todo) { for(a=(a+7)/8*8;n>=8;a+=8,n-=8) { size_t off; if(!arena_off(*(void**)a,off)) continue; u32 b=blk[off/8]; if(b && blocks[b].state==1) { blocks[b].state=3; todo.push_back(b); } } }
size_t leaked_blocks() {
  run_tls_dtors(0);
  while(!R.atex.empty()) { auto d=R.atex.back(); R.atex.pop_back(); d.first(d.second); }
  if(!nlive) return 0;
  Vec<u32> todo; for(auto& r : sd_ranges) scan(r.a,r.n,todo); if(tls_size) scan((uintptr_t)tls_base,tls_size,todo);
  size_t reached=0; while(!todo.empty()) { u32 b=todo.back(); todo.pop_back(); reached++; scan(BASE+blocks[b].off,blocks[b].size,todo); }
  return nlive-reached;
}
Str describe_leaks(int max) { Str s; int n=0; for(size_t i=1;i<blocks.size();i++) if(blocks[i].state==1 && n++<max) s+=fmt(" #%zu(%u bytes, op%d)",i,blocks[i].size,blocks[i].op); return s; }

bool fault_hit(FaultKind k) {
  if(!R.active) return false;
  Fiber& f=fib[R.cur]; if(f.harness) return false; Frame& x=f.fr[f.depth-1];
  if(x.in_user) return false;
  if(k==F_ALLOC_NTH) { if(x.fk==F_ALLOC_NTH) { if(++x.count==x.fn) { x.fired=1; CNT("fault.alloc_nth"); return true; } }
    else if(x.fk==F_ALLOC_FROM) { if(++x.count>=x.fn) { x.fired=1; CNT("fault.alloc_from"); return true; } }
    return false; }
  if(x.fk==k && ++x.count==x.fn) { x.fired=1;
    if(k==F_COPY_NTH) CNT("fault.copy_throw"); else if(k==F_CMP_NTH) CNT("fault.compare_throw"); else CNT("fault.assign_throw"); return true; }
  return false;
}
static void* arena_alloc(size_t n) {
  if(n==0) n=1;
  size_t need=(n+7)/8*8;
  if(bump+need+48>ARENA) fatal(all_masks()|P(17),"memory-bound","the run exhausted the simulated heap");
  size_t off=(bump+15)/16*16; bump=off+need+16;
  u32 id=(u32)blocks.size(); Block b; b.off=off; b.size=n; b.state=1; b.tid=R.cur; b.op=fib[R.cur].fr[fib[R.cur].depth-1].op; blocks.push_back(b);
  size_t g=off/8, ng=need/8; for(size_t i=0;i<ng;i++) { st[g+i]=8; own[g+i]=R.cur+1; blk[g+i]=id; }
  if(n&7) st[g+ng-1]=n&7;
  memset((void*)(BASE+off),0xCD,need);
  nlive++; blive+=n; if(nlive>npeak) npeak=nlive;
  R.hash=mixh(R.hash,n);
  return (void*)(BASE+off);
}
static void arena_free(void* p) {
  size_t off; arena_off(p,off);
  if(!R.active) return;
  u32 id=blk[off/8];
  if(!id || blocks[id].off!=off) fatal(frames_mask(R.cur)|P(10),"memory",fmt("free of a pointer that was not allocated (arena+%zu); ",off)+where());
  if(blocks[id].state==2) fatal(frames_mask(R.cur)|P(10),"memory",fmt("double free of block #%u (%u bytes, op%d); ",id,blocks[id].size,blocks[id].op)+where());
  bool sh=false; for(size_t i=0;i<(blocks[id].size+7)/8;i++) if(own[off/8+i]!=R.cur+1) { sh=true; break; }
  if(sh) { step(SYNC); if(blocks[id].state==2) fatal(frames_mask(R.cur)|P(10),"memory",fmt("double free of block #%u; ",id)+where()); }
  race(off,blocks[id].size,KW);
  for(size_t i=0;i<(blocks[id].size+7)/8;i++) { size_t g=off/8+i; st[g]=ST_FREED; if(mtxid[g]) { Mtx& m=mtxs[mtxid[g]]; if(m.alive && m.owner>=0) fatal(frames_mask(R.cur)|P(9)|P(10),"memory","memory of a locked mutex freed; "+where()); } }
  memset(p,0xDD,blocks[id].size);
  blocks[id].state=2; nlive--; blive-=blocks[id].size;
}

// ---- atomics -----------------------------------------------------------------
static VC* sync_of(size_t off, bool create) { u16& s=syncid[off/8]; if(!s) { if(!create) return nullptr; VC z; memset(&z,0,sizeof z); syncs.push_back(z); s=(u16)(syncs.size()-1); } return &syncs[s]; }
static inline bool is_acq(int mo){ return mo==1||mo==2||mo==4||mo==5; }
static inline bool is_rel(int mo){ return mo==3||mo==4||mo==5; }
static bool atom_pre(const volatile void* p, size_t n, size_t& off, bool wr) {
  if(!mem_off((const void*)p,off)||!R.active) return false;
  if(shared_touch(off)) step(SYNC); else if(++R.steps>R.limit) step(PLAIN);
  check_mem(off,n,wr); race(off,n,wr?KAW:KAR); return true;
}
static void atom_load(size_t off,int mo){ VC* s=sync_of(off,false); if(!s) return; Fiber& f=fib[R.cur]; if(is_acq(mo)) f.vc.join(*s); else f.apend.join(*s); }
static void atom_store(size_t off,int mo){ VC* s=sync_of(off,true); Fiber& f=fib[R.cur]; if(is_rel(mo)) { *s=f.vc; f.vc.c[R.cur]++; } else *s=f.frel; }
static void atom_rmw(size_t off,int mo){ atom_load(off,mo); VC* s=sync_of(off,true); Fiber& f=fib[R.cur]; if(is_rel(mo)) { s->join(f.vc); f.vc.c[R.cur]++; } else s->join(f.frel); }

// ---- mutexes --------------------------------------------------------------------
static int mtx_find(void* m, bool create) {
  size_t off; 
  if(arena_off(m,off)) { if(mtxid[off/8]) return mtxid[off/8]; }
  else { for(size_t i=1;i<mtxs.size();i++) if(mtxs[i].addr==m) return (int)i; }
  if(!create) return 0;
  Mtx x; x.readers=0; x.seq=0; memset(&x.rvc,0,sizeof(VC)); x.addr=m; x.owner=-1; x.count=0; x.rec=false; x.alive=true; memset(&x.vc,0,sizeof(VC)); mtxs.push_back(x);
  int id=(int)mtxs.size()-1; if(arena_off(m,off)) mtxid[off/8]=(u16)id; return id;
}
static void mtx_memcheck(void* m, const char* what) { size_t off; if(arena_off(m,off)) { if(st[off/8]==ST_FREED) bad_mem(off,8,true,what); if(st[off/8]==ST_NONE) bad_mem(off,8,true,what); } }
void mtx_init(void* m, bool rec) { if(!R.active) return; mtx_memcheck(m,"initialisation of a mutex in freed memory"); int id=mtx_find(m,true); mtxs[id].rec=rec; mtxs[id].owner=-1; mtxs[id].count=0; mtxs[id].readers=0; mtxs[id].alive=true; }
void mtx_destroy(void* m) { if(!R.active) return; mtx_memcheck(m,"destruction of a mutex in freed memory"); int id=mtx_find(m,true); size_t off; if(arena_off(m,off)) race(off,8,KW);
  if(mtxs[id].owner>=0) fatal(all_masks()|P(9)|P(10)|P(19),"memory","mutex destroyed while locked; "+where()); mtxs[id].alive=false; }
void mtx_lock(void* m) {
  if(!R.active) return;
  step(SYNC); mtx_memcheck(m,"lock of a mutex in freed memory");
  size_t off; if(arena_off(m,off)) { check_mem(off,1,true); race(off,1,KAW); }
  int id=mtx_find(m,true);
  if(!mtxs[id].alive) fatal(frames_mask(R.cur)|P(10),"memory","lock of a destroyed mutex; "+where());
  if(mtxs[id].owner==R.cur) { if(mtxs[id].rec) { mtxs[id].count++; return; } fatal(frames_mask(R.cur)|P(9)|P(19),"deadlock","a thread locked a non-recursive mutex it already holds; "+where()); }
  while(mtxs[id].owner>=0) { CNT("sched.lock_contention"); Fiber& f=fib[R.cur]; f.state=BLOCKED; if(!fib[mtxs[id].owner].mop) f.nblocked++; f.wait_m=id; sched_away(true); mtx_memcheck(m,"lock of a mutex in freed memory"); }
  mtxs[id].owner=R.cur; mtxs[id].count=1; fib[R.cur].held++; fib[R.cur].vc.join(mtxs[id].vc);
}
bool mtx_trylock(void* m) {
  if(!R.active) return true;
  step(SYNC); mtx_memcheck(m,"lock of a mutex in freed memory"); int id=mtx_find(m,true);
  if(mtxs[id].owner>=0) { if(mtxs[id].rec && mtxs[id].owner==R.cur) { mtxs[id].count++; return true; } return false; }
  mtxs[id].owner=R.cur; mtxs[id].count=1; fib[R.cur].held++; fib[R.cur].vc.join(mtxs[id].vc); return true;
}
void mtx_unlock(void* m) {
  if(!R.active) return;
  mtx_memcheck(m,"unlock of a mutex in freed memory"); int id=mtx_find(m,true);
  if(mtxs[id].owner!=R.cur) fatal(frames_mask(R.cur)|P(9)|P(10)|P(19),"lock-misuse","unlock of a mutex not held by the calling thread; "+where());
  if(--mtxs[id].count) return;
  Fiber& f=fib[R.cur]; mtxs[id].vc=f.vc; f.vc.c[R.cur]++; f.held--; mtxs[id].owner=-1;
  for(int t=1;t<=R.nthr;t++) if(fib[t].state==BLOCKED && fib[t].wait_m==id) fib[t].state=RUNNABLE;
  step(SYNC);
}
// a lock attempt that gives up at a deadline: any holder may be slower than the deadline allows
static bool mtx_timedlock(void* m) {
  if(!R.active) return true;
  for(int i=0;i<6;i++) { if(mtx_trylock(m)) return true; int id=mtx_find(m,false); if(id && mtxs[id].owner>=0 && !fib[mtxs[id].owner].mop) fib[R.cur].nblocked++; give_way(); }
  CNT("sched.timeouts"); R.usec+=1000000; return false;
}
static void wait_on(int id) { CNT("sched.lock_contention"); Fiber& f=fib[R.cur]; f.state=BLOCKED; f.nblocked++; f.wait_m=id; sched_away(true); }
static void wake(int id, int n) { for(int t=1;t<=R.nthr && n>0;t++) if(fib[t].state==BLOCKED && fib[t].wait_m==id) { fib[t].state=RUNNABLE; n--; } }
static bool rw_lock(void* m, bool wr, bool tr) {
  if(!R.active) return true;
  step(SYNC); mtx_memcheck(m,"lock of a mutex in freed memory"); int id=mtx_find(m,true);
  if(mtxs[id].owner==R.cur || (wr && mtxs[id].readers>>R.cur&1)) { if(tr) return false; fatal(frames_mask(R.cur)|P(9)|P(19),"deadlock","a thread locked a reader-writer lock it already holds; "+where()); }
  while(mtxs[id].owner>=0 || (wr && mtxs[id].readers)) { if(tr) return false; wait_on(id); mtx_memcheck(m,"lock of a mutex in freed memory"); }
  Mtx& x=mtxs[id]; fib[R.cur].held++; fib[R.cur].vc.join(x.vc);
  if(wr) { x.owner=R.cur; fib[R.cur].vc.join(x.rvc); } else x.readers|=1u<<R.cur;
  return true;
}
static void rw_unlock(void* m) {
  if(!R.active) return;
  mtx_memcheck(m,"unlock of a mutex in freed memory"); int id=mtx_find(m,true); Mtx& x=mtxs[id]; Fiber& f=fib[R.cur];
  if(x.owner==R.cur) { x.owner=-1; x.vc=f.vc; } else if(x.readers>>R.cur&1) { x.readers&=~(1u<<R.cur); x.rvc.join(f.vc); }
  else fatal(frames_mask(R.cur)|P(9)|P(10)|P(19),"lock-misuse","unlock of a lock not held by the calling thread; "+where());
  f.vc.c[R.cur]++; f.held--; wake(id,MAXT); step(SYNC);
}
// condition variables: a waiter may also wake without a notification; a timed wait may time out whenever it runs again
static bool cond_wait(void* c, void* m, bool timed) {
  if(!R.active) return true;
  int id=mtx_find(c,true); u32 s=mtxs[id].seq; mtx_unlock(m); bool ok=true;
  if(timed) { for(int i=0;i<6 && s==mtxs[id].seq;i++) give_way(); if(s==mtxs[id].seq) { ok=false; R.usec+=1000000; CNT("sched.timeouts"); } }
  else if(s==mtxs[id].seq) wait_on(id);
  mtx_lock(m); return ok;
}
static void cond_wake(void* c, int n) { if(!R.active) return; step(SYNC); int id=mtx_find(c,true); mtxs[id].seq++; wake(id,n); }
// simulated clock: advances by itself, in steps and jumps drawn from the seed; the realtime clock may also jump back
static u64 clock_us() { if(!R.active) return 1000; step(SYNC); u64 z=(R.plan->seed*0x9E3779B97F4A7C15ull)^(++R.usec*0xD1B54A32D192ED03ull); z^=z>>29; z*=0xBF58476D1CE4E5B9ull; z^=z>>32;
  R.usec+=z%16==0?3600000000ull:z%8==1?20000:z%4==2?0:1+z%50; CNT("clock.reads"); return R.usec; }
static u64 wall_us() { u64 u=clock_us(); if(!R.active) return u; u64 z=(R.plan->seed+u)*0xBF58476D1CE4E5B9ull; z^=z>>31; return 1700000000000000ull+u+(z%16==0?3600000000ull:0); }
bool mtx_is_locked(void* m) { int id=mtx_find(m,false); return id && mtxs[id].owner>=0; }

// ---- run -----------------------------------------------------------------------
static char altstk[65536];
static void on_signal(int sig) {
  if(!R.active) { signal(sig,SIG_DFL); raise(sig); return; }
  if(sig==SIGALRM) fatal(all_masks()|P(9),"no-progress","a run made no progress for 20 s of real time at "+where());
  fatal(all_masks()|P(10),"crash",fmt("signal %d (%s); ",sig,strsignal(sig))+where());
}
static void on_terminate() { 
  if(!R.active) { fprintf(stderr,"terminate outside a run\n"); _exit(3); }
  fatal(frames_mask(R.cur)|P(11)|P(12),"terminate","std::terminate was called (exception escaped a destructor or noexcept function); "+where()); }

static int find_tls(struct dl_phdr_info* i, size_t, void*) { // the first object reported is the program
  for(int k=0;k<i->dlpi_phnum;k++) if(i->dlpi_phdr[k].p_type==PT_TLS) { auto& h=i->dlpi_phdr[k]; uintptr_t fs; asm("mov %%fs:0,%0":"=r"(fs)); size_t al=h.p_align?h.p_align:1; tls_size=(h.p_memsz+al-1)/al*al; tls_base=(char*)fs-tls_size; }
  return 1; }
static bool lib_symbol(const char* s) {
  static const char* pre[]={"_ZN5boost","_ZNK5boost","_ZZN5boost","_ZZNK5boost","_ZGVN5boost","_ZGVZN5boost","_ZGVZNK5boost"};
  for(auto p : pre) if(!strncmp(s,p,strlen(p))) return true;
  return false; }
static void find_statics() {
  dl_iterate_phdr(find_tls,nullptr);
  if(tls_size) { tls_image=(char*)malloc(tls_size); memcpy(tls_image,tls_base,tls_size); }
  int fd=open("/proc/self/exe",O_RDONLY); struct stat sb; if(fd<0 || fstat(fd,&sb)) { fprintf(stderr,"cannot read the program\n"); _exit(3); }
  char* b=(char*)mmap(0,sb.st_size,PROT_READ,MAP_PRIVATE,fd,0); close(fd); if(b==MAP_FAILED) _exit(3);
  Elf64_Ehdr* e=(Elf64_Ehdr*)b; Elf64_Shdr* sh=(Elf64_Shdr*)(b+e->e_shoff);
  for(int i=0;i<e->e_shnum;i++) if((sh[i].sh_flags&(SHF_WRITE|SHF_ALLOC|SHF_TLS))==(SHF_WRITE|SHF_ALLOC)) { if(!sd_lo||sh[i].sh_addr<sd_lo) sd_lo=sh[i].sh_addr; if(sh[i].sh_addr+sh[i].sh_size>sd_hi) sd_hi=sh[i].sh_addr+sh[i].sh_size; }
  sd_lo=sd_lo/8*8; if(sd_hi-sd_lo>SD_MAX) sd_hi=sd_lo+SD_MAX;
  sd_lib=(u8*)calloc((sd_hi-sd_lo)/8+1,1);
  for(int i=0;i<e->e_shnum;i++) if(sh[i].sh_type==SHT_SYMTAB) {
    Elf64_Sym* y=(Elf64_Sym*)(b+sh[i].sh_offset); const char* str=b+sh[sh[i].sh_link].sh_offset;
    for(size_t k=0;k<sh[i].sh_size/sizeof *y;k++) { int ty=ELF64_ST_TYPE(y[k].st_info); unsigned sx=y[k].st_shndx;
      if(ty!=STT_OBJECT && !(ty==10)) continue; 
      if(!y[k].st_size || sx==SHN_UNDEF || sx>=e->e_shnum || !(sh[sx].sh_flags&SHF_WRITE) || (sh[sx].sh_flags&SHF_TLS)) continue;
      if(!strncmp(b+sh[e->e_shstrndx].sh_offset+sh[sx].sh_name,".data.rel.ro",12)) continue;
      if(y[k].st_value<sd_lo || y[k].st_value+y[k].st_size>sd_hi || !lib_symbol(str+y[k].st_name)) continue;
      SdRange r; r.a=y[k].st_value; r.n=y[k].st_size; r.image=new Vec<char>((char*)r.a,(char*)r.a+r.n); sd_ranges.push_back(r);
      for(size_t g=(r.a-sd_lo)/8;g<=(r.a+r.n-1-sd_lo)/8;g++) { sd_lib[g]=1; st[NG+g]=8; }
    } }
  munmap(b,sb.st_size);
}
static void setup_once() {
  static bool done=false; if(done) return; done=true;
  void* a=mmap((void*)BASE,ARENA,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0);
  if(a!=(void*)BASE) { fprintf(stderr,"cannot map the arena\n"); _exit(3); }
  auto mk=[](size_t n){ void* p=mmap(0,n,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(p==MAP_FAILED) _exit(3); return p; };
  const size_t NA=NG+SD_MAX/8;
  cells=(Cell*)mk(NA*sizeof(Cell)); st=(u8*)mk(NA); own=(u8*)mk(NA); syncid=(u16*)mk(NA*2); mtxid=(u16*)mk(NA*2); blk=(u32*)mk(NA*4);
  find_statics();
  __libc_single_threaded=0;
  std::set_terminate(on_terminate);
  stack_t ss; memset(&ss,0,sizeof ss); ss.ss_sp=altstk; ss.ss_size=sizeof altstk; sigaltstack(&ss,0);
  struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=on_signal; sa.sa_flags=SA_ONSTACK|SA_NODEFER;
  int sg[]={SIGSEGV,SIGBUS,SIGFPE,SIGILL,SIGABRT,SIGALRM}; for(int s:sg) sigaction(s,&sa,0);
}
static void main_fiber(int) { R.body(*R.plan); }
static void main_entry() {
  try { main_fiber(0); } catch(...) { fatal(all_masks()|P(11),"escape","an exception escaped the setup or settle phase at "+where()); }
  R.active=false; void* d; rt_switch(&d,ctl_sp); abort();
}
void run(const Plan& plan, void (*body)(const Plan&), Result& out) {
  setup_once();
  // reset the world
  size_t g=(bump+64)/8+1; if(g>NG) g=NG;
  memset(cells,0,g*sizeof(Cell)); memset(st,0,g); memset(own,0,g); memset(syncid,0,g*2); memset(mtxid,0,g*2); memset(blk,0,g*4);
  for(u32 k : sd_touched) { memset(&cells[k],0,sizeof(Cell)); own[k]=0; syncid[k]=mtxid[k]=0; } sd_touched.clear();
  for(auto& r : sd_ranges) memcpy((void*)r.a,r.image->data(),r.n);
  if(tls_size) { memcpy(tls_base,tls_image,tls_size); for(int t=0;t<MAXT;t++) { if(!fib[t].tls) fib[t].tls=(char*)malloc(tls_size); memcpy(fib[t].tls,tls_image,tls_size); } }
  for(int t=0;t<MAXT;t++) if(fib[t].tlsd) fib[t].tlsd->clear();
  R.atex.clear(); R.usec=1000000;
  bump=16; nlive=blive=npeak=0; blocks.clear(); blocks.push_back(Block()); syncs.clear(); { VC z; memset(&z,0,sizeof z); syncs.push_back(z); } mtxs.clear(); mtxs.push_back(Mtx());
  R.threads=false; R.cur=0; R.nthr=0; R.steps=R.clock=R.switches=R.preempts=R.consec=0; R.hash=R.il=1; R.limit=3000000;
  R.plan=&plan; R.res=&out; R.body=body; R.decs.clear(); R.occ.clear();
  for(int t=0;t<MAXT;t++) { memset(&fib[t].vc,0,sizeof(VC)); fib[t].vc.c[t]=1; fib[t].state=FREE_; }
  if(plan.has_sched) { for(auto& d : plan.decs) R.decs[key(d.tid,d.op,d.occ,d.step)]=d.target; R.mode=PM_RW; }
  else {
    R.rng=Rng(plan.seed*0x2545F4914F6CDD1Dull+77); for(int i=0;i<4;i++) R.rng.next();
    int m=R.rng.below(10); R.puser=R.psync=0; R.gapmean=0; R.mode=PM_RW; R.chg.clear(); R.chgi=0; R.lowp=0;
    int hint=plan.get("steps_hint",4000);
    if(m<2) { R.mode=PM_PCT; int d=1+R.rng.below(6); for(int i=0;i<d;i++) R.chg.push_back(1+R.rng.below((u32)hint)); std::sort(R.chg.begin(),R.chg.end()); }
    else if(m<4) { static const int ps[]={10,30,60}; R.puser=ps[R.rng.below(3)]; R.gapmean=R.rng.chance(1,2)?0:400; }
    else if(m<6) { static const int ps[]={3,10,30}; R.psync=ps[R.rng.below(3)]; R.puser=R.rng.below(2)*20; }
    else { static const int gm[]={2,5,12,30,80,250,800}; R.gapmean=gm[R.rng.below(7)]; R.puser=R.rng.chance(1,3)?25:0; }
    draw_gap();
  }
  Fiber& f=fib[0];
  fiber_init(0,main_fiber); // sets stack
  u64* top=(u64*)(f.stack+4096+STK); *--top=0; *--top=(u64)(void*)main_entry; for(int i=0;i<6;i++) *--top=0; f.sp=top;
  R.active=true;
  u64* gl=(u64*)abi::__cxa_get_globals(); u64 s0=gl[0]; u64 s1=gl[1];
  gl[0]=0; *(u32*)(gl+1)=0;
  rt_switch(&ctl_sp,f.sp);
  R.active=false;
  gl[0]=s0; gl[1]=s1;
  out.hash=mixh(mixh(R.hash,R.steps),bump); out.ilhash=R.il; out.steps=R.steps; out.clock=R.clock; out.switches=R.switches; out.preempts=R.preempts;
}

// ---- plan text ----------------------------------------------------------------
void write_plan(FILE* f, const Plan& p) {
  fprintf(f,"simreplay 1\nworld %s\nprofile %s\nseed %llu\n",p.world.c_str(),p.profile.c_str(),(unsigned long long)p.seed);
  for(auto& c : p.cfg) fprintf(f,"cfg %s %d\n",c.first.c_str(),c.second);
  for(auto& i : p.items) { fprintf(f,"%c %d %d %d",i.type,i.id,i.ctx,i.kind); for(int k=0;k<8;k++) fprintf(f," %d",i.a[k]); fprintf(f," %d %d\n",i.fk,i.fn); }
  if(p.has_sched) { fprintf(f,"sched\n"); for(auto& d : p.decs) fprintf(f,"d %d %d %u %u %d\n",d.tid,d.op,d.occ,d.step,d.target); }
  fprintf(f,"end\n");
}
bool read_plan(FILE* f, Plan& p) {
  char line[512]; bool ok=false;
  while(fgets(line,sizeof line,f)) {
    char a[128]; int v; unsigned long long s;
    if(line[0]=='#') continue;
    if(sscanf(line,"world %100s",a)==1) p.world=a;
    else if(sscanf(line,"profile %100s",a)==1) p.profile=a;
    else if(sscanf(line,"seed %llu",&s)==1) p.seed=s;
    else if(sscanf(line,"cfg %100s %d",a,&v)==2) p.set(a,v);
    else if(!strncmp(line,"sched",5)) p.has_sched=true;
    else if(!strncmp(line,"end",3)) { ok=true; break; }
    else if(!strncmp(line,"simreplay",9)) ;
    else if(line[0]=='d'&&line[1]==' ') { Dec d; if(sscanf(line+2,"%d %d %u %u %d",&d.tid,&d.op,&d.occ,&d.step,&d.target)==5) p.decs.push_back(d); }
    else { Item i; i.type=line[0]; if(sscanf(line+1,"%d %d %d %d %d %d %d %d %d %d %d %d %d",&i.id,&i.ctx,&i.kind,&i.a[0],&i.a[1],&i.a[2],&i.a[3],&i.a[4],&i.a[5],&i.a[6],&i.a[7],&i.fk,&i.fn)==13) p.items.push_back(i); }
  }
  return ok;
}
} // namespace rt

using namespace rt;
// ---- allocation entry points of the instrumented code (redirected by objcopy) --
// a mutex that was never passed to pthread_mutex_init carries its kind in its initialiser
static void pm(pthread_mutex_t* m) { if(!R.active || mtx_find(m,false)) return; mtx_init(m, (m->__data.__kind&3)==PTHREAD_MUTEX_RECURSIVE_NP); }
extern "C" {
void* sim_new(size_t n) { if(!R.active || fib[R.cur].harness) { void* p=malloc(n?n:1); if(!p) abort(); return p; }
  if(fault_hit(F_ALLOC_NTH)) throw std::bad_alloc(); return arena_alloc(n); }
void* sim_new_nothrow(size_t n, const std::nothrow_t&) { if(!R.active || fib[R.cur].harness) return malloc(n?n:1); if(fault_hit(F_ALLOC_NTH)) return nullptr; return arena_alloc(n); }
void sim_delete(void* p) { if(!p) return; if(rt::in_arena(p)) arena_free(p); else free(p); }
void sim_delete_sz(void* p, size_t) { sim_delete(p); }
void* sim_newa(size_t n) { return sim_new(n); } void sim_deletea(void* p) { sim_delete(p); } void sim_deletea_sz(void* p, size_t) { sim_delete(p); }
int sim_usleep(unsigned) { give_way(); return 0; }
void* sim_malloc(size_t n) { if(!R.active || fib[R.cur].harness) return malloc(n); if(fault_hit(F_ALLOC_NTH)) return nullptr; return arena_alloc(n); }
void sim_free(void* p) { sim_delete(p); }
void* sim_calloc(size_t a, size_t b) { void* p=sim_malloc(a*b); if(p) memset(p,0,a*b); return p; }
void* sim_realloc(void* p, size_t n) { if(!p) return sim_malloc(n); if(!rt::in_arena(p)) return realloc(p,n); void* q=sim_malloc(n); if(!q) return q; size_t off; arena_off(p,off); size_t o=blocks[blk[off/8]].size; memcpy(q,p,o<n?o:n); arena_free(p); return q; }
int sim_pthread_mutex_timedlock(pthread_mutex_t* m, const void*) { pm(m); return mtx_timedlock(m)?0:ETIMEDOUT; }
int sim_pthread_mutex_clocklock(pthread_mutex_t* m, int, const void*) { pm(m); return mtx_timedlock(m)?0:ETIMEDOUT; }
int sim_pthread_rwlock_init(void* m, const void*) { mtx_init(m,false); return 0; }
int sim_pthread_rwlock_destroy(void* m) { mtx_destroy(m); return 0; }
int sim_pthread_rwlock_rdlock(void* m) { rw_lock(m,false,false); return 0; }
int sim_pthread_rwlock_wrlock(void* m) { rw_lock(m,true,false); return 0; }
int sim_pthread_rwlock_tryrdlock(void* m) { return rw_lock(m,false,true)?0:EBUSY; }
int sim_pthread_rwlock_trywrlock(void* m) { return rw_lock(m,true,true)?0:EBUSY; }
int sim_pthread_rwlock_unlock(void* m) { rw_unlock(m); return 0; }
int sim_pthread_spin_init(void* m, int) { mtx_init(m,false); return 0; }
int sim_pthread_spin_destroy(void* m) { mtx_destroy(m); return 0; }
int sim_pthread_spin_lock(void* m) { mtx_lock(m); return 0; }
int sim_pthread_spin_trylock(void* m) { return mtx_trylock(m)?0:EBUSY; }
int sim_pthread_spin_unlock(void* m) { mtx_unlock(m); return 0; }
int sim_pthread_cond_init(void* c, const void*) { mtx_init(c,false); return 0; }
int sim_pthread_cond_destroy(void* c) { mtx_destroy(c); return 0; }
int sim_pthread_cond_wait(void* c, void* m) { cond_wait(c,m,false); return 0; }
int sim_pthread_cond_timedwait(void* c, void* m, const void*) { return cond_wait(c,m,true)?0:ETIMEDOUT; }
int sim_pthread_cond_clockwait(void* c, void* m, int, const void*) { return cond_wait(c,m,true)?0:ETIMEDOUT; }
int sim_pthread_cond_signal(void* c) { cond_wake(c,1); return 0; }
int sim_pthread_cond_broadcast(void* c) { cond_wake(c,MAXT); return 0; }
void sim_cv_ctor(void* c) { mtx_init(c,false); }
void sim_cv_dtor(void* c) { mtx_destroy(c); }
void sim_cv_wait(void* c, void* ul) { cond_wait(c,*(void**)ul,false); }
void sim_cv_one(void* c) { cond_wake(c,1); }
void sim_cv_all(void* c) { cond_wake(c,MAXT); }
pthread_t sim_pthread_self() { return R.active ? (pthread_t)(0x51000+R.cur*16) : pthread_self(); }
static void put(struct timespec* t, u64 us) { t->tv_sec=us/1000000; t->tv_nsec=us%1000000*1000; }
int sim_clock_gettime(int id, struct timespec* t) { put(t, id==CLOCK_REALTIME ? wall_us() : clock_us()); return 0; }
int sim_gettimeofday(struct timeval* t, void*) { u64 u=wall_us(); t->tv_sec=u/1000000; t->tv_usec=u%1000000; return 0; }
time_t sim_time(time_t* t) { time_t r=wall_us()/1000000; if(t) *t=r; return r; }
clock_t sim_clock() { return clock_us(); }
long sim_steady_now() { return (long)(clock_us()*1000); }
long sim_system_now() { return (long)(wall_us()*1000); }
int sim_clock_nanosleep(int, int, const void*, void*) { if(R.active) R.usec+=1000; give_way(); return 0; }
int sim_rand() { if(!R.active) return 4; u64 z=(R.plan->seed+ ++R.usec)*0xBF58476D1CE4E5B9ull; return (int)((z^z>>31)&0x7fffffff); }
// function-local statics of the library
int sim_guard_acquire(u8* g) {
  if(!R.active || !sd_is_lib(g)) return abi::__cxa_guard_acquire((abi::__guard*)g);
  for(;;) { size_t o; atom_pre(g,1,o,true); if(g[0]) { atom_load(o,2); return 0; }
    if(!g[1]) { g[1]=R.cur+1; return 1; }
    if(g[1]==R.cur+1) fatal(frames_mask(R.cur)|P(9),"deadlock","recursive initialisation of a static object; "+where());
    CNT("sched.lock_contention"); if(R.threads) { fib[R.cur].nblocked++; give_way(); } }
}
void sim_guard_release(u8* g) { if(!R.active || !sd_is_lib(g)) { abi::__cxa_guard_release((abi::__guard*)g); return; } size_t o; atom_pre(g,1,o,true); atom_store(o,3); g[1]=0; g[0]=1; }
void sim_guard_abort(u8* g) { if(!R.active || !sd_is_lib(g)) { abi::__cxa_guard_abort((abi::__guard*)g); return; } g[1]=0; }
int __cxa_atexit(void(*)(void*),void*,void*); 
int __cxa_thread_atexit(void(*)(void*),void*,void*); 
int sim_atexit(void(*f)(void*), void* a, void* d) { if(!R.active || !sd_is_lib(a)) return __cxa_atexit(f,a,d); R.atex.push_back({f,a}); return 0; }
int sim_thread_atexit(void(*f)(void*), void* a, void* d) { if(!R.active) return __cxa_thread_atexit(f,a,d); auto*& l=fib[R.cur].tlsd; if(!l) l=new Vec<std::pair<void(*)(void*),void*>>; l->push_back({f,a}); return 0; }
int sim_pthread_once(int* o, void(*f)()) { if(!R.active) return 0; int id; for(;;) { step(SYNC); id=mtx_find(o,true); if(mtxs[id].seq==2) { fib[R.cur].vc.join(mtxs[id].vc); return 0; } if(!mtxs[id].seq) break; give_way(); }
  mtxs[id].seq=1; try { f(); } catch(...) { mtxs[id].seq=0; throw; } mtxs[id].vc=fib[R.cur].vc; fib[R.cur].vc.c[R.cur]++; mtxs[id].seq=2; return 0; }
int sim_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { int ty=0; if(a) pthread_mutexattr_gettype(a,&ty); mtx_init(m, ty==PTHREAD_MUTEX_RECURSIVE); return 0; }
int sim_pthread_mutex_destroy(pthread_mutex_t* m) { mtx_destroy(m); return 0; }
int sim_pthread_mutex_lock(pthread_mutex_t* m) { pm(m); mtx_lock(m); return 0; }
int sim_pthread_mutex_trylock(pthread_mutex_t* m) { pm(m); return mtx_trylock(m)?0:EBUSY; }
int sim_pthread_mutex_unlock(pthread_mutex_t* m) { mtx_unlock(m); return 0; }
int sim_sched_yield() { give_way(); return 0; }
int sim_nanosleep(const void*, void*) { if(R.active) R.usec+=1000; give_way(); return 0; }
void* sim_memcpy(void* d, const void* s, size_t n) { acc(s,n,false); acc(d,n,true); return memcpy(d,s,n); }
void* sim_memmove(void* d, const void* s, size_t n) { acc(s,n,false); acc(d,n,true); return memmove(d,s,n); }
void* sim_memset(void* d, int c, size_t n) { acc(d,n,true); return memset(d,c,n); }

#define RW(N) void __tsan_read##N(void* p) { acc(p,N,false); } void __tsan_write##N(void* p) { acc(p,N,true); } \
  void __tsan_unaligned_read##N(void* p) { acc(p,N,false); } void __tsan_unaligned_write##N(void* p) { acc(p,N,true); } \
  void __tsan_volatile_read##N(void* p) { acc(p,N,false); } void __tsan_volatile_write##N(void* p) { acc(p,N,true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { acc(p,n,false); }
void __tsan_write_range(void* p, size_t n) { acc(p,n,true); }
void __tsan_vptr_update(void** p, void*) { acc(p,8,true); }
void __tsan_vptr_read(void** p) { acc(p,8,false); }
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_atomic_thread_fence(int mo) { if(!R.active) return; Fiber& f=fib[R.cur]; if(is_acq(mo)) f.vc.join(f.apend); if(is_rel(mo)) { f.frel=f.vc; f.vc.c[R.cur]++; } }
void __tsan_atomic_signal_fence(int) {}
#define ATOM(B,T) \
T __tsan_atomic##B##_load(const volatile T* a, int mo) { size_t o; if(atom_pre(a,sizeof(T),o,false)) atom_load(o,mo); return *a; } \
void __tsan_atomic##B##_store(volatile T* a, T v, int mo) { size_t o; if(atom_pre(a,sizeof(T),o,true)) atom_store(o,mo); *a=v; } \
T __tsan_atomic##B##_exchange(volatile T* a, T v, int mo) { size_t o; if(atom_pre(a,sizeof(T),o,true)) atom_rmw(o,mo); T r=*a; *a=v; return r; } \
T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int mo) { size_t o; if(atom_pre(a,sizeof(T),o,true)) atom_rmw(o,mo); T r=*a; *a=r+v; return r; } \
T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int mo) { size_t o; if(atom_pre(a,sizeof(T),o,true)) atom_rmw(o,mo); T r=*a; *a=r-v; return r; } \
T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int mo) { size_t o; if(atom_pre(a,sizeof(T),o,true)) atom_rmw(o,mo); T r=*a; *a=r&v; return r; } \
T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int mo) { size_t o; if(atom_pre(a,sizeof(T),o,true)) atom_rmw(o,mo); T r=*a; *a=r|v; return r; } \
T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int mo) { size_t o; if(atom_pre(a,sizeof(T),o,true)) atom_rmw(o,mo); T r=*a; *a=r^v; return r; } \
T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int mo) { size_t o; if(atom_pre(a,sizeof(T),o,true)) atom_rmw(o,mo); T r=*a; *a=~(r&v); return r; } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { size_t o; bool in=atom_pre(a,sizeof(T),o,true); \
  if(*a==*c) { if(in) atom_rmw(o,mo); *a=v; return 1; } if(in) atom_load(o,fmo); *c=*a; return 0; } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { return __tsan_atomic##B##_compare_exchange_strong(a,c,v,mo,fmo); } \
T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { __tsan_atomic##B##_compare_exchange_strong(a,&c,v,mo,fmo); return c; }
ATOM(8,u8) ATOM(16,u16) ATOM(32,u32) ATOM(64,u64)
}
// memory obtained from the arena may be released by out-of-line library code
void operator delete(void* p) noexcept { if(!p) return; if(rt::in_arena(p)) arena_free(p); else free(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
void* operator new(size_t n) { void* p=malloc(n?n:1); if(!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }

namespace boost {
  void assertion_failed(char const* e, char const* fn, char const* file, long line) {
    (void)fn; const char* b=strrchr(file,'/'); rt::fatal(0,"assertion",rt::fmt("library assertion failed: %s (%s:%ld)",e,b?b+1:file,line)); }
  void assertion_failed_msg(char const* e, char const* m, char const* fn, char const* file, long line) { (void)m; assertion_failed(e,fn,file,line); }
}
