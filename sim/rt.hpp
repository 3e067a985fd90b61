// Deterministic simulation runtime: cooperative fibers on one OS thread stand in
// for threads; every memory access, atomic, mutex operation and allocation made by
// the code under test (compiled with -fsanitize=thread and linked against THIS
// runtime instead of libtsan) is a scheduling point decided from one seed.
#ifndef VERIF_RT_HPP
#define VERIF_RT_HPP
#include <cstdint>
#include <cstddef>
#include <cstdlib>
#include <cstdio>
#include <cstring>
#include <new>
#include <vector>
#include <string>
#include <map>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;

namespace rt {

void* raw_alloc(size_t n); void raw_free(void* p);   // memory of the harness
// allocator that never touches the simulated arena; also keeps the container
// instantiations of the harness distinct from those of the code under test
template<class T> struct MA {
  typedef T value_type;
  MA() {} template<class U> MA(const MA<U>&) {}
  T* allocate(size_t n) { void* p = rt::raw_alloc(n*sizeof(T)+1); if(!p) abort(); return (T*)p; }
  void deallocate(T* p, size_t) { rt::raw_free(p); }
  template<class U> bool operator==(const MA<U>&) const { return true; }
  template<class U> bool operator!=(const MA<U>&) const { return false; }
};
template<class T> using Vec = std::vector<T, MA<T>>;
typedef std::basic_string<char, std::char_traits<char>, MA<char>> Str;
template<class K, class V> using Map = std::map<K, V, std::less<K>, MA<std::pair<const K, V>>>;
Str fmt(const char* f, ...) __attribute__((format(printf,1,2)));

struct Rng {
  u64 s;
  explicit Rng(u64 x = 1) : s(x) {}
  u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z>>30))*0xBF58476D1CE4E5B9ull; z = (z ^ (z>>27))*0x94D049BB133111EBull; return z ^ (z>>31); }
  u32 below(u32 n) { return n ? (u32)((next()>>32) * (u64)n >> 32) : 0; }
  int range(int a, int b) { return a + (int)below((u32)(b-a+1)); }
  bool chance(int num, int den) { return (int)below(den) < num; }
};

const int MAXT = 6;            // tid 0 runs setup/settle; 1..5 are the simulated threads
const int MAXFRAME = 160;

enum StepKind { PLAIN = 0, SYNC = 1, USER = 2 };
enum FaultKind { F_NONE = 0, F_ALLOC_NTH, F_ALLOC_FROM, F_COPY_NTH, F_CMP_NTH, F_ASSIGN_NTH, F_KINDS };
extern const char* fault_names[F_KINDS];

// ---- plan: what one seed expands to, and what a replay file contains -----------
struct Item {
  char type;                   // world-defined ('o' = operation, ...)
  int id, ctx, kind;
  int a[8];
  int fk, fn;                  // injected fault: kind and ordinal inside the operation
};
struct Dec { int tid, op; u32 occ, step; int target; };   // one scheduling decision
struct Plan {
  Str world, profile;
  u64 seed = 0;
  Map<Str,int> cfg;
  Vec<Item> items;
  bool has_sched = false;      // true: follow decs; false: draw from the seed
  Vec<Dec> decs;
  int get(const char* k, int d = 0) const { auto i = cfg.find(Str(k)); return i == cfg.end() ? d : i->second; }
  void set(const char* k, int v) { cfg[Str(k)] = v; }
};
void write_plan(FILE* f, const Plan& p);
bool read_plan(FILE* f, Plan& p);

// ---- properties -------------------------------------------------------------
typedef u32 Mask;
inline Mask P(int n) { return 1u << n; }        // P(1) = C01
struct Violation { Mask mask; Str cls, msg; u64 at; };

struct Frame {
  int op, kind; u32 occ, steps; int fk, fn; int count; int fired; Mask mask; int in_user;
};

struct Result {
  u64 hash = 0, ilhash = 0, steps = 0, clock = 0, switches = 0, preempts = 0;
  bool fatal = false;
  Vec<Violation> v;
  Vec<Dec> decs;
  Mask mask() const { Mask m = 0; for(auto& x : v) m |= x.mask; return m; }
};

// run one plan through body() on fiber 0
void run(const Plan& plan, void (*body)(const Plan&), Result& out);

// ---- services for the worlds (callable inside a run) -------------------------
u64 now();                                     // next global event stamp
u64 clock_peek();
int tid();
void threads(int n, void (*fn)(int tid));      // run n simulated threads to completion
bool in_threads();
void point(StepKind k = USER);                 // explicit scheduling point
void mix(u64 x);                               // mix into the run hash
void report(Mask m, const char* cls, const Str& msg);            // soft: run goes on
[[noreturn]] void fatal(Mask m, const char* cls, const Str& msg);// stops the run
int held();                                    // locks held by the current fiber
u64 times_blocked();                            // how often this fiber had to wait for a lock
void in_lock_op(bool);                          // the current fiber is inside an operation of a lock
u64 own_steps();                                // scheduling points passed by this fiber
int nopreempt_depth();
struct NoPreempt { NoPreempt(); ~NoPreempt(); };
struct Harness { Harness(); ~Harness(); };     // allocations inside are never failed
void push_frame(int op, int kind, int fk, int fn, Mask m);
void pop_frame();
Frame* top();
int depth();
Frame* frame_at(int t, int i);
int depth_of(int t);
bool fault_hit(FaultKind k);                   // consume one opportunity of fault kind k
// happens-before edges for hand-overs made by the harness itself
struct HB { u32 c[MAXT]; };
void hb_release(HB&); void hb_acquire(const HB&); void hb_clear(HB&);
// memory
size_t leaked_blocks(); size_t live_blocks(); size_t live_bytes(); size_t peak_blocks();
bool in_arena(const void*);
bool is_live(const void*);
Str describe_leaks(int max);
void set_step_limit(u64);
// counters, reported as evidence
int counter_ix(const char* name); extern u64 counters[256];
#define CNT(name) do { static int ix_ = rt::counter_ix(name); rt::counters[ix_]++; } while(0)
void dump_counters(FILE*);
extern bool trace_on; void trace(const char* f, ...) __attribute__((format(printf,1,2)));
// simulated mutex entry points (also used by pthread redirection)
void mtx_init(void* m, bool recursive); void mtx_destroy(void* m);
void mtx_lock(void* m); bool mtx_trylock(void* m); void mtx_unlock(void* m);
bool mtx_is_locked(void* m);
}
#endif
