// Command line of the simulator: seed search, replay, minimisation, self check.
#include "world.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <csignal>
#include <ctime>
#include <unistd.h>
#include <unordered_set>
using namespace rt;

static World* worlds[] = {&signal_world, &mutex_world, &decon_world, &track_world, 0};
static World* find_world(const char* n) { for(World** w = worlds; *w; ++w) if(!strcmp((*w)->name, n)) return *w; fprintf(stderr, "no world %s\n", n); _exit(3); }
static double nowd() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static int propbit(const char* p) { return p[0] == 'C' ? atoi(p + 1) : 0; }
static Plan make_plan(World* w, const char* profile, u64 seed) { Plan p; p.world = w->name; p.profile = profile; p.seed = seed; w->generate(p); return p; }
static Str mask_str(Mask m) { Str s; for(int i = 1; i < 31; i++) if(m & P(i)) { if(s.size()) s += ","; s += fmt("C%02d", i); } return s.size() ? s : Str("-"); }
static void print_violations(const Result& r, const char* tag, u64 seed) { for(auto& v : r.v) printf("%s seed=%llu mask=%s class=%s at=%llu | %s\n", tag, (unsigned long long)seed, mask_str(v.mask).c_str(), v.cls.c_str(), (unsigned long long)v.at, v.msg.c_str()); }
static void save(const Plan& p, const Result& r, const Str& path, const char* prop) {
  Plan q = p; q.has_sched = true; q.decs = r.decs;
  FILE* f = fopen(path.c_str(), "w"); if(!f) { perror(path.c_str()); _exit(3); }
  for(auto& v : r.v) fprintf(f, "# %s %s: %s\n", mask_str(v.mask).c_str(), v.cls.c_str(), v.msg.c_str());
  fprintf(f, "# property %s hash %016llx\n", prop, (unsigned long long)r.hash);
  write_plan(f, q); fclose(f);
}
struct Shared { volatile u64 next, cur, beat; volatile int stop; };
static Shared* sh;

// ---- minimisation: every candidate runs in a forked child -----------------------
static int run_child(World* w, const Plan& p, int bit, const Str& cls) {
  fflush(stdout); pid_t c = fork();
  if(!c) { Result r; alarm(20); run(p, w->body, r); for(auto& v : r.v) if((v.mask & P(bit)) && v.cls == cls) _exit(1); _exit(0); }
  int st; waitpid(c, &st, 0); return WIFEXITED(st) ? WEXITSTATUS(st) : 9;
}
static void minimize(World* w, Plan& p, int bit, const Str& cls, double secs) {
  double t0 = nowd(); int tries = 0;
  auto ok = [&](const Plan& q) { if(nowd() - t0 > secs) return false; tries++; return run_child(w, q, bit, cls) == 1; };
  bool progress = true;
  while(progress && nowd() - t0 < secs) {
    progress = false;
    for(size_t chunk = p.items.size() / 2; chunk >= 1; chunk /= 2)
      for(size_t i = p.items.size(); i > 0; ) { size_t lo = i > chunk ? i - chunk : 0; Plan q = p; q.items.erase(q.items.begin() + lo, q.items.begin() + i); if(q.items.size() && ok(q)) { p = q; progress = true; } i = lo; }
    for(size_t chunk = p.decs.size(); chunk >= 1; chunk /= 2)
      for(size_t i = p.decs.size(); i > 0; ) { size_t lo = i > chunk ? i - chunk : 0; Plan q = p; q.decs.erase(q.decs.begin() + lo, q.decs.begin() + i); if(ok(q)) { p = q; progress = true; } i = lo; }
    for(size_t i = 0; i < p.items.size(); i++) if(p.items[i].fk) { Plan q = p; q.items[i].fk = q.items[i].fn = 0; if(ok(q)) { p = q; progress = true; } }
    if(p.get("threads", 1) > 1) { Plan q = p; q.set("threads", p.get("threads") - 1); if(ok(q)) { p = q; progress = true; } }
  }
  fprintf(stderr, "minimised with %d candidate runs in %.1fs\n", tries, nowd() - t0);
}

int main(int argc, char** argv) {
  const char* wn = "signal"; const char* prof = "C01"; u64 seed = 1, count = 100; double secs = 1e9; const char* replay = 0; const char* out = 0; const char* outdir = 0; const char* dumpplan = 0;
  const char* ilfile = 0; bool min = false, hashes = false, selfcheck = false, keep = false, noviol = false, ilout = false; int bit = 0; double minsecs = 20; const char* wantcls = 0;
  for(int i = 1; i < argc; i++) {
    Str a = argv[i]; auto nx = [&]() { return argv[++i]; };
    if(a == "--world") wn = nx(); else if(a == "--profile") prof = nx(); else if(a == "--seed") seed = strtoull(nx(), 0, 10); else if(a == "--count") count = strtoull(nx(), 0, 10);
    else if(a == "--secs") secs = atof(nx()); else if(a == "--replay") replay = nx(); else if(a == "--out") out = nx(); else if(a == "--outdir") outdir = nx();
    else if(a == "--minimize") { min = true; replay = nx(); } else if(a == "--minsecs") minsecs = atof(nx()); else if(a == "--trace") trace_on = true; else if(a == "--hashes") hashes = true;
    else if(a == "--selfcheck") selfcheck = true; else if(a == "--keep-going") keep = true; else if(a == "--prop") bit = propbit(nx()); else if(a == "--class") wantcls = nx(); else if(a == "--any") noviol = true; else if(a == "--plan") dumpplan = nx(); else if(a == "--il") ilout = true; else if(a == "--ilfile") ilfile = nx();
    else { fprintf(stderr, "unknown option %s\n", argv[i]); return 3; }
  }
  setvbuf(stdout, 0, _IOFBF, 1 << 16);
  if(replay) {
    FILE* f = fopen(replay, "r"); if(!f) { perror(replay); return 3; } Plan p; bool ok = read_plan(f, p); fclose(f); if(!ok) { fprintf(stderr, "bad replay file\n"); return 3; }
    World* w = find_world(p.world.c_str()); if(!bit) bit = propbit(p.profile.c_str());
    if(min) {
      Str cls; if(wantcls) cls = wantcls; else { int fd[2]; if(pipe(fd)) return 3; pid_t c = fork(); if(!c) { Result r; run(p, w->body, r); for(auto& v : r.v) if(v.mask & P(bit)) { if(write(fd[1], v.cls.c_str(), v.cls.size()) < 0) {} break; } _exit(0); } int st; waitpid(c, &st, 0); close(fd[1]); char b[200]; ssize_t n = read(fd[0], b, 199); b[n > 0 ? n : 0] = 0; cls = b; }
      if(cls.empty()) { fprintf(stderr, "replay shows no violation of C%02d\n", bit); return 2; }
      minimize(w, p, bit, cls, minsecs);
    }
    Result& r = *new Result; if(trace_on) printf("trace of %s\n", replay);
    run(p, w->body, r);
    print_violations(r, "VIOL", p.seed);
    printf("HASH %016llx steps %llu switches %llu\n", (unsigned long long)r.hash, (unsigned long long)r.steps, (unsigned long long)r.switches);
    if(out) { char b[8]; snprintf(b, sizeof b, "C%02d", bit); 
      // canonical form: the decisions as recorded, then verified
      Plan q = p; q.has_sched = true; q.decs = r.decs; save(q, r, out, b); }
    fflush(stdout);      // no static destructors: the state of a run that was stopped is not consistent
    _exit(r.v.empty() ? 0 : (r.mask() & P(bit)) ? 1 : 4);
  }
  World* w = find_world(wn); if(!bit) bit = propbit(prof);
  if(dumpplan) { Plan p = make_plan(w, prof, seed); FILE* f = fopen(dumpplan, "w"); write_plan(f, p); fclose(f); return 0; }
  // supervised seed loop: a child runs seeds until it must stop; the parent restarts it
  sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sh->next = seed; sh->cur = seed; double t0 = nowd(); u64 end = seed + count; int restarts = 0;
  while(sh->next < end && nowd() - t0 < secs && !sh->stop) {
    fflush(stdout); pid_t c = fork();
    if(!c) {
      std::unordered_set<u64> il; u64 runs = 0, nontriv = 0, steps = 0, switches = 0, preempts = 0, viol = 0, foreign = 0, clk = 0; u64 sampled = 0;
      bool quit = false;
      while(!quit && sh->next < end && (nowd() - t0 < secs)) {
        u64 s = sh->next; sh->cur = s; sh->beat++; sh->next = s + 1;
        Plan p = make_plan(w, prof, s); Result r;
        run(p, w->body, r); runs++;
        steps += r.steps; switches += r.switches; preempts += r.preempts; clk += r.clock;
        bool nt = false; if(!r.fatal) w->nontrivial(p, r, &nt); else nt = true;
        if(nt) { if(il.insert(r.ilhash ^ (r.hash * 31)).second) nontriv++; }
        if(ilout && nt) printf("IL %016llx\n", (unsigned long long)(r.ilhash ^ (r.hash * 31)));
        if(hashes) printf("SEEDHASH %llu %016llx\n", (unsigned long long)s, (unsigned long long)r.hash);
        if(nt && sampled < 1 && restarts == 0) { sampled++; printf("SAMPLE seed=%llu items=%zu threads=%d cfg=%d steps=%llu switches=%llu forced_preemptions=%llu events=%llu hash=%016llx\n", (unsigned long long)s, p.items.size(), p.get("threads"), p.get("cfg"), (unsigned long long)r.steps, (unsigned long long)r.switches, (unsigned long long)r.preempts, (unsigned long long)r.clock, (unsigned long long)r.hash); }
        if(selfcheck && !r.fatal) { Plan q = p; q.has_sched = true; q.decs = r.decs; Result r2; run(q, w->body, r2); if(r2.hash != r.hash) { printf("NONDET seed=%llu %016llx %016llx\n", (unsigned long long)s, (unsigned long long)r.hash, (unsigned long long)r2.hash); } runs++; if(r2.fatal) quit = true; }
        if(!r.v.empty()) {
          bool mine = noviol || (r.mask() & P(bit));
          if(mine) { viol++; print_violations(r, "VIOL", s); if(outdir) { Str path = Str(outdir) + fmt("/viol-%s-%llu.plan", prof, (unsigned long long)s); save(p, r, path, prof); printf("REPLAY %s\n", path.c_str()); } if(!keep) { quit = true; sh->stop = 1; } }
          else { foreign++; print_violations(r, "FOREIGN", s); }
          if(r.fatal) quit = true;
        }
        if(r.fatal) quit = true;
      }
      printf("STATS runs=%llu distinct=%llu steps=%llu switches=%llu preempts=%llu events=%llu viol=%llu foreign=%llu\n", (unsigned long long)runs, (unsigned long long)nontriv, (unsigned long long)steps, (unsigned long long)switches, (unsigned long long)preempts, (unsigned long long)clk, (unsigned long long)viol, (unsigned long long)foreign);
      dump_counters(stdout); if(ilfile) { FILE* f = fopen(ilfile, "ab"); if(f) { for(u64 x : il) fwrite(&x, 8, 1, f); fclose(f); } }
      fflush(stdout); _exit(0);
    }
    // watchdog: a run that makes no simulated step cannot be ended from inside
    int st; u64 lastbeat = ~0ull; double lastt = nowd(); bool alrm = false;
    for(;;) { pid_t d = waitpid(c, &st, WNOHANG); if(d == c) break; usleep(2000); if(sh->beat != lastbeat) { lastbeat = sh->beat; lastt = nowd(); alrm = false; } else if(nowd() - lastt > 20 && !alrm) { kill(c, SIGALRM); alrm = true; } else if(nowd() - lastt > 30) kill(c, SIGKILL); }
    restarts++;
    if(!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { printf("HARNESSDEATH seed=%llu status=%d\n", (unsigned long long)sh->cur, st); if(restarts > 50) break; }
  }
  printf("DONE next=%llu secs=%.3f restarts=%d\n", (unsigned long long)sh->next, nowd() - t0, restarts);
  return 0;
}
