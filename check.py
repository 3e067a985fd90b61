#!/usr/bin/env python3
"""Driver of the deterministic simulation checks.

  check.py C07                 run the check of one property (tier from VERIF_TIER)
  check.py --build             build both simulator binaries from /repo's working tree
  check.py --replay FILE       replay a violation file exactly, with a trace
  check.py --determinism       run many seeds twice and compare the event hashes

Every random choice derives from VERIF_SEED.
"""
import os, sys, subprocess, hashlib, json, time, array, re, shutil, signal, fcntl
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SIM = os.path.join(V, "sim")
BUILD = os.path.join(V, "build")
CXX = "g++"
CPUS = os.cpu_count() or 4
UFLAGS = ["-std=c++17", "-fno-pie", "-O1", "-g1", "-w", "-I" + SIM]
IFLAGS = UFLAGS + ["-fsanitize=thread", "--param=tsan-instrument-func-entry-exit=0", "-DBOOST_ENABLE_ASSERT_HANDLER",
                   "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(V, "shim")]
VARIANTS = {"cxx11": [], "preproc": ["-DBOOST_NO_CXX11_VARIADIC_TEMPLATES", "-DBOOST_DISABLE_ASSERTS"]   # the second build also compiles assertions away, as a release build does
            }
UNINSTR = [("rt", ["-O2"]), ("main", []), ("world_signal", []), ("world_mutex", []), ("world_decon", []), ("world_track", [])]
INSTR = [("adapter_m", ["-DCFG=%d" % c], "adapter_m%d" % c) for c in range(10)] + [(f, [], f) for f in ("adapter_x", "big", "common", "stdshim")]
WORLD = {"C18": "decon", "C19": "mutex", "C20": "track"}
PROPS = ["C%02d" % i for i in range(1, 21)]
# per property: seconds of search (quick, thorough) and share of the second binary
BUDGET = {p: (50, 600) for p in PROPS}
CAP = {"C19": 400000, "C18": 400000}          # runs per worker and binary in the quick tier


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)


def tree_key(variant):
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "include"), SIM, os.path.join(V, "shim")]
    for r in roots:
        for d, dn, fn in sorted(os.walk(r)):
            dn.sort()
            for f in sorted(fn):
                p = os.path.join(d, f)
                h.update(p.encode()); h.update(open(p, "rb").read())
    h.update(repr((variant, UFLAGS, IFLAGS, VARIANTS[variant])).encode())
    return h.hexdigest()[:20]


def build(variant, log):
    """Build one simulator binary from the current tree; returns its path or None."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        out = os.path.join(BUILD, "%s-%s" % (variant, tree_key(variant)))
        exe = os.path.join(out, "sim")
        if os.path.exists(exe):
            return exe
        for o in os.listdir(BUILD):
            if o.startswith(variant + "-"):
                shutil.rmtree(os.path.join(BUILD, o), ignore_errors=True)
        os.makedirs(out)
        jobs = []
        objs = []
        for name, extra, obj in sorted(INSTR, key=lambda x: x[0] != "adapter_x"):
            o = os.path.join(out, obj + ".o"); objs.append(o)
            jobs.append((o, [CXX] + IFLAGS + VARIANTS[variant] + extra + ["-c", os.path.join(SIM, name + ".cpp"), "-o", o], True))
        for name, extra in UNINSTR:
            o = os.path.join(out, name + ".o"); objs.append(o)
            jobs.append((o, [CXX] + UFLAGS + extra + ["-c", os.path.join(SIM, name + ".cpp"), "-o", o], False))
        running = []; fails = []
        def reap(block):
            for r in list(running):
                o, instr, p, ef = r
                if block: p.wait()
                if p.poll() is None: continue
                running.remove(r)
                if p.returncode: fails.append((o, open(ef, errors="replace").read()))
                elif instr:
                    q = sh(["objcopy", "--redefine-syms=" + os.path.join(SIM, "redefine.syms"), o])
                    if q.returncode: fails.append((o, q.stderr))
        for o, cmd, instr in jobs:
            while len(running) >= CPUS:
                reap(False); time.sleep(0.01)
            ef = o + ".err"
            running.append((o, instr, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(ef, "w")), ef))
        while running: reap(True)
        # an instantiation that a change no longer compiles with is left out: the others still decide
        for o, e in list(fails):
            m = re.match(r"adapter_m([1-9])\.o$", os.path.basename(o))
            if not m: continue
            cmd = [c for x, c, _ in jobs if x == o][0] + ["-DSTUB"]
            if sh(cmd).returncode == 0 and sh(["objcopy", "--redefine-syms=" + os.path.join(SIM, "redefine.syms"), o]).returncode == 0:
                fails = [f for f in fails if f[0] != o]
                log("instantiation %s does not compile with this tree and is left out: %s" % (m.group(1), next((l for l in e.splitlines() if "error" in l), "")[:200]))
        if fails:
            for o, e in fails:
                log("build of %s failed:\n%s" % (os.path.basename(o), "\n".join([l for l in e.splitlines() if "error" in l][:8]) or e[-1500:]))
            shutil.rmtree(out, ignore_errors=True)
            return None
        tmp = exe + ".tmp"
        q = sh([CXX, "-no-pie", "-o", tmp] + objs + ["-lpthread"])
        if q.returncode:
            log("link failed:\n" + q.stderr[-1500:]); shutil.rmtree(out, ignore_errors=True); return None
        for o in objs:
            os.unlink(o); os.path.exists(o + ".err") and os.unlink(o + ".err")
        os.rename(tmp, exe)
        return exe
    finally:
        lock.close()


def known_findings(prop):
    """(class, substring, line) of each listed finding; class None: recognised and counted by the simulator itself."""
    path = os.path.join(V, "KNOWN_FINDINGS"); out = []
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"known: property=(C\d+) (?:class=(\S+) match=(.*)|counter=(\S+) .*)$", l.strip())
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3), l.strip()))
    return out


class Worker:
    def __init__(self, exe, variant, world, prop, seed, count, secs, outdir, idx, keep, selfcheck=False):
        self.variant, self.seed, self.idx = variant, seed, idx
        self.out = os.path.join(outdir, "w-%s-%d%s.txt" % (variant, idx, "s" if selfcheck else ""))
        self.il = os.path.join(outdir, "il-%s-%d" % (variant, idx))
        vd = os.path.join(outdir, variant); os.makedirs(vd, exist_ok=True)
        cmd = [exe, "--world", world, "--profile", prop, "--seed", str(seed), "--count", str(count), "--secs", "%.1f" % secs, "--outdir", vd]
        cmd += ["--selfcheck", "--any"] if selfcheck else ["--ilfile", self.il]
        if keep: cmd.append("--keep-going")
        self.p = subprocess.Popen(cmd, stdout=open(self.out, "w"), stderr=subprocess.DEVNULL, start_new_session=True)

    def kill(self):
        if self.p.poll() is None:
            try: os.killpg(self.p.pid, signal.SIGKILL)
            except ProcessLookupError: pass
            self.p.wait()

    def text(self):
        return open(self.out, errors="replace").read()


def replay(exe, plan, prop, extra=()):
    q = sh([exe, "--replay", plan, "--prop", prop] + list(extra), timeout=120)
    m = re.search(r"HASH (\S+)", q.stdout)
    return q.returncode, m.group(1) if m else None, q.stdout


def confirm(exe, variant, prop, plan, log):
    """A violation counts when a fresh process reproduces it from the replay file."""
    try: runs = [replay(exe, plan, prop) for _ in range(2)]
    except subprocess.TimeoutExpired: return None
    if any(r[0] != 1 for r in runs):
        return None
    text = runs[0][2]
    vs = [re.match(r"VIOL seed=\S+ mask=(\S+) class=(\S+) at=\S+ \| (.*)", l) for l in text.splitlines()]
    vs = [m for m in vs if m and prop in m.group(1).split(",")]
    if not vs: return None
    return dict(exact=runs[0][1] == runs[1][1], hash=runs[0][1], cls=vs[0].group(2), msg=vs[0].group(3), variant=variant)


def save_replay(prop, variant, src, name):
    d = os.path.join(V, "replays"); os.makedirs(d, exist_ok=True)
    dst = os.path.join(d, name)
    with open(src) as f, open(dst, "w") as g:
        g.write("# variant %s\n" % variant); g.write(f.read())
    return dst


def run_check(prop, tier, seed):
    t0 = time.time()
    world = WORLD.get(prop, "signal")
    lines = []
    def log(s): print(s, flush=True); lines.append(s)
    exes = {}
    for v in VARIANTS:
        e = build(v, log)
        if e: exes[v] = e
    if "cxx11" not in exes:
        log("the code under test does not build in the simulator"); return 2
    tb = time.time() - t0
    secs = float(os.environ.get("VERIF_SECS") or BUDGET[prop][0 if tier == "quick" else 1])
    outdir = os.path.join(BUILD, "out-%s-%d" % (prop, os.getpid())); shutil.rmtree(outdir, ignore_errors=True); os.makedirs(outdir)
    listed = known_findings(prop); known = [k for k in listed if k[0]]
    nw = max(2, CPUS)
    npre = max(1, nw // 4) if "preproc" in exes else 0
    cap = CAP.get(prop, 10**9) if tier == "quick" else 10**9
    ws = []
    for i in range(nw):
        v = "preproc" if i < npre else "cxx11"
        ws.append(Worker(exes[v], v, world, prop, seed * 1000000007 % (1 << 40) + 1 + i * 20000000, min(cap, 19000000), secs, outdir, i, bool(known)))
    ws2 = [Worker(exes["cxx11"], "cxx11", world, prop, seed * 1000000007 % (1 << 40) + 1, 150 if tier == "quick" else 3000, secs, outdir, 99, True, selfcheck=True)]
    ts = time.time(); stop_at = None
    while any(w.p.poll() is None for w in ws + ws2):
        time.sleep(0.05)
        if stop_at is None and not known and any(w.p.poll() is not None and "\nVIOL " in "\n" + w.text() for w in ws): stop_at = time.time() + 1.0
        if stop_at and time.time() > stop_at: break
        if time.time() - ts > secs + 60: break
    wall = time.time() - ts
    for w in ws + ws2: w.kill()
    # ---- collect
    tot = dict(runs=0, steps=0, switches=0, preempts=0, events=0, viol=0, foreign=0); cnt = {}; samples = []; deaths = []; cands = []; foreign = {}
    distinct = set(); nondet = 0; sc_runs = 0
    for w in ws:
        cur = None
        for l in w.text().splitlines():
            if l.startswith("STATS "):
                for k, x in re.findall(r"(\w+)=(\d+)", l):
                    if k in tot: tot[k] += int(x)
            elif l.startswith("counter "):
                _, k, x = l.split(); cnt[k] = cnt.get(k, 0) + int(x)
            elif l.startswith("SAMPLE ") and len(samples) < 4: samples.append("[%s] %s" % (w.variant, l[7:]))
            elif l.startswith("HARNESSDEATH"): deaths.append((w.variant, l))
            elif l.startswith("FOREIGN "):
                m = re.search(r"mask=(\S+) class=(\S+)", l); foreign[m.group(1) + " " + m.group(2)] = foreign.get(m.group(1) + " " + m.group(2), 0) + 1
            elif l.startswith("REPLAY "): cands.append((w.variant, l[7:].strip()))
        if os.path.exists(w.il):
            a = array.array("Q"); n = os.path.getsize(w.il) // 8
            with open(w.il, "rb") as f: a.fromfile(f, n)
            distinct.update(a)
    for w in ws2:
        t = w.text(); nondet += t.count("NONDET "); m = re.findall(r"STATS runs=(\d+)", t); sc_runs += sum(map(int, m)) // 2
    # ---- judge
    rc = 0; viol = None; unconfirmed = 0; seen_known = set(); exact_needed = True
    uniq = {}
    for v, p in cands[:400]:
        c = confirm(exes[v], v, prop, p, log) if len(uniq) < 40 else None
        if c is None:
            unconfirmed += 1
            try: log("not reproduced from its replay file: " + save_replay(prop, v, p, "unconfirmed-%s-seed%d.plan" % (prop, seed)))
            except OSError: pass
            continue
        hit = [k for k in known if k[0] == c["cls"] and k[1] in c["msg"]]
        if hit: seen_known.update(k[2] for k in hit); continue
        viol = (v, p, c)
        if c["exact"]: break
    for _, _, l in listed: print("KNOWN-FINDING: " + l[len("known: "):])
    if viol:
        v, p, c = viol
        mp = p + ".min"
        try:
            q = sh([exes[v], "--minimize", p, "--prop", prop, "--class", c["cls"], "--out", mp, "--minsecs", "25"], timeout=120)
            cm = confirm(exes[v], v, prop, mp, log) if os.path.exists(mp) else None
        except subprocess.TimeoutExpired: cm = None
        if cm and cm["cls"] == c["cls"]: c = cm; src = mp
        else: src = p
        dst = save_replay(prop, v, src, "%s-seed%d.plan" % (prop, seed))
        log("violation of %s (%s build): [%s] %s" % (prop, v, c["cls"], c["msg"]))
        log("replays identically in a fresh process: %s (hash %s); replay with: python3 check.py --replay %s" % (c["exact"], c["hash"], dst))
        print("VIOLATION property=%s replay=%s" % (prop, dst), flush=True)
        rc = 1
    elif unconfirmed or deaths:
        log("harness trouble: %d unconfirmed candidates, deaths: %s" % (unconfirmed, deaths[:3])); rc = 2
    elif tot["runs"] == 0:
        log("no simulated run completed"); rc = 2
    # ---- evidence
    sp = os.path.join(outdir, "sample.plan")
    sh([exes["cxx11"], "--world", world, "--profile", prop, "--seed", str(ws[-1].seed), "--plan", sp])
    if os.path.exists(sp): samples.append("plan of seed %d:\n%s" % (ws[-1].seed, open(sp).read()[:1500]))
    faults = {k[6:]: x for k, x in sorted(cnt.items()) if k.startswith("fault.")}
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", wall_s=round(time.time() - t0, 2), violations=1 if rc == 1 else 0,
        assumptions=ASSUME[world],
        coverage=dict(
            evaluations=tot["runs"], distinct_nontrivial=len(distinct), rule=RULE[world], samples=samples,
            runs_per_hour=int(tot["runs"] / max(wall, 0.01) * 3600), seeds_per_hour=int(tot["runs"] / max(wall, 0.01) * 3600),
            simulated_time=dict(note="the library reads no clock; simulated time is counted in scheduling points", scheduling_points=tot["steps"], thread_switches=tot["switches"], forced_preemptions=tot["preempts"], observed_events=tot["events"]),
            faults_injected=faults, operations={k[3:]: x for k, x in sorted(cnt.items()) if k.startswith("op.")},
            probes={k: x for k, x in sorted(cnt.items()) if not k.startswith(("fault.", "op."))},
            other_property_violations_seen=foreign, determinism=dict(seeds_run_twice=sc_runs, different=nondet),
            binaries=sorted(exes), workers=nw, search_wall_s=round(wall, 2), build_wall_s=round(tb, 2),
            components=dict(real=REAL[world], stub=STUB)))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    log("%s %s: %d runs, %d distinct non-trivial, %.0f s, faults %s, exit %d" % (prop, tier, tot["runs"], len(distinct), time.time() - t0, faults, rc))
    shutil.rmtree(outdir, ignore_errors=True)
    return rc


RULE = {
 "signal": "One seed expands to a signal configuration, 1-4 threads of operations, scripts for slots/tracked objects/functors and faults, and to every scheduling decision. A run is non-trivial when at least 3 operations and 1 slot execution happened and a thread was preempted, a fault fired, or the run is single-threaded re-entrant by design; distinct = different hash of the event and interleaving history.",
 "mutex": "One seed expands to 2-5 threads of lock/try_lock/guard programs over 1-3 mutexes and to every scheduling decision; non-trivial when at least 4 switches and 1 forced preemption happened; distinct = different interleaving hash.",
 "decon": "One seed expands to creations, postconstructions, owner hand-overs and releases on 1-4 threads with constructor/postconstructor/allocation failures; non-trivial when an object was constructed and a thread was preempted, a fault fired, or the run has one thread; distinct = different history hash.",
 "track": "One seed expands to a history of object, connection and signal operations including re-entrant scripts inside slots and allocation failures; non-trivial when a bound slot ran and a tracked entity was destroyed; distinct = different history hash.",
}
ASSUME = {
 "signal": ["sequentially consistent interleavings plus a happens-before race detector stand in for the hardware memory model", "user comparators, combiners and functors satisfy the documented requirements", "schedules and faults are sampled, not enumerated"],
 "mutex": ["the POSIX mutex itself is the simulator's", "schedules are sampled, not enumerated"],
 "decon": ["predestructors and destructors do not throw", "schedules and faults are sampled, not enumerated"],
 "track": ["trackable objects are used from one thread, as documented", "histories and faults are sampled, not enumerated"],
}
REAL = {
 "signal": ["all of boost/signals2 (signal, slot, connection, scoped_connection, shared_connection_block, combiners, garbage collection, grouped list, auto_buffer)", "Boost shared_ptr/weak_ptr/variant/function/bind/optional headers", "libstdc++ containers (header part)"],
 "mutex": ["boost::signals2::mutex, dummy_mutex", "std::lock, std::lock_guard, std::unique_lock"],
 "decon": ["boost/signals2/deconstruct.hpp, deconstruct_ptr.hpp, postconstructible.hpp, predestructible.hpp", "signal with tracked slots", "Boost shared_ptr/weak_ptr/enable_shared_from_this"],
 "track": ["boost/signals2/trackable.hpp, tracked_objects_visitor.hpp, slot and signal code", "boost::bind, visit_each"],
}
STUB = ["threads: cooperative fibers scheduled by the simulator", "pthread mutexes, sched_yield, sleeps: simulated", "heap: simulated arena with failure injection, use-after-free, bounds, leak and race checking", "out-of-line libstdc++ list/tree helpers: instrumented re-implementations"]


def main():
    a = sys.argv[1:]
    if not a: print(__doc__); return 2
    seed = int(os.environ.get("VERIF_SEED", "1")); tier = os.environ.get("VERIF_TIER", "quick")
    if a[0] == "--build":
        ok = True
        for v in VARIANTS: e = build(v, print); print(v, e); ok = ok and e is not None
        return 0 if ok else 2
    if a[0] == "--replay":
        variant = "cxx11"
        for l in open(a[1]):
            m = re.match(r"# variant (\S+)", l)
            if m: variant = m.group(1)
        exe = build(variant, print)
        if not exe: return 2
        os.execv(exe, [exe, "--replay", a[1], "--trace"] + a[2:])
    if a[0] == "--determinism":
        return determinism(int(a[1]) if len(a) > 1 else 4000, seed)
    if a[0] not in PROPS: print("unknown property", a[0]); return 2
    if len(a) > 2 and a[1] == "--tier": tier = a[2]
    return run_check(a[0], tier, seed)


def determinism(count, seed):
    """Same seeds, different worker counts and start offsets, fresh processes: equal hashes."""
    bad = 0; n = 0
    for v in VARIANTS:
        exe = build(v, print)
        for prop in PROPS:
            world = WORLD.get(prop, "signal"); c = max(20, count // 20) if prop == "C17" else count
            base = [exe, "--world", world, "--profile", prop, "--any", "--keep-going", "--hashes"]
            def hashes(chunks):
                ps = []
                for k in range(chunks):
                    lo = seed + k * c // chunks; hi = seed + (k + 1) * c // chunks
                    ps.append(subprocess.Popen(base + ["--seed", str(lo), "--count", str(hi - lo)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True))
                h = {}
                for p in ps:
                    for l in p.communicate()[0].splitlines():
                        if l.startswith("SEEDHASH"): _, s, x = l.split(); h[s] = x
                return h
            hs = [hashes(k) for k in (1, 3, 8)]
            d = sum(1 for s in hs[0] if any(h.get(s) != hs[0][s] for h in hs)); bad += d; n += len(hs[0])
            print(v, prop, len(hs[0]), "seeds x3 worker counts, different:", d, flush=True)
    print("total seeds", n, "different", bad); return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
