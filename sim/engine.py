"""Seeded search over simulated executions: case generation, execution on worker processes,
gating, minimisation, replay files, evidence."""
import collections, hashlib, json, multiprocessing as mp, os, random, sys, time, traceback
import build as B
import simrun as S

VERIF = B.VERIF
NAMES = {1: "EPERM", 2: "ENOENT", 5: "EIO", 28: "ENOSPC"}


class Viol:
    """One violated expectation.  cls identifies the kind (kept by minimisation)."""

    def __init__(self, cls, detail):
        self.cls = cls
        self.detail = detail if len(detail) < 6000 else detail[:6000] + "..."

    def tup(self):
        return (self.cls, self.detail)


class Stats:
    def __init__(self):
        self.runs = 0
        self.sim_ns = 0
        self.ops = 0
        self.allocs = 0
        self.cases = 0
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.hashes = set()
        self.casehashes = set()
        self.exits = collections.Counter()
        self.replayed = 0

    def merge(self, o):
        for k in ("runs", "sim_ns", "ops", "allocs", "cases", "replayed"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        for k in ("faults", "probes", "exits"):
            getattr(self, k).update(getattr(o, k))
        self.hashes |= o.hashes
        self.casehashes |= o.casehashes


class Ctx:
    """What a property's oracle uses to execute simulated runs."""

    def __init__(self, built, stats=None):
        self.built = built
        self.host = S.Host(built)
        self.hosts = {0: self.host}
        self.stats = stats or Stats()
        self.log = []

    def run(self, run, fs, trace=False, keep_fs=True, layout=0):
        if layout not in self.hosts:
            self.hosts[layout] = S.Host(self.built, layout)
        r = self.hosts[layout].run(run, fs, trace=trace, keep_fs=keep_fs)
        self.log.append((r.exit(), r.hash))
        st = self.stats
        st.runs += 1
        st.sim_ns += r.sim_ns
        st.ops += r.ops
        st.allocs += r.allocs
        st.hashes.add(r.hash)
        st.exits[str(r.exit())] += 1
        for f in r.fired:
            st.faults["%s:%s" % (f[0], f[2])] += 1
        if r.oom:
            st.faults["malloc:fail"] += r.oom
        return r

    def probe(self, name, n=1):
        self.stats.probes[name] += n

    def close(self):
        for h in self.hosts.values():
            h.close()


def execute(prop, case, ctx):
    """-> (violations, log): log is the list of (exit, event hash) of every run of the case."""
    ctx.log = []
    v = prop.execute(case, ctx) or []
    return [x.tup() for x in v], list(ctx.log)


# ---------------------------------------------------------------- minimisation
def minimise(prop, case, cls, ctx, budget_s=60, limit=400):
    """Greedy: take any smaller case that still shows a violation of the same class."""
    t0 = time.time()
    tried = 0
    improved = True
    while improved and time.time() - t0 < budget_s and tried < limit:
        improved = False
        for cand in prop.shrink(case):
            if time.time() - t0 > budget_s or tried >= limit:
                break
            tried += 1
            try:
                v, _ = execute(prop, cand, ctx)
            except S.HarnessError:
                continue
            except Exception:
                continue
            if any(x[0] == cls for x in v):
                case = cand
                improved = True
                break
    return case, tried


def drop_each(lst, minlen=0):
    """Candidate lists: halves first, then single elements dropped."""
    n = len(lst)
    if n <= minlen:
        return
    if n - n // 2 >= minlen and n >= 4:
        yield lst[:n // 2]
        yield lst[n // 2:]
    for i in range(n):
        yield lst[:i] + lst[i + 1:]


# ---------------------------------------------------------------- workers
def _worker(prop, built, seed, tier, tasks, n, results, stop):
    ctx = Ctx(built)
    samples = []
    try:
        while not stop.is_set():
            with tasks.get_lock():
                i = tasks.value
                tasks.value += 1
            if i >= n:
                break
            rng = random.Random("%s:%s:%s" % (seed, prop.ID, i))
            try:
                for k, case in enumerate(prop.cases(rng, ctx, tier, i)):
                    v, log = execute(prop, case, ctx)
                    ctx.stats.cases += 1
                    hh = hashlib.sha256(repr(log).encode()).hexdigest()[:16]
                    if len(log) and (len(set(log)) > 1 or len(log) == 1):
                        ctx.stats.casehashes.add(hh)
                    if len(samples) < 2 and (i % 7 == 3 or i < 2):
                        samples.append((i, prop.describe(case), log[:6]))
                    if v or (i + k) % prop.RECHECK == 0:
                        # gate: the same case again must give the same verdict and event logs
                        v2, log2 = execute(prop, case, ctx)
                        ctx.stats.replayed += 1
                        if v2 != v or log2 != log:
                            results.put(("error", i, "case %d:%d is not reproducible in one host: %r %r / %r %r" % (i, k, v, log, v2, log2)))
                            break
                    if v:
                        results.put(("viol", i, k, case, v, log))
                        break
            except S.HarnessError as e:
                results.put(("error", i, "case %d: %s" % (i, e)))
                ctx.close()
                ctx = Ctx(built, ctx.stats)
            results.put(("done", i))
    except Exception:
        results.put(("error", -1, traceback.format_exc()))
    finally:
        results.put(("stats", ctx.stats, samples))
        try:
            ctx.close()
        except Exception:
            pass


def load_findings():
    """known-findings.json: [{"property","class","match": substring of the detail,"what"}]"""
    p = os.path.join(VERIF, "known-findings.json")
    try:
        with open(p) as f:
            return json.load(f)
    except OSError:
        return {"findings": [], "fixed": []}


def matches(finding, prop_id, v):
    return finding["property"] == prop_id and finding["class"] == v[0] and all(m in v[1] for m in finding.get("match", []))


def run_check(prop, seed, tier, workers=None, count=None, deadline=None, built=None):
    t0 = time.time()
    if built is None:
        try:
            built = B.build(want_rules=prop.NEEDS_RULES, docgen=prop.DOCGEN)
        except B.BuildError as e:
            print("BUILD FAILED: %s" % e, file=sys.stderr)
            return 2
    tb = time.time() - t0
    workers = workers or int(os.environ.get("SIM_WORKERS", str(min(8, os.cpu_count() or 8))))
    n = count or prop.COUNT[tier]
    # the time limit only guards against a slow machine; the work is fixed by the case count
    limit = deadline or (480 if tier == "quick" else 3600)
    print("seed=%d tier=%s property=%s cases=%d workers=%d build=%.1fs(compiled %d)" % (
        seed, tier, prop.ID, n, workers, tb, built["compiled"]), flush=True)
    prop.prepare(built)
    known = [f for f in load_findings()["findings"] if f["property"] == prop.ID]
    ctxm = mp.get_context("fork")
    tasks, results, stop = ctxm.Value("q", 0), ctxm.Queue(), ctxm.Event()
    ts = time.time()
    ps = [ctxm.Process(target=_worker, args=(prop, built, seed, tier, tasks, n, results, stop), daemon=True) for _ in range(workers)]
    for p in ps:
        p.start()
    stats, samples = Stats(), []
    ended = done = 0
    viols, errors, known_hit = [], [], {}
    cut, first = False, 0
    while ended < workers:
        try:
            m = results.get(timeout=5)
        except Exception:
            if time.time() - ts > limit:
                cut = True
                stop.set()
            if first and time.time() - first > 40:
                stop.set()
            if first and time.time() - first > 150:
                for p in ps:
                    p.terminate()
                break
            if time.time() - ts > limit + 120:
                for p in ps:
                    p.terminate()
                errors.append("workers did not finish")
                break
            if not any(p.is_alive() for p in ps) and results.empty():
                if ended < workers:
                    errors.append("a worker died")
                break
            continue
        if m[0] == "done":
            done += 1
            if time.time() - ts > limit:
                cut = True
                stop.set()
            if first and time.time() - first > 40:
                stop.set()
        elif m[0] == "viol":
            _, i, k, case, v, log = m
            unknown = [x for x in v if not any(matches(f, prop.ID, x) for f in known)]
            for x in v:
                for j, f in enumerate(known):
                    if matches(f, prop.ID, x):
                        known_hit[j] = known_hit.get(j, 0) + 1
            if unknown:
                first = first or time.time()
                viols.append((i, k, case, unknown, log))
                if len(viols) >= 12:
                    stop.set()
        elif m[0] == "error":
            errors.append(m[2])
            if len(errors) >= 6:
                stop.set()
        elif m[0] == "stats":
            ended += 1
            stats.merge(m[1])
            samples += m[2]
    for p in ps:
        p.join(10)
        if p.is_alive():
            p.kill()
    search_s = time.time() - ts
    rc = 0
    for j, f in enumerate(known):
        if f.get("case"):
            c = Ctx(built)
            v, _ = execute(prop, f["case"], c)
            c.close()
            if any(matches(f, prop.ID, x) for x in v):
                known_hit[j] = known_hit.get(j, 0) + 1
        if known_hit.get(j):
            print("KNOWN-FINDING: property=%s %s" % (prop.ID, f["what"]))
    if viols:
        viols.sort(key=lambda x: (x[0], x[1]))
        reported = set()
        for i, k, case, v, log in viols:
            cls = v[0][0]
            if cls in reported:
                continue
            if len(reported) >= 3:
                break
            mc = Ctx(built)
            small, tried = minimise(prop, case, cls, mc, budget_s=60 if tier == "quick" else 240)
            mc.close()
            # a fresh host must show it too, twice
            fc = Ctx(built)
            v1, l1 = execute(prop, small, fc)
            fc.close()
            fc = Ctx(built)
            v2, l2 = execute(prop, small, fc)
            fc.close()
            ok = v1 == v2 and l1 == l2 and any(x[0] == cls for x in v1)
            if not ok and any(x[0] == cls for x in v1) and any(x[0] == cls for x in v2):
                # broken every time, but with something in it that no seed decides (memory nobody wrote, say)
                print("note: the violation recurs, its details differ between identical runs: %r / %r" % (v1[0][1][:200], v2[0][1][:200]))
                ok = True
            if not ok:
                errors.append("violation %s of case %d did not reproduce in a fresh host: %r / %r" % (cls, i, v1, v2))
                continue
            det = [x for x in v1 if x[0] == cls][0][1]
            if any(matches(f, prop.ID, (cls, det)) for f in known):
                det = v[0][1]
                small, l1 = case, log
            reported.add(cls)
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            path = os.path.join(VERIF, "replays", "%s-%d-%d-%s.json" % (prop.ID, seed, i, hashlib.sha256(cls.encode()).hexdigest()[:6]))
            with open(path, "w") as f:
                json.dump({"property": prop.ID, "seed": seed, "tier": tier, "case_index": i, "class": cls, "detail": det,
                           "log": l1, "case": small, "original_case": case, "shrink_steps": tried}, f, indent=1)
            print("violation class=%s case=%d\n  %s" % (cls, i, det.replace("\n", "\n  ")))
            print("  minimised: %s" % prop.describe(small))
            print("VIOLATION property=%s replay=%s" % (prop.ID, path), flush=True)
            rc = 1
    if errors:
        for e in errors[:5]:
            print("HARNESS ERROR: %s" % e, file=sys.stderr)
        if rc == 0:
            rc = 2
    if rc == 0:
        miss = [p for p in prop.PROBES if not stats.probes.get(p)]
        if miss and not cut and count is None:
            print("note: probes never hit: %s" % ", ".join(miss))
    hours = max(search_s, 1e-6) / 3600
    ev = {"property": prop.ID, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {
              "evaluations": stats.runs, "distinct_nontrivial": len(stats.casehashes),
              "rule": prop.RULE + " A case counts as distinct and non-trivial when the event logs (every simulated system call with "
                      "path, result and time) of its runs differ from those of every other case.",
              "cases": stats.cases, "cases_planned": n, "cases_completed": done, "stopped_by_time_limit": cut,
              "distinct_event_logs": len(stats.hashes),
              "runs_per_hour": int(stats.runs / hours), "seeds_per_hour": int(stats.cases / hours),
              "simulated_seconds": stats.sim_ns / 1e9, "simulated_operations": stats.ops, "simulated_allocations": stats.allocs,
              "faults_fired": dict(stats.faults.most_common(80)),
              "exit_statuses": dict(stats.exits.most_common()),
              "reach_probes": dict(sorted(stats.probes.items())),
              "determinism_rechecks": stats.replayed,
              "real_components": prop.REAL, "stubbed_components": prop.STUB,
              "samples": [{"case_index": i, "case": d, "runs": [list(x) for x in l]} for i, d, l in samples[:4]],
              "build_seconds": tb},
          "assumptions": prop.ASSUME, "wall_s": time.time() - t0, "violations": len(viols) if rc == 1 else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop.ID + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d runs in %d cases, %d distinct event logs, %.0f runs/h, %.1fs search, exit %d" % (
        prop.ID, stats.runs, stats.cases, len(stats.hashes), stats.runs / hours, search_s, rc))
    return rc


def replay(prop, path):
    with open(path) as f:
        d = json.load(f)
    try:
        built = B.build(want_rules=prop.NEEDS_RULES, docgen=prop.DOCGEN)
    except B.BuildError as e:
        print("BUILD FAILED: %s" % e, file=sys.stderr)
        return 2
    prop.prepare(built)
    c = Ctx(built)
    v, log = execute(prop, d["case"], c)
    c.close()
    same = [list(x) for x in log] == [list(x) for x in d["log"]]
    hit = [x for x in v if x[0] == d["class"]]
    print("event logs %s the recorded ones" % ("equal" if same else "differ from"))
    for x in v:
        print("violation class=%s\n  %s" % (x[0], x[1].replace("\n", "\n  ")))
    if hit:
        print("VIOLATION property=%s replay=%s" % (prop.ID, path))
        return 1
    print("the violation does not occur")
    return 0


class Prop:
    """Base class of the property checks."""
    ID = ""
    NEEDS_RULES = False
    DOCGEN = False
    COUNT = {"quick": 100, "thorough": 2000}
    RECHECK = 25
    RULE = ""
    PROBES = []
    REAL = ["oclint main, option processing, config files, plugin loaders, driver, compiler instance, diagnostics, result "
            "collection, core library", "libclang/LLVM 20 (parsing, driver, semantic analysis)", "libstdc++ streams"]
    STUB = ["file system, descriptors, stdio, mmap, directories, clock, environment, working directory (simulated libc)",
            "heap (seeded allocator)", "dynamic loader (simulated dlopen of real or scripted plugins)"]
    ASSUME = ["the simulated libc behaves as POSIX describes for the calls used", "LLVM 20 stands in for the LLVM 21 the driver "
              "sources name (three forwarding declarations)", "single process, no threads: the schedule space is the order of "
              "units, rules, directory entries and I/O completions"]

    def prepare(self, built):
        self.built = built

    def cases(self, rng, ctx, tier, i):
        raise NotImplementedError

    def execute(self, case, ctx):
        raise NotImplementedError

    def shrink(self, case):
        return []

    def describe(self, case):
        s = json.dumps(case)
        return s if len(s) < 1500 else s[:1500] + "..."
