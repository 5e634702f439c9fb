"""Shared generator: small projects analyzed with scripted rules."""
import collections, json
import simrun as S
import world as W

DEFAULT_HEAP = [0, 0, 0, 0, 0, 0, 1]


def rand_heap(rng):
    return [rng.randrange(1 << 30), rng.randrange(4), rng.randrange(4), rng.randrange(5), rng.randrange(3), 0, 1]


def rand_io(rng):
    """[longest transfer class, chance of an interrupted call]"""
    return [rng.choice([1, 2, 7]), rng.choice([0, 2, 5])] if rng.random() < 0.3 else [0, 0]


def occurrences(trace, want=None):
    """[(op, path, nth, index, ret)] of a trace, nth counted per (op, path)."""
    n = collections.Counter()
    out = []
    for i, row in enumerate(trace):
        op, path = row[0], row[1]
        n[(op, path)] += 1
        if want is None or want(op, path):
            out.append((op, path, n[(op, path)], i, row[2]))
    return out


def build_world(built, case):
    """case keys: files, rules [[plugin?, name, cat, prio, actions]], argv, and optional env, cwd, dirs, links,
    orders, modes, heap, io, clock, faults, reps (real reporter names or None), extra_plugins {path: [kind,arg]}, noplugins"""
    pl = {} if case.get("noreps") else W.reporters(built, sim=True, only=case.get("reps"))
    scripts = []
    for k, r in enumerate(case.get("rules", [])):
        p = r[0] or "%s/lib%02d.so" % (W.RULES, k)
        pl[p] = ("rule", "s")
        scripts.append((p, r[1], r[2], r[3], [tuple(a) for a in r[4]]))
    for p, ka in (case.get("plugins") or {}).items():
        pl[p] = tuple(ka)
    fs = W.fs_of(pl, case.get("files", {}), case.get("dirs", ()), case.get("links"), case.get("orders"), case.get("modes"))
    kw = {}
    for k in ("env", "cwd", "clock", "tick", "stack", "exe"):
        if k in case:
            kw[k] = case[k]
    r = S.Run(argv=list(case["argv"]), plugins=pl, scripts=scripts, heap=tuple(case.get("heap", DEFAULT_HEAP)),
              io=tuple(case.get("io", (0, 0))), faults=[dict(f) for f in case.get("faults", [])],
              jumps=[tuple(j) for j in case.get("jumps", [])], **kw)
    return r, fs


def act(match, typ, path="", sl=1, sc=1, el=1, ec=1, msg=""):
    return [match, typ, path, sl, sc, el, ec, msg]


GOOD = "int f(int a) { return a + 1; }\n"
WARN = "#warning careful\nint g(void) { return 0; }\n"
BADC = "int h( { return }\n"
CLAIMS = (0, 5, 6)


def small_project(rng, ntu=None, bad=0.15, warn=0.2):
    """files, list of units, scripted rules with known findings"""
    n = ntu or rng.choice([1, 1, 2, 3])
    files, units, kinds = {}, [], {}
    for k in range(n):
        p = "/w/u%d.c" % k
        x = rng.random()
        kinds[p] = "bad" if x < bad else "warn" if x < bad + warn else "good"
        files[p] = {"bad": BADC, "warn": WARN, "good": GOOD}[kinds[p]].replace("int ", "/* %d */ int " % k, 1)
        units.append(p)
    return files, units, kinds


def shrink_common(case):
    import engine as E
    for fl in E.drop_each(case.get("faults", []), 0):
        yield dict(case, faults=fl)
    for i, r in enumerate(case.get("rules", [])):
        for a in E.drop_each(r[4], 0):
            yield dict(case, rules=case["rules"][:i] + [r[:4] + [a]] + case["rules"][i + 1:])
    for k, v in (("io", [0, 0]), ("heap", DEFAULT_HEAP)):
        if case.get(k, v) != v:
            yield dict(case, **{k: v})


def pick_op(rng, occ):
    """One operation of a trace: the kind of operation first, so that rare kinds are met as often as common ones."""
    kinds = sorted({o[0] for o in occ})
    k = rng.choice(kinds)
    l = [o for o in occ if o[0] == k]
    if rng.random() < 0.5:
        paths = sorted({o[1] for o in l})
        p = rng.choice(paths)
        l = [o for o in l if o[1] == p]
    return rng.choice(l)


ERRS = {"open": ["EACCES", "ENOENT", "EMFILE", "ENFILE", "EIO", "ENOMEM", "ELOOP", "ESTALE"],
        "openw": ["EACCES", "ENOSPC", "EROFS", "EMFILE", "EIO", "EISDIR", "EDQUOT"],
        "read": ["EIO", "EINTR", "ESTALE", "EISDIR", "ENOMEM"],
        "write": ["ENOSPC", "EIO", "EDQUOT", "EPIPE", "EINTR", "EFBIG"],
        "readdir": ["EIO", "ESTALE", "ENOMEM"], "opendir": ["EACCES", "EMFILE", "ENOENT", "EIO"],
        "getcwd": ["ENOENT", "ERANGE", "EACCES"], "chdir": ["EACCES", "ENOENT", "EIO", "ENOTDIR"],
        "stat": ["EACCES", "ENOENT", "EIO", "ELOOP"], "fstat": ["EIO", "ESTALE"], "mmap": ["ENOMEM", "ENODEV", "EACCES"],
        "dlopen": ["EIO", "ENOENT"], "close": ["EIO"], "closew": ["EIO", "ENOSPC"]}


def fault_at(rng, o, persist=0.4):
    op, p, nth = o[0], o[1], o[2]
    kind = rng.choice(ERRS.get(op, ["EIO", "EACCES", "ENOENT", "ENOMEM"]))
    if kind != "EINTR" and rng.random() < persist:
        nth = -nth
    return dict(op=op, path=p, nth=nth, kind=kind, arg=0)
