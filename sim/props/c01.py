"""C01: a file's findings do not depend on what else the run analyzes."""
import json
import code as K
import engine as E
import scen
import simrun as S
import world as W

SYS = {"c": "cc", "cpp": "c++", "m": "cc", "mm": "c++", "cu": "c++"}


def same_suite(rng):
    """several texts made for the same rule: they meet whatever that rule remembers"""
    x = K.pick(rng)
    l = [y for y in K.corpus() if y[0] == x[0]]
    out = []
    for _ in range(rng.choice([2, 2, 3, 4])):
        n, lang, fl, code = rng.choice(l)
        out.append((lang, list(K.FLAGS[lang]) + list(fl), K.mutate(rng, code) if rng.random() < 0.3 else code))
    return out


def make_units(rng, n=None):
    """[(ext, flags, text)]"""
    x = rng.random()
    if x < 0.18:
        return K.twins(rng, rng.choice([4, 6]))
    if x < 0.45:
        out = same_suite(rng)
    else:
        out = [K.unit(rng) for _ in range(n or rng.choice([2, 2, 3, 4]))]
    if rng.random() < 0.3:  # close relatives: the same text again, changed a little
        l, f, t = rng.choice(out)
        out.append((l, f, K.mutate(rng, t)))
    if rng.random() < 0.25:
        l, f, t = rng.choice(out)
        out.append((l, f, t))
    if rng.random() < 0.25:
        out.insert(rng.randrange(len(out) + 1), ("c", [], rng.choice(["int broken( {\n", "#error stop\nint x;\n", "int f(void) { return undeclared_thing; }\n", '#include "not/there.h"\nint y;\n'])))
    return out[:6]


class P(E.Prop):
    ID = "C01"
    NEEDS_RULES = True
    COUNT = {"quick": 2500, "thorough": 20000}
    RULE = ("Seeded cases: 2-6 units (texts made for one rule, texts of many rules, units of equal shape, joined texts, generated programs in C, C++, ObjC and ObjC++, mutated relatives, "
            "identical texts under other names, units that do not compile), in several directories, with equal relative names, with different headers of one name and "
            "with several commands for one file; all rules or a seeded subset, seeded thresholds.  Each command is analyzed alone, then batches in seeded orders, with "
            "and without global analysis, duplicates and the static analyzer, each run with its own memory layout, split and interrupted transfers, and sometimes one input that cannot be read; a batch must report the sum of its parts.")
    PROBES = ["error_unit", "global", "nodup", "same_name", "same_file", "header", "analyzer", "repeat", "all_rules", "reversed", "v_many", "reuse", "io", "fault_batch", "twins", "low_reuse"]
    STUB = ["file system, descriptors, stdio, mmap, directories, clock, environment, working directory (simulated libc)", "heap (seeded allocator)",
            "reporter (scripted, records the results)"]
    REAL = E.Prop.REAL + ["all rule libraries, metrics, rule helpers"]

    def cases(self, rng, ctx, tier, i):
        units, files = [], {}
        dirs = rng.choice([["/w/a"], ["/w/a", "/w/b"], ["/w/a", "/w/b", "/w/a/c"]])
        conf, same = rng.random() < 0.3, rng.random() < 0.4
        if conf:
            for d in dirs:
                if rng.random() < 0.8:
                    files[d + "/conf.h"] = "#define LIMIT %s\n#define OR %s\n%s" % (rng.choice(["0", "1", "ext(2)", "7"]), rng.choice(["||", "&&"]), rng.choice(["", "\n\n", "#define DEEP 1\n"]))
        mk = make_units(rng)
        twins = "void last(int par)" in mk[0][2]
        conf = conf and not twins
        for k, (ext, fl, text) in enumerate(mk):
            d = rng.choice(dirs)
            stem = "u" if same else "u%d" % k
            p = "%s/%s.%s" % (d, stem, ext)
            if rng.random() < (0.05 if twins else 0.25):
                text = K.decorate(rng, ext, text)
            if conf and rng.random() < 0.6:
                pre = '#include "conf.h"\n' if rng.random() < 0.5 else '#include "conf.h"\n#if LIMIT\nint unused_function(int z) { if (z OR LIMIT) { } return 0; }\n#endif\n'
                text = pre + text
                if "int ext(int)" not in text and ext == "c":
                    text = "int ext(int);\n" + text
            if p in files:
                text = files[p]
            files[p] = text
            fl = list(fl) + [] if twins else list(fl) + rng.choice([[], [], ["-DEXTRA=%d" % k], ["-O2"], ["-Wall"]])
            if ext == "c" and not twins and rng.random() < 0.15:
                fl += [rng.choice(["-std=c89", "-std=gnu11", "-std=c17"])]
            units.append(dict(path=p, dir=d, name=rng.choice([p, "./" + p.rsplit("/", 1)[1]] + [p.rsplit("/", 1)[1]] * (6 if same else 1)), flags=fl, ext=ext))
        n = len(units)
        batches = []
        for _ in range(rng.choice([3, 4, 5] if twins else [1, 2, 3])):
            order = list(range(n))
            rng.shuffle(order)
            if rng.random() < 0.2 and n > 2 and not twins:
                order = order[:rng.choice([2, n - 1])]
            if rng.random() < 0.2 and not twins:
                order.insert(rng.randrange(n), rng.choice(order))
            batches.append(dict(order=order, glob=rng.random() < 0.35, dup=rng.random() < 0.75, heap=scen.rand_heap(rng), io=scen.rand_io(rng)))
        rules = None if rng.random() < 0.5 else sorted(rng.sample(sorted(self.built["rules"]), rng.choice([3, 10, 30])))
        flt = []
        if twins:
            rules = rules if rng.random() < 0.3 else None
            for b in batches:
                if rng.random() < 0.6:
                    b["heap"][3] = 4
        if rng.random() < 0.25:  # one input cannot be read, in every run
            op = rng.choice(["open", "open", "read", "stat", "mmap"])
            flt = [dict(op=op, path=rng.choice(sorted(files)), nth=-1, kind=rng.choice([e for e in scen.ERRS[op] if e != "EINTR"]), arg=0)]
        yield dict(files=files, units=units, batches=batches, rules=rules, rc=K.thresholds(rng, 1 if twins else None), ana=rng.random() < 0.1, heap=scen.rand_heap(rng), faults=flt)

    def go(self, c, ctx, order, glob, dup, heap, io=(0, 0)):
        """commands are recorded in the order given; sources requested in order of first appearance"""
        req = []
        for j in order:
            if c["units"][j]["path"] not in req:
                req.append(c["units"][j]["path"])
        db = []
        for j in order:
            u = c["units"][j]
            db.append({"directory": u["dir"], "file": u["name"], "arguments": [SYS[u["ext"]]] + u["flags"] + ["-c", u["name"]]})
        files = dict(c["files"])
        files["/w/compile_commands.json"] = json.dumps(db)
        pl = W.all_rules(self.built, c["rules"])
        pl[W.SIMREP] = ("reporter", "sim")
        argv = ["oclint", "-p", "/w", "-report-type", "sim"] + ["-rc=" + x for x in c["rc"]] + [x for x, b in (
            ("-enable-global-analysis", glob), ("-allow-duplicated-violations", dup), ("-enable-clang-static-analyzer", c["ana"])) if b] + req
        r = ctx.run(S.Run(argv=argv, plugins=pl, heap=tuple(heap), io=tuple(io), faults=[dict(f) for f in c.get("faults", [])], cpu=40), W.fs_of(pl, files), keep_fs=False)
        return r, W.Dump(r.out)

    def execute(self, c, ctx):
        solo = {}
        for j in sorted({j for b in c["batches"] for j in b["order"]}):
            r, d = self.go(c, ctx, [j], False, True, c["heap"])
            if not d.ok:
                return []  # this text makes the tool fail even alone: judged by C05
            solo[j] = d
        if c["rules"] is None:
            ctx.probe("all_rules")
        if c["ana"]:
            ctx.probe("analyzer")
        if any("void last(int par)" in t for t in c["files"].values()):
            ctx.probe("twins")
        if any(b["heap"][3] == 4 for b in c["batches"]):
            ctx.probe("low_reuse")
        if any(p.endswith("conf.h") for p in c["files"]):
            ctx.probe("header")
        if any(d.e for d in solo.values()):
            ctx.probe("error_unit")
        if sum(len(d.v) for d in solo.values()) > 30:
            ctx.probe("v_many")
        us = c["units"]
        if len({u["path"] for u in us}) < len(us):
            ctx.probe("same_file")
        if len({u["name"] for u in us}) < len({u["path"] for u in us}):
            ctx.probe("same_name")
        V = []
        for b in c["batches"]:
            for k, p in (("glob", "global"),):
                if b[k]:
                    ctx.probe(p)
            if len(set(b["order"])) < len(b["order"]):
                ctx.probe("repeat")
            if b["order"] == sorted(b["order"], reverse=True):
                ctx.probe("reversed")
            r, d = self.go(c, ctx, b["order"], b["glob"], b["dup"], b["heap"], b.get("io", (0, 0)))
            if b.get("io", [0, 0]) != [0, 0]:
                ctx.probe("io")
            if r.fired:
                ctx.probe("fault_batch")
            if r.reused:
                ctx.probe("reuse")
            if not d.ok:
                V.append(E.Viol("failed", "each unit of %s can be analyzed alone, the batch ends with %s: %r" % ([us[j]["path"] for j in b["order"]], r.exit(), r.err[-300:])))
                continue
            if not b["dup"]:
                ctx.probe("nodup")
            for what, get in (("violations", lambda x: x.v), ("compiler errors", lambda x: x.e), ("compiler warnings", lambda x: x.w), ("static analyzer findings", lambda x: x.b)):
                want = [v for j in b["order"] for v in get(solo[j])]
                got = list(get(d))
                if not b["dup"]:
                    if len(set(got)) < len(got) and what == "violations":
                        V.append(E.Viol("duplicates", "%s listed twice" % what))
                    want, got = list(dict.fromkeys(want)), list(dict.fromkeys(got))
                oa, ob = W.msdiff(got, want)
                if oa or ob:
                    kind = "global" if b["glob"] else "batch"
                    V.append(E.Viol("%s-%s" % (kind, what.split()[0]), "%s of %s (%s%s) differ from the sum of its parts:\n%s" % (
                        what, [us[j]["path"] for j in b["order"]], "global analysis" if b["glob"] else "one after another", "" if b["dup"] else ", no duplicates",
                        W.diff_text(oa, ob, "the batch", "the parts"))))
        return V

    def shrink(self, c):
        for bs in E.drop_each(c["batches"], 1):
            yield dict(c, batches=bs)
        for i, b in enumerate(c["batches"]):
            for o in E.drop_each(b["order"], 1):
                yield dict(c, batches=c["batches"][:i] + [dict(b, order=o)] + c["batches"][i + 1:])
            for k, v in (("glob", False), ("dup", True), ("heap", scen.DEFAULT_HEAP), ("io", [0, 0])):
                if b.get(k, v) != v:
                    yield dict(c, batches=c["batches"][:i] + [dict(b, **{k: v})] + c["batches"][i + 1:])
        if c["rules"] is None:
            r = sorted(self.built["rules"])
            yield dict(c, rules=r[:len(r) // 2])
            yield dict(c, rules=r[len(r) // 2:])
        else:
            for r in E.drop_each(c["rules"], 1):
                yield dict(c, rules=r)
        for r in E.drop_each(c["rc"], 0):
            yield dict(c, rc=r)
        if c["ana"]:
            yield dict(c, ana=False)
        if c.get("faults"):
            yield dict(c, faults=[])
        if c["heap"] != scen.DEFAULT_HEAP:
            yield dict(c, heap=scen.DEFAULT_HEAP)
        yield from shrink_text(c)


def shrink_text(c):
    for p in sorted(c["files"]):
        l = c["files"][p].split("\n")
        n = len(l)
        step = n // 2
        while step >= 1:
            for k in range(0, n, step):
                t = "\n".join(l[:k] + l[k + step:])
                if t != c["files"][p]:
                    yield dict(c, files=dict(c["files"], **{p: t}))
            step //= 2
            if step * 6 < n and step > 1 and n > 60:
                break
