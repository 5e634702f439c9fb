"""C10: reports are a deterministic function of the inputs."""
import json
import code as K
import engine as E
import scen
import simrun as S
import world as W
from props.c14 import WHOLE
from props.c01 import make_units, shrink_text, SYS

NOISE_ENV = [("LANG", "de_DE.UTF-8"), ("LC_ALL", "tr_TR.UTF-8"), ("COLUMNS", "20"), ("TERM", "xterm-256color"), ("EDITOR", "vi"), ("SHLVL", "3"), ("USER", "x"), ("LOGNAME", "y"),
             ("MAIL", "/var/mail/x"), ("OLDPWD", "/tmp"), ("A" * 3000, "b" * 9000), ("_", "/usr/bin/oclint"), ("MAKEFLAGS", "-j8"), ("CFLAGS", "-O9"), ("OCLINT", "1")]


class P(E.Prop):
    ID = "C10"
    NEEDS_RULES = True
    COUNT = {"quick": 3000, "thorough": 20000}
    RULE = ("Seeded cases: 1-4 units as for C01, all rules or a subset, each reporter, report on standard output or in a file.  The same inputs are analyzed again with other "
            "memory placement, other contents of fresh and recycled memory, other recycling orders, stack positions, file times and inode numbers, directory entry positions of "
            "unrelated files, unrelated environment variables and files, other I/O granularity with interrupted calls, and (for reports without a time) another clock.  "
            "All output bytes and the exit status must be equal.")
    PROBES = ["text", "xml", "json", "html", "pmd", "xcode", "heap", "stack", "inode", "env", "files", "io", "clock", "file_output", "global", "analyzer", "reuse", "findings", "errors", "recycled_fill", "layout"]
    STUB = ["file system, descriptors, stdio, mmap, directories, clock, environment, working directory (simulated libc)", "heap (seeded allocator)"]
    REAL = E.Prop.REAL + ["all rule libraries, metrics, rule helpers", "all reporters"]

    def cases(self, rng, ctx, tier, i):
        units, files = [], {}
        for k, (ext, fl, text) in enumerate(make_units(rng, rng.choice([1, 1, 2, 3]))[:4]):
            p = "/w/%su%d.%s" % (rng.choice(["", "d/"]), k, ext)
            if rng.random() < 0.3:
                text = K.pad(rng, text)
            files[p] = K.decorate(rng, ext, text) if rng.random() < 0.15 else text
            units.append(dict(path=p, flags=list(fl) + rng.choice([[], [], ["-Wall", "-Wextra"]]), ext=ext))
            if rng.random() < 0.06:
                units[-1]["flags"] += rng.choice(list(WHOLE.values()))[0]
            elif rng.random() < 0.03:
                del files[p]
        vs = []
        for _ in range(rng.choice([2, 3])):
            v = dict(heap=scen.rand_heap(rng), stack=0, ids=0, env=[], files=[], io=[0, 0], clock=0)
            if rng.random() < 0.4:
                v["stack"] = rng.randrange(1, 60000)
            v["layout"] = rng.choice([0, 0, 1, 2])
            if rng.random() < 0.5:
                v["ids"] = rng.randrange(1, 1 << 30)
            if rng.random() < 0.4:
                v["env"] = [list(x) for x in rng.sample(NOISE_ENV, rng.choice([1, 3, 8]))]
            if rng.random() < 0.4:
                v["files"] = rng.sample(["/w/zzz.c", "/w/Makefile", "/w/.clang-format", "/w/README", "/tmp/oclint-x", "/home/u/.bashrc", "/w/d/other.h", "/w/aaa/compile_commands.json"], rng.choice([1, 2, 4]))
            if rng.random() < 0.4:
                v["io"] = [rng.choice([1, 2, 7]), rng.choice([0, 2, 5])]
            if rng.random() < 0.3:
                v["clock"] = rng.choice([10**9, 3600 * 10**9, -10**15, 10**17])
            if "void last(int par)" in files.get(units[0]["path"], "") and rng.random() < 0.6:
                v["heap"][3] = 4
            vs.append(v)
        yield dict(files=files, units=units, vs=vs, rep=rng.choice(["text", "xml", "json", "html", "pmd", "xcode"]), out=rng.random() < 0.4,
                   rules=None if rng.random() < 0.7 else sorted(rng.sample(sorted(self.built["rules"]), rng.choice([5, 20]))), rc=K.thresholds(rng),
                   glob=rng.random() < 0.25, dup=rng.random() < 0.4, ana=rng.random() < 0.15)

    def go(self, c, ctx, v):
        pl = W.all_rules(self.built, c["rules"])
        pl.update(W.reporters(self.built, sim=False))
        files = dict(c["files"])
        files["/w/compile_commands.json"] = json.dumps([{"directory": "/w", "file": u["path"], "arguments": [SYS[u["ext"]]] + u["flags"] + ["-c", u["path"]]} for u in c["units"]])
        for p in v["files"] if v else []:
            files[p] = "int unrelated = 1;\n"
        argv = ["oclint", "-p", "/w", "-report-type", c["rep"]] + (["-o", "/w/report.out"] if c["out"] else []) + ["-rc=" + x for x in c["rc"]]
        argv += [x for x, b in (("-enable-global-analysis", c["glob"]), ("-allow-duplicated-violations", c["dup"]), ("-enable-clang-static-analyzer", c["ana"])) if b] + [u["path"] for u in c["units"]]
        fs = W.fs_of(pl, files)
        kw = {}
        if v:
            if v["ids"]:
                import random
                g = random.Random(v["ids"])
                inos = g.sample(range(1000, 10**6), len(fs.nodes))
                for p, n in sorted(fs.nodes.items()):
                    n["ino"], n["mtime"] = inos.pop(), g.randrange(0, 2 * 10**9)
                fs.next = 2 * 10**6
            env = {"PATH": "/usr/bin:/opt/oclint/bin", "HOME": "/home/u", "TZ": "UTC0"}
            env.update({k: x for k, x in v["env"]})
            kw = dict(heap=tuple(v["heap"]), stack=v["stack"], env=env, io=tuple(v["io"]))
            if v["clock"] and c["rep"] in ("text", "pmd", "xcode"):
                kw["clock"] = 1700000000 * 10**9 + v["clock"]
        r = ctx.run(S.Run(argv=argv, plugins=pl, tick=0, cpu=40, **kw), fs, layout=v.get("layout", 0) if v else 0)
        return r, r.fs.read("/w/report.out") if c["out"] else None

    def execute(self, c, ctx):
        r0, f0 = self.go(c, ctx, None)
        ctx.probe(c["rep"])
        for k, p in (("out", "file_output"), ("glob", "global"), ("ana", "analyzer")):
            if c[k]:
                ctx.probe(p)
        if r0.exit() == 6:
            ctx.probe("errors")
        rep = f0 if c["out"] else r0.out
        if rep and len(rep) > 400:
            ctx.probe("findings")
        V = []
        for v in c["vs"]:
            for k, p in (("stack", "stack"), ("layout", "layout"), ("ids", "inode"), ("env", "env"), ("files", "files"), ("clock", "clock")):
                if v[k]:
                    ctx.probe(p)
            if v["io"] != [0, 0]:
                ctx.probe("io")
            ctx.probe("heap")
            r, f = self.go(c, ctx, v)
            if r.reused:
                ctx.probe("reuse")
            if v["heap"][4]:
                ctx.probe("recycled_fill")
            a, b = (r.exit(), r.out, r.err, f), (r0.exit(), r0.out, r0.err, f0)
            if a == b:
                continue
            what = [n for n, x, y in zip(("exit status", "standard output", "standard error", "report file"), a, b) if x != y]
            how = [k for k in ("stack", "layout", "ids", "env", "files", "clock") if v[k]] + (["io"] if v["io"] != [0, 0] else []) + (["heap"] if v["heap"] != scen.DEFAULT_HEAP else [])
            det = []
            for x, y in zip(a[1:], b[1:]):
                if x != y:
                    lx, ly = (x or b"").split(b"\n"), (y or b"").split(b"\n")
                    oa, ob = W.msdiff(lx, ly)
                    det.append(W.diff_text([t[:300] for t in oa], [t[:300] for t in ob], "this run", "the first run") or "the same lines in another order: %r" % [(p[:200], q[:200]) for p, q in zip(lx, ly) if p != q][:2])
            V.append(E.Viol("-".join(w.split()[-1] for w in what), "%s differ%s for the same inputs (report %s, varied: %s): exit %s and %s\n%s" % (
                " and ".join(what), "s" if len(what) == 1 else "", c["rep"], ", ".join(how), a[0], b[0], "\n".join(det))))
        return V

    def shrink(self, c):
        for vs in E.drop_each(c["vs"], 1):
            yield dict(c, vs=vs)
        for i, v in enumerate(c["vs"]):
            for k, z in (("heap", scen.DEFAULT_HEAP), ("layout", 0), ("stack", 0), ("ids", 0), ("env", []), ("files", []), ("io", [0, 0]), ("clock", 0)):
                if v[k] != z:
                    yield dict(c, vs=c["vs"][:i] + [dict(v, **{k: z})] + c["vs"][i + 1:])
            h = v["heap"]
            for k in range(7):
                if h[k] != scen.DEFAULT_HEAP[k]:
                    yield dict(c, vs=c["vs"][:i] + [dict(v, heap=h[:k] + [scen.DEFAULT_HEAP[k]] + h[k + 1:])] + c["vs"][i + 1:])
        if len(c["units"]) > 1:
            for k in range(len(c["units"])):
                yield dict(c, units=c["units"][:k] + c["units"][k + 1:], files={p: t for p, t in c["files"].items() if p != c["units"][k]["path"]})
        r = c["rules"] or sorted(self.built["rules"])
        for l in E.drop_each(r, 1):
            yield dict(c, rules=l)
        for r in E.drop_each(c["rc"], 0):
            yield dict(c, rc=r)
        for k in ("glob", "dup", "ana", "out"):
            if c[k]:
                yield dict(c, **{k: False})
        yield from shrink_text(c)
