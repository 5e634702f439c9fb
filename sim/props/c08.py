"""C08: an unreadable input is never mistaken for clean code."""
import collections, json
import engine as E
import scen
import simrun as S
import world as W

BROKEN = ["missing", "noperm", "isdir", "dangling", "loop", "nodirperm"]
SOFT = {"EINTR", "short", "delay"}


class P(E.Prop):
    ID = "C08"
    COUNT = {"quick": 2500, "thorough": 30000}
    RULE = ("Seeded cases: 1-4 units with private and shared headers (nested, forced, quoted and angled, some larger than a page multiple), "
            "compilation databases and response files; inputs that are missing, without permission, directories, dangling or looping links; then, "
            "on the fault-free history, failing, interrupted and short opens, stats, reads, maps, closes and directory operations at every "
            "input-related call, singly and in pairs.  Each unit's declarations are reported, so an input that was not read shows.")
    PROBES = ["broken:" + b for b in BROKEN] + ["broken_source", "broken_header", "db_broken", "empty_db", "fault_source", "fault_header", "fault_db", "fault_rsp", "fault_dir", "soft", "survived", "visible_error", "visible_status",
              "confined", "big", "global", "analyzer", "mmap", "flags"]
    STUB = E.Prop.STUB + ["rules and reporter (scripted probes through oclint's real interface)"]

    def cases(self, rng, ctx, tier, i):
        files, hdrs, uses = {}, {}, {}
        nh = rng.choice([1, 2, 3, 4])

        def pad():
            x = rng.random()
            if x < 0.75:
                return ""
            n = rng.choice([4096, 16384, 20480, 30000, 65536])
            return "/*" + "x" * n + "*/\n" if rng.random() < 0.5 else ("//" + "y" * 60 + "\n") * (n // 63)

        def fill(t):
            x = rng.random()
            if x < 0.1:  # end exactly at a multiple of the page size
                want = rng.choice([4096, 16384, 20480])
                if len(t) < want - 3:
                    t += "//" + "z" * (want - len(t) - 3) + "\n"
            return t
        for j in range(nh):
            p = rng.choice(["/w/inc/h%d.h", "/w/inc/sub/h%d.h", "/w/h%d.h", "/srv/shared/h%d.h"]) % j
            hdrs[j] = p
            uses[j] = [q for q in range(j) if rng.random() < 0.3]
            files[p] = fill(pad() + "#ifndef G%d\n#define G%d\n" % (j, j) + "".join('#include "%s"\n' % hdrs[q] for q in uses[j]) +
                            ("#warning hw%d\n" % j if rng.random() < 0.15 else "") + "extern int decl_h%d;\n#endif\n" % j)
        units = []
        for k in range(rng.choice([1, 2, 2, 3, 4])):
            p = rng.choice(["/w/u%d.c", "/w/src/u%d.c", "/srv/u%d.cpp"]) % k
            own = rng.sample(range(nh), rng.choice([0, 1, 1, 2]) if nh > 1 else rng.choice([0, 1]))
            forced = [rng.randrange(nh)] if rng.random() < 0.2 else []
            clo = self.closure(uses, own + forced)
            text = "".join('#include "%s"\n' % hdrs[q] if rng.random() < 0.6 else "#include <%s>\n" % hdrs[q] if rng.random() < 0.5 else '#include "%s"\n' % hdrs[q].rsplit("/", 1)[1] for q in own)
            files[p] = fill(pad() + text + ("#warning w%d\n" % k if rng.random() < 0.2 else "") + "int unit_%d = NEED_%d;\n" % (k, k) + "int last_%d;\n" % k)
            units.append(dict(path=p, k=k, closure=[hdrs[q] for q in sorted(clo)], flags=["-DNEED_%d=1" % k] + sum([["-include", hdrs[q]] for q in forced], []), dir=rng.choice(["/w", "/w", "/w/src", "/srv"])))
        glob, ana, dup = rng.random() < 0.3, rng.random() < 0.3, rng.random() < 0.5
        inc = ["-I/w/inc", "-I/w/inc/sub", "-I/w", "-I/srv/shared"]
        db = []
        rsp = {}
        for u in units:
            fl = inc + u["flags"]
            if rng.random() < 0.15:
                rf = "/w/rsp/u%d.rsp" % u["k"]
                files[rf] = "\n".join(fl) + "\n"
                fl = ["@" + rf]
                u["rsp"] = rf
            db.append({"directory": u["dir"], "file": u["path"], "arguments": ["cc"] + fl + ["-c", u["path"]]})
        files["/w/compile_commands.json"] = json.dumps(db)
        req = [u["path"] for u in units]
        rng.shuffle(req)
        flags = rng.random() < 0.2
        if flags:  # no database: one set of flags behind --
            files.pop("/w/compile_commands.json")
            for u in units:
                u.update(dir="/w", closure=[hdrs[q] for q in sorted(self.closure(uses, [j for j in range(nh) if hdrs[j] in u["closure"] or any(hdrs[j] in v["flags"] for v in units)]))])
                u.pop("rsp", None)
        argv = ["oclint"] + ([] if flags else ["-p", "/w"]) + ["-report-type", "sim"] + [x for x, b in (("-allow-duplicated-violations", dup), ("-enable-global-analysis", glob), ("-enable-clang-static-analyzer", ana)) if b] + req + ((["--"] + inc + sum((u["flags"] for u in units), [])) if flags else [])
        c = dict(files=files, argv=argv, units=units, req=req, glob=glob, ana=ana, dup=dup, heap=scen.rand_heap(rng), io=[0, 0], dirs=["/w/src", "/srv", "/w/rsp"], links={}, modes={}, faults=[],
                 rules=[["", "probe", "c", 3, [scen.act("*", "tu")]]], broken=None, db="ok", hdrs=sorted(hdrs.values()))
        x = rng.random()
        if x < 0.35:
            yield dict(c, **self.breakage(rng, c))
        elif x < 0.42 and not flags:
            how = rng.choice(["missing", "noperm", "isdir", "text", "truncated", "empty", "emptylist", "nocommand"])
            d = dict(c, db=how, files=dict(files), modes={}, dirs=list(c["dirs"]))
            t = files["/w/compile_commands.json"]
            if how == "missing":
                d["files"].pop("/w/compile_commands.json")
            elif how == "noperm":
                d["modes"]["/w/compile_commands.json"] = 0
            elif how == "isdir":
                d["files"].pop("/w/compile_commands.json")
                d["dirs"].append("/w/compile_commands.json")
            else:
                d["files"]["/w/compile_commands.json"] = {"text": "hello\n", "truncated": t[:rng.randrange(1, len(t) - 1)], "empty": "", "emptylist": "[]", "nocommand": '[{"directory": "/w", "file": "/w/u0.c"}]'}[how]
            yield d
        yield c
        if flags:
            ctx.probe("flags")
        r, fs = scen.build_world(self.built, c)
        occ = [o for o in scen.occurrences(ctx.run(r, fs, trace=True).trace)
               if o[0] in ("open", "stat", "fstat", "read", "mmap", "close", "getcwd", "chdir", "realpath", "readlink", "opendir", "readdir", "access") and
               (o[1] in files or any(f.startswith(o[1].rstrip("/") + "/") for f in files))]
        if not occ:
            return
        for _ in range(4):
            fl = []
            for _ in range(rng.choice([1, 1, 1, 2])):
                o = scen.pick_op(rng, occ)
                if o[0] == "read" and rng.random() < 0.4:
                    fl.append(dict(op="read", path=o[1], nth=o[2], kind=rng.choice(["EINTR", "short"]), arg=rng.choice([1, 2, 7, 100, 4096])))
                elif o[0] == "open" and rng.random() < 0.2:
                    fl.append(dict(op="open", path=o[1], nth=o[2], kind="EINTR", arg=0))
                else:
                    fl.append(scen.fault_at(rng, o))
            if rng.random() < 0.15:
                yield dict(c, io=[rng.choice([1, 2, 5]), rng.choice([0, 2, 5])], faults=[])
            yield dict(c, faults=fl)

    def closure(self, uses, start):
        clo, todo = set(), list(start)
        while todo:
            q = todo.pop()
            if q not in clo:
                clo.add(q)
                todo += uses[q]
        return clo

    def breakage(self, rng, c):
        """makes one or two inputs unreadable for good"""
        files, dirs, links, modes, broken = dict(c["files"]), list(c["dirs"]), {}, {}, {}
        for _ in range(rng.choice([1, 1, 2])):
            cand = sorted(u["path"] for u in c["units"]) + sorted({h for u in c["units"] for h in u["closure"]})
            p = rng.choice(cand)
            how = rng.choice(BROKEN)
            if p in broken or p not in files or p in modes:
                continue
            if how == "missing":
                files.pop(p)
            elif how == "noperm":
                modes[p] = 0
            elif how == "isdir":
                files.pop(p)
                dirs.append(p)
            elif how == "dangling":
                files.pop(p)
                links[p] = rng.choice(["/nowhere", "gone.h"])
            elif how == "loop":
                files.pop(p)
                links[p] = p
            else:
                d = p.rsplit("/", 1)[0]
                if d in ("/w", "/srv", "/w/src", "/w/inc", "/w/rsp"):
                    continue
                modes[d] = 0o600
                for q in cand:
                    if q.startswith(d + "/"):
                        broken[q] = how
                continue
            broken[p] = how
        return dict(files=files, dirs=dirs, links=links, modes=modes, broken=broken)

    def one(self, c, ctx, faults, trace=False, io=None):
        run, fs = scen.build_world(self.built, dict(c, faults=faults, io=c["io"] if io is None else io))
        return ctx.run(run, fs, trace=trace)

    def parts(self, c, d):
        """findings per unit: {unit: (violations, others by path)}"""
        by = {}
        for u in c["units"]:
            by[u["path"]] = [v for v in d.v if v.path == u["path"]]
        return by

    def execute(self, c, ctx):
        for k, p in (("glob", "global"), ("ana", "analyzer")):
            if c[k]:
                ctx.probe(p)
        if c["db"] != "ok":
            return self.database(c, ctx)
        if c["broken"] is not None:
            return self.static(c, ctx)
        base = self.one(c, ctx, [], io=[0, 0])
        bd = W.Dump(base.out)
        if base.exit() != 0 or not bd.ok:
            if base.exit() == 5 and bd.ok:
                pass
            else:
                return [E.Viol("baseline", "without faults the run ended with %s: %r %s" % (base.exit(), base.err[-300:], [W.show(e) for e in bd.e[:2]]))]
        n = [v for v in bd.v if v.msg.startswith("TU ")]
        for u in c["units"]:
            m = [v for v in n if v.path == u["path"]]
            want = {"decl_h%d" % int(h.rsplit("h", 2)[1].rstrip(".")) for h in u["closure"]}
            got = set(m[0].msg.split(" ", 2)[2].replace("^", "").split(",")) if len(m) == 1 else set()
            if len(m) != 1 or not (want | {"unit_%d" % u["k"], "last_%d" % u["k"]}) <= got:
                return [E.Viol("baseline", "unit %s: %s, expected declarations %s" % (u["path"], [W.show(x) for x in m], sorted(want)))]
        if any(len(t) > 16000 for t in c["files"].values()):
            ctx.probe("big")
        if not c["faults"] and c["io"] == [0, 0]:
            return []
        r = self.one(c, ctx, c["faults"])
        ex = r.exit()
        d = W.Dump(r.out)
        same = ex == base.exit() and r.out == base.out
        if not c["faults"]:
            ctx.probe("soft")
            return [] if same else [E.Viol("partial-reads", "short and interrupted transfers change the result: exit %s, was %s\n%s" % (
                ex, base.exit(), W.diff_text(*W.msdiff(d.v + d.e + d.w, bd.v + bd.e + bd.w), "the run", "the undisturbed run")))]
        if not r.fired:
            return [] if same else [E.Viol("nondeterminism", "a fault that never happened changed the result")]
        for f in r.fired:
            p = f[1]
            ctx.probe("fault_db" if p.endswith("compile_commands.json") else "fault_rsp" if p.endswith(".rsp") else "fault_source" if p in c["req"] else "fault_header" if p in c["files"] else "fault_dir")
            if f[0] == "mmap":
                ctx.probe("mmap")
        if all(f[2] in SOFT for f in r.fired):
            ctx.probe("soft")
            return [] if same else [E.Viol("retry", "interrupted or short calls %s change the result: exit %s, was %s\n%s" % (
                r.fired, ex, base.exit(), W.diff_text(*W.msdiff(d.v + d.e + d.w, bd.v + bd.e + bd.w), "the run", "the undisturbed run")))]
        if same:
            ctx.probe("survived")
            return []
        if not isinstance(ex, int) or r.note & 2:
            return []  # crashes and hangs are judged by C05
        if ex in (1, 2, 3, 4, 7):
            ctx.probe("visible_status")
            return [] if r.err else [E.Viol("silent", "status %s without a message, faults %s" % (ex, r.fired))]
        if not d.ok:
            return [E.Viol("no-report", "exit %s without a complete report, faults %s" % (ex, r.fired))]
        V = []
        dbfault = any(f[1].endswith("compile_commands.json") or (f[1] in ("/w", "/") and f[0] != "chdir") for f in r.fired) and b"compilation database" in r.err
        rspfault = [f[1] for f in r.fired if f[1].endswith(".rsp") or f[1] == "/w/rsp"]
        paths = [f[1] for f in r.fired]

        def hit(u):
            ins = [u["path"], u["dir"]] + u["closure"] + ([u["rsp"]] if u.get("rsp") else [])
            return any(p == q or q.startswith(p.rstrip("/") + "/") for p in paths for q in ins)
        changed = []
        for u in c["units"]:
            a = [v for v in d.v if v.path == u["path"]]
            b = [v for v in bd.v if v.path == u["path"]]
            if sorted(a) == sorted(b):
                continue
            changed.append(u)
            if not hit(u) and not dbfault:
                V.append(E.Viol("spread", "the findings of %s changed through faults %s\n%s" % (u["path"], r.fired, W.diff_text(*W.msdiff(a, b), "with the faults", "without"))))
        if changed and not V:
            # something was not read: that must show
            if dbfault:
                pass  # named on standard error: analysis goes on without flags
            elif rspfault and all(u.get("rsp") for u in changed) and r.err:
                pass  # the compiler driver names the unreadable file of arguments on standard error
            elif not d.e or ex != 6:
                V.append(E.Viol("mistaken-for-clean", "faults %s changed the findings of %s without any error: exit %s, stderr %r\n%s" % (
                    r.fired, [u["path"] for u in changed], ex, r.err[-200:], W.diff_text(*W.msdiff(d.v, bd.v), "with the faults", "without"))))
            else:
                for u in changed:
                    a = [v for v in d.v if v.path == u["path"]]
                    if a:
                        V.append(E.Viol("half-read", "%s was reported on although its input was not read completely (faults %s): %s" % (u["path"], r.fired, [W.show(x) for x in a])))
                ne = len(set(d.e))
                if not c["dup"] and ne > 60:
                    V.append(E.Viol("flood", "%d errors" % ne))
        if changed:
            ctx.probe("visible_error")
            if len(changed) < len(c["units"]):
                ctx.probe("confined")
        if not dbfault and not rspfault:
            lost = [v for v in bd.w if v not in d.w and not any(hit(u) and (v.path == u["path"] or v.path in u["closure"]) for u in c["units"])]
            if lost:
                V.append(E.Viol("spread", "faults %s lost the warnings %s of other units" % (r.fired, [W.show(x) for x in lost])))
        if bool(d.e) != (ex == 6):
            V.append(E.Viol("status", "errors %s, exit %s" % ([W.show(e) for e in d.e[:3]], ex)))
        return V

    def static(self, c, ctx):
        r = self.one(c, ctx, [])
        ex, d = r.exit(), W.Dump(r.out)
        br = c["broken"]
        for p, how in br.items():
            ctx.probe("broken:" + how)
            ctx.probe("broken_source" if p in c["req"] else "broken_header")
        bad = [u["path"] for u in c["units"] if u["path"] in br or any(h in br for h in u["closure"])]
        if not d.ok or ex not in (0, 5, 6):
            if ex in (3, 7) and r.err and bad:
                return []
            return [E.Viol("status", "inputs %s: exit %s, stderr %r" % (br, ex, r.err[-300:]))]
        V = []
        if bool(bad) != (ex == 6) or bool(bad) != bool(d.e):
            V.append(E.Viol("mistaken-for-clean", "inputs %s are unreadable, units %s need them: exit %s, errors %s" % (br, bad, ex, [W.show(e) for e in d.e[:4]])))
        for u in c["units"]:
            a = [v for v in d.v if v.path == u["path"]]
            if (u["path"] in bad) == bool(a):
                V.append(E.Viol("units", "unit %s (%s): violations %s; inputs %s" % (u["path"], "needs an unreadable input" if u["path"] in bad else "readable", [W.show(x) for x in a], br)))
        # every unreadable input that a unit meets first is named
        for p in br:
            if p in c["req"] and not any(p in e.msg or e.path == p for e in d.e):
                V.append(E.Viol("unnamed", "the unreadable source %s (%s) is not named in %s" % (p, br[p], [W.show(e) for e in d.e[:4]])))
        return V

    def database(self, c, ctx):
        r = self.one(c, ctx, [])
        ctx.probe("empty_db" if c["db"] in ("emptylist",) else "db_broken")
        ex = r.exit()
        if c["db"] == "emptylist":
            miss = [p for p in c["req"] if p.encode() not in r.err]
            if miss and ex in (0, 5):
                return [E.Viol("skip", "without compile commands %s are neither analyzed nor named: exit %s, stderr %r" % (miss, ex, r.err[-300:]))]
            d = W.Dump(r.out)
            if d.ok and d.v and ex in (0, 5) and b"Skipping" not in r.err:
                return [E.Viol("skip", "exit %s, %s" % (ex, [W.show(v) for v in d.v[:3]]))]
            return []
        if not isinstance(ex, int):
            return [E.Viol("status", "database %s: ended with %s" % (c["db"], ex))]
        if ex in (0, 5, 6) and b"ompilation database" not in r.err and b"Skipping" not in r.err:
            return [E.Viol("database", "the compilation database is %s and nothing says so: exit %s, stderr %r" % (c["db"], ex, r.err[-300:]))]
        return []

    def shrink(self, c):
        for x in scen.shrink_common(c):
            if x["rules"] == c["rules"]:
                yield x
        if len(c["units"]) > 1:
            for u in c["units"]:
                yield dict(c, units=[x for x in c["units"] if x is not u], req=[q for q in c["req"] if q != u["path"]], argv=[a for a in c["argv"] if a != u["path"]])
        for p, t in c["files"].items():
            if len(t) > 4000:
                yield dict(c, files=dict(c["files"], **{p: "\n".join(l for l in t.split("\n") if not l.startswith(("/*xx", "//")))}))
        for a, k in (("-enable-global-analysis", "glob"), ("-enable-clang-static-analyzer", "ana")):
            if a in c["argv"]:
                yield dict(c, argv=[x for x in c["argv"] if x != a], **{k: False})
