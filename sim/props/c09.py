"""C09: plugin loading is complete or fails loudly."""
import collections, json
import engine as E
import scen
import simrun as S
import world as W
from props.c06 import ident

WORDS = "alpha beta gamma delta epsilon zeta eta theta iota kappa lambda mu nu xi omicron pi rho sigma tau".split()
HIDDEN = [".libh.so", "..data", ".git", "...", ".x"]


class P(E.Prop):
    ID = "C09"
    COUNT = {"quick": 5000, "thorough": 60000}
    RULE = ("Seeded cases: 1-4 rule directories (default, -R, configuration, nested, linked, empty, missing, given twice) with random "
            "loadable, hidden, unloadable, rule-less and non-library entries under random listing orders, and a reporter directory "
            "with several reporters; some with failing opendir/readdir/dlopen/dlsym. The rules that ran, the list printed on "
            "request, the load events and the status are compared with a model.")
    PROBES = ["ok", "status1", "status2", "hidden", "unloadable", "multi_dir", "dir_twice", "linked_dir", "empty_dir", "missing_dir", "several_per_lib",
              "fault:opendir", "fault:readdir", "fault:dlopen", "fault:dlsym", "reporter_first", "reporter_last", "list", "filtered",
              "many_entries", "bad_reporter"]
    STUB = E.Prop.STUB + ["rules and reporters (scripted libraries that register through oclint's real interface)"]

    def cases(self, rng, ctx, tier, i):
        nd = rng.choice([1, 1, 2, 3])
        default = rng.random() < 0.4
        dirs = [W.RULES] if default else rng.sample(["/w/ra", "/opt/r b", "/w/deep/er/rules", "/srv/x"], nd)
        c = dict(plugins={}, files={"/w/a.c": "int a(int x) { return x; }\n", "/w/b.c": "int b;\n"}, dirs=list(dirs), rules=[], orders={}, links={},
                 entries={}, heap=scen.rand_heap(rng), faults=[], io=[rng.choice([0, 0, 3]), 0])
        w = list(WORDS)
        rng.shuffle(w)
        libs = {}
        for d in dirs:
            names = []
            for k in range(rng.choice([0, 1, 1, 2, 3, 3, 6, 40 if rng.random() < 0.2 else 2])):
                x = rng.random()
                nm = "lib%s%d.so" % (rng.choice("abcXYZ_"), k)
                if x < 0.72:
                    n = rng.choice([0, 1, 1, 1, 1, 2, 3])
                    c["plugins"][d + "/" + nm] = ["rule", "s"]
                    rs = []
                    for _ in range(n):
                        if not w:
                            break
                        rn = w.pop() + rng.choice([" rule", "", " of " + rng.choice(WORDS)])
                        rs.append(rn)
                        c["rules"].append([d + "/" + nm, rn, "c", rng.randrange(1, 4), [scen.act("*", "v", "", 1, 1, 1, 1, "from " + rn)]])
                    libs[d + "/" + nm] = rs
                elif x < 0.9:
                    nm = rng.choice(HIDDEN)
                    if nm in names:
                        continue
                    y = rng.random()
                    if y < 0.4:
                        c["plugins"][d + "/" + nm] = ["rule", "s"]
                        c["rules"].append([d + "/" + nm, "hidden one", "c", 1, [scen.act("*", "v", "", 1, 1, 1, 1, "hidden")]])
                    elif y < 0.7:
                        c["dirs"].append(d + "/" + nm)
                    else:
                        c["files"][d + "/" + nm] = "not a library"
                elif x < 0.92:
                    c["plugins"][d + "/" + nm] = ["bad", ""]
                    libs[d + "/" + nm] = None
                elif x < 0.94:
                    nm = rng.choice(["README", "sub", "libold.so.txt", "#x#"])
                    if nm in names:
                        continue
                    if nm == "sub":
                        c["dirs"].append(d + "/sub")
                    else:
                        c["files"][d + "/" + nm] = "text"
                    libs[d + "/" + nm] = None
                elif x < 0.95:
                    c["links"][d + "/" + nm] = "/nowhere/x.so"
                    libs[d + "/" + nm] = None
                else:
                    continue
                names.append(nm)
            if rng.random() < 0.006:
                for k in range(rng.choice([130, 300, 1100])):
                    nm = "libm%04d.so" % k
                    c["plugins"][d + "/" + nm] = ["rule", "s"]
                    libs[d + "/" + nm] = []
                    names.append(nm)
                    if rng.random() < 0.03:
                        mn = "many %s%s" % ("abcdefgh"[dirs.index(d)], "".join(chr(97 + int(q)) for q in str(k)))
                        libs[d + "/" + nm] = [mn]
                        c["rules"].append([d + "/" + nm, mn, "c", 1, [scen.act("*", "v", "", 1, 1, 1, 1, "from " + mn)]])
            if rng.random() < 0.7:
                o = list(names)
                rng.shuffle(o)
                c["orders"][d] = o
        c["libs"] = libs
        argv = ["oclint"]
        given = []
        if not default:
            given = list(dirs)
            if rng.random() < 0.15:
                given.append(rng.choice(dirs))
            if rng.random() < 0.1:
                c["links"]["/w/lnk"] = rng.choice(dirs)
                given.append("/w/lnk")
            if rng.random() < 0.08:
                given.insert(0, "/nowhere/rules")
            if rng.random() < 0.1:
                c["dirs"].append("/w/emptyr")
                given.append("/w/emptyr")
            conf = [d for d in given if rng.random() < 0.25]
            if conf and len(set(given)) == len(given):
                c["files"][rng.choice(["/w/.oclint", "/home/u/.oclint"])] = "rule-paths:\n" + "".join("- '%s'\n" % d for d in conf)
                argv += ["-R" + d for d in given if d not in conf]
            else:
                argv += ["-R" + d if d != "/w/ra" or rng.random() < 0.5 else "-Rra" for d in given]
        c["given"] = given
        allr = [r[1] for r in c["rules"] if r[1] != "hidden one"]
        c["off"] = []
        if allr and rng.random() < 0.25:
            c["off"] = rng.sample(allr, rng.randrange(1, len(allr) + 1))
            argv += ["-disable-rule=" + ident(x) for x in c["off"]]
        c["list"] = rng.random() < 0.5
        if c["list"]:
            argv.append("-list-enabled-rules")
        # reporters
        want = rng.choice(["sim", "simX", "sim2"])
        reps = ["sim", "simX", "sim2", "other", "simXY", "SIM"]
        rng.shuffle(reps)
        have = reps[:rng.randrange(1, 6)]
        if want not in have and rng.random() < 0.85:
            have.append(want)
        c["reps"] = have
        c["want"] = want
        order = []
        for k, n in enumerate(have):
            p = W.REPORTERS + "/lib%s.so" % n
            c["plugins"][p] = ["reporter", n]
            order.append("lib%s.so" % n)
        c["badrep"] = []
        if rng.random() < 0.15:
            k = rng.choice(["bad", "nosym", "text"])
            if k == "text":
                c["files"][W.REPORTERS + "/notes"] = "x"
                order.append("notes")
                c["badrep"].append("notes")
            else:
                c["plugins"][W.REPORTERS + "/libzz.so"] = [k, ""]
                order.append("libzz.so")
                c["badrep"].append("libzz.so")
        if rng.random() < 0.3:
            c["files"][W.REPORTERS + "/.hid"] = "x"
            order.append(".hid")
        rng.shuffle(order)
        c["orders"][W.REPORTERS] = order
        argv += ["-report-type", want, "-allow-duplicated-violations", "-max-priority-1=99999", "-max-priority-2=99999", "-max-priority-3=99999"]
        c["toout"] = rng.random() < 0.4
        if not c["toout"]:
            argv += ["-o", "out"]
        c["argv"] = argv + ["/w/a.c", "/w/b.c", "--"]
        yield c
        ref = self.one(c, ctx, True)
        occ = [o for o in scen.occurrences(ref.trace) if o[0] in ("opendir", "readdir", "dlopen", "dlsym")]
        if occ:
            for _ in range(2):
                fl = [scen.fault_at(rng, scen.pick_op(rng, occ), 0.2)]
                yield dict(c, faults=fl)

    def one(self, c, ctx, trace=True):
        case = dict(files=dict(c["files"]), rules=c["rules"], plugins=c["plugins"], dirs=c["dirs"], links=c["links"], orders=c["orders"], argv=c["argv"],
                    heap=c["heap"], io=c["io"], faults=c["faults"], noreps=True)
        run, fs = scen.build_world(self.built, case)
        fs.add("/w/out", "EARLIER")
        return ctx.run(run, fs, trace=trace)

    def execute(self, c, ctx):
        r = self.one(c, ctx)
        V = []
        dirs = c["given"] or [W.RULES]
        real = []
        for d in dirs:
            d2 = c["links"].get(d, d)
            if d2 not in real:
                real.append(d2)
        libs = {p: v for p, v in c["libs"].items() if p.rsplit("/", 1)[0] in real}
        broken = [p for p, v in libs.items() if v is None]
        rules = sorted(x for v in libs.values() if v for x in v)
        on = sorted(x for x in rules if x not in c["off"])
        order = c["orders"][W.REPORTERS]
        has = c["want"] in c["reps"]
        pos = order.index("lib%s.so" % c["want"]) if has else None
        badpos = [order.index(b) for b in c["badrep"]]
        ex = r.exit()
        if r.sig or r.note & 2:
            return [E.Viol("crash", "the run ended with %s; faults %s" % (ex, r.fired))]
        fr = [f for f in r.fired if not f[1].startswith(W.REPORTERS)]
        fp = [f for f in r.fired if f[1].startswith(W.REPORTERS)]
        self.count(c, ctx, r, dirs, real, libs, broken, order, pos)
        # a directory that does not exist has no entries: that one may be passed over
        miss_ok = bool(fr) and all(f[0] in ("opendir", "open", "openat", "stat", "access") and f[2] == "ENOENT" for f in fr)
        if not has:
            rep = {2}
        elif badpos and min(badpos) < pos:
            rep = {2}
        elif fp or badpos:
            rep = {2, 0}
        else:
            rep = {0}
        if miss_ok:
            want = {1} | rep
        elif broken or not rules or fr:
            want = {1}
        else:
            want = rep
        if ex not in want:
            V.append(E.Viol("status", "exit status %s, expected %s: rule entries that cannot be loaded %s, rules %s, reporters %s (wanted %s), faults %s; %r"
                            % (ex, sorted(want), broken, rules, order, c["want"], r.fired, r.err[-300:])))
            return V
        opens = [k for k, t in enumerate(r.trace) if t[0] == "open" and t[1] in ("/w/a.c", "/w/b.c")]
        loads = collections.Counter(t[1] for t in r.trace if t[0] == "dlopen")
        loadpos = [k for k, t in enumerate(r.trace) if t[0] == "dlopen"]
        if opens and loadpos and max(loadpos) > min(opens):
            V.append(E.Viol("load-after-analysis", "a library was loaded after analysis began"))
        for t in r.trace:
            if t[0] == "dlopen" and t[1].rsplit("/", 1)[1].startswith("."):
                V.append(E.Viol("hidden-loaded", "hidden entry loaded: %s" % t[1]))
        if ex in (1, 2):
            if opens:
                V.append(E.Viol("analyzed-anyway", "status %s, but sources were read" % ex))
            if r.fs.read("/w/out") != b"EARLIER" or (c["toout"] and r.out):
                V.append(E.Viol("reported-anyway", "status %s, but a report was written" % ex))
            if not r.err:
                V.append(E.Viol("silent", "status %s without a message" % ex))
            return V
        data = r.out if c["toout"] else r.fs.read("/w/out")
        i = data.find(b"BEGIN ")
        head, body = data[:max(i, 0)], data[max(i, 0):]
        w = c["want"].encode()
        if not body.startswith(b"BEGIN " + w + b"\n"):
            V.append(E.Viol("reporter", "the report was written by %r, asked for %s" % (body[:30], c["want"])))
            return V
        d = W.Dump(body.replace(b"BEGIN " + w, b"BEGIN sim", 1).replace(b"END " + w, b"END sim"))
        if not d.ok:
            return [E.Viol("reporter", "the report is incomplete: %r" % body[:100])]
        exp = [(u, x) for u in ("/w/a.c", "/w/b.c") for x in on]
        got = [(v.path, v.rule) for v in d.v]
        if not miss_ok:
            oa, ob = W.msdiff(got, exp)
            if oa or ob:
                V.append(E.Viol("rules-run", "ran but not expected %s, expected but not run %s; faults %s" % (oa[:8], ob[:8], r.fired)))
        for p in libs:
            n = sum(loads[d0 + "/" + p.rsplit("/", 1)[1]] for d0 in {x for x in dirs if c["links"].get(x, x) == p.rsplit("/", 1)[0]})
            if n == 0 and not miss_ok:
                V.append(E.Viol("not-loaded", "%s was not loaded" % p))
        if c["list"]:
            out = r.out if not c["toout"] else head
            if c["toout"]:
                out = data[:i]
            ls = out.decode("utf8", "replace").split("\n")
            shown = [l[2:] for l in ls if l.startswith("- ")]
            ran = sorted({ident(x) for _, x in got})
            if sorted(shown) != ran:
                V.append(E.Viol("list", "listed as enabled %s, rules that ran %s" % (sorted(shown), ran)))
            ctx.probe("list")
        return V

    def count(self, c, ctx, r, dirs, real, libs, broken, order, pos):
        P = ctx.probe
        P({0: "ok", 1: "status1", 2: "status2"}.get(r.exit(), "other"))
        if any(p.rsplit("/", 1)[1].startswith(".") for p in list(c["plugins"]) + list(c["files"]) + c["dirs"] if "/w/." not in p and "/home" not in p):
            P("hidden")
        if broken:
            P("unloadable")
        if len(real) > 1:
            P("multi_dir")
        if len(set(dirs)) < len(dirs):
            P("dir_twice")
        if "/w/lnk" in dirs:
            P("linked_dir")
        if "/w/emptyr" in dirs:
            P("empty_dir")
        if "/nowhere/rules" in dirs:
            P("missing_dir")
        if any(v and len(v) > 1 for v in libs.values()):
            P("several_per_lib")
        if len(libs) > 20:
            P("many_entries")
        for f in r.fired:
            P("fault:" + f[0])
        if pos == 0:
            P("reporter_first")
        if pos is not None and pos == len(order) - 1:
            P("reporter_last")
        if c["off"]:
            P("filtered")
        if c["badrep"]:
            P("bad_reporter")

    def shrink(self, c):
        for fl in E.drop_each(c["faults"]):
            yield dict(c, faults=fl)
        for p in list(c["libs"]):
            d, n = p.rsplit("/", 1)
            nc = dict(c, libs={k: v for k, v in c["libs"].items() if k != p}, plugins={k: v for k, v in c["plugins"].items() if k != p},
                      files={k: v for k, v in c["files"].items() if k != p}, rules=[r for r in c["rules"] if r[0] != p],
                      links={k: v for k, v in c["links"].items() if k != p}, dirs=[x for x in c["dirs"] if x != p],
                      orders={k: [x for x in v if k != d or x != n] for k, v in c["orders"].items()})
            yield nc
        if c["off"]:
            yield dict(c, off=[], argv=[a for a in c["argv"] if not a.startswith("-disable-rule")])
        if c["io"] != [0, 0]:
            yield dict(c, io=[0, 0])
        if c["heap"] != scen.DEFAULT_HEAP:
            yield dict(c, heap=scen.DEFAULT_HEAP)
