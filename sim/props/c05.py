"""C05: the exit status follows the documented contract in every situation."""
import json, re
import engine as E
import scen
import simrun as S
import world as W
import reports as R

INTS = ["0", "1", "2", "3", "4", "5", "7", "10", "20", "100", "2147483647", "-1"]
BADINTS = ["abc", "2147483648", "1.5", "99999999999999999999", "--", "1x"]
DEFMAX = [0, 10, 20]
VARIANTS = ["plain"] * 12 + ["norulesdir", "emptyrules", "hiddenrules", "badrule", "nosuchreport", "badreporter", "norepdir", "throwrule", "throwreport",
                             "badopt", "badint", "badcmddir", "outisdir", "outnodir", "nosource", "missing", "nodb",
                             "allrulesoff", "compdb", "hashinclude", "emptyfile"]


class P(E.Prop):
    ID = "C05"
    COUNT = {"quick": 4000, "thorough": 30000}
    RULE = ("Seeded cases: units that compile, warn or fail, scripted rules of the three priorities with violation counts around the "
            "maxima, maxima from the command line or configuration files, and each failure situation (no rules, bad plugin, no such "
            "reporter, throwing rule or reporter, bad options, missing directory, unwritable output); the status is compared with a "
            "model of the contract, first without faults and then with faults at operations the fault-free run performed.")
    PROBES = ["exit:%d" % k for k in range(8)] + ["variant:" + v for v in sorted(set(VARIANTS))] + ["boundary", "both_error_and_excess",
              "fault_survived", "fault_failed", "global", "dups_matter", "signal_free"]
    REAL = E.Prop.REAL + ["the real reporters in part of the cases"]
    STUB = E.Prop.STUB + ["rules (scripted)", "one scripted reporter that records the results"]

    # ------------------------------------------------------------ generation
    def cases(self, rng, ctx, tier, i):
        var = rng.choice(VARIANTS)
        n = rng.choice([1, 1, 2, 3])
        kinds, files, units = {}, {}, []
        for k in range(n):
            p = "/w/u%d.c" % k
            kind = rng.choice(["good"] * 5 + ["warn"] * 2 + ["bad", "badinc"])
            if var == "missing" and k == 0:
                kind = "missing"
            if var == "emptyfile" and k == 0:
                kind = "empty"
            kinds[p] = kind
            if kind == "good":
                files[p] = "int f%d(int a) { return a; }\n" % k
            elif kind == "warn":
                files[p] = "#warning w%d\nint f%d(int a) { return a; }\n" % (k, k)
            elif kind == "bad":
                files[p] = "int f%d( { return;\n" % k
            elif kind == "badinc":
                files[p] = '#include "nothere.h"\nint f%d;\n' % k
            elif kind == "empty":
                files[p] = rng.choice(["", "\n", " "])
            units.append(p)
        if rng.random() < 0.2:
            units.append(rng.choice(units))
        glob = rng.random() < 0.25
        allow = rng.random() < 0.3
        maxes = [None, None, None]
        layers = {}
        argv = ["oclint"]
        for q in range(3):
            x = rng.random()
            if x < 0.5:
                maxes[q] = rng.choice(INTS)
                argv.append("%s%s=%s" % (rng.choice(["-", "--"]), "max-priority-%d" % (q + 1), maxes[q]))
            elif x < 0.65:
                maxes[q] = rng.choice(INTS)
                layers.setdefault(rng.choice(["/w/.oclint", "/home/u/.oclint", "/opt/oclint/etc/oclint"]), []).append(
                    "max-priority-%d: %s" % (q + 1, maxes[q]))
        for p, ls in layers.items():
            files[p] = "\n".join(ls) + "\n"
        lim = [DEFMAX[q] if maxes[q] is None else int(maxes[q]) for q in range(3)]
        rules = []
        for k in range(rng.choice([1, 2, 3])):
            pr = rng.choice([1, 2, 3])
            acts = []
            want = rng.choice([0, 1, lim[pr - 1], lim[pr - 1] + 1, rng.randrange(0, 25), rng.randrange(0, 5)])
            if not 0 <= want <= 130:
                want = rng.randrange(0, 9)
            for j in range(want):
                acts.append(scen.act(rng.choice(["*", units[0]]) if rng.random() < 0.4 else units[0], "v", rng.choice(["", "", "/w/s.h"]),
                                     1 + j // (2 if rng.random() < 0.1 else 1), 1, 1, 1, "m"))
            rules.append(["", "rule %s" % "abc"[k], "cat", pr, acts])
        fmt = rng.choice(["sim", "sim", "sim", "text", "json", "xml", "pmd", "html", "xcode"])
        c = dict(var=var, kinds=kinds, files=files, rules=rules, env={"HOME": "/home/u", "PATH": "/opt/oclint/bin", "TZ": "UTC0"}, dirs=[],
                 heap=scen.rand_heap(rng), io=[0, 0], plugins={}, faults=[], fmt=fmt, glob=glob, allow=allow, lim=lim, units=units,
                 dest=rng.choice(["out", "/w/out", "", ""]), orders={})
        argv += ["-report-type", fmt]
        if c["dest"]:
            argv += ["-o", c["dest"]]
        if glob:
            argv.append("-enable-global-analysis")
        if allow:
            argv.append("-allow-duplicated-violations")
        tail = ["--"]
        k = len(rules)
        if var == "norulesdir":
            argv.append("-R=/nowhere/rules")
        elif var == "emptyrules":
            argv.append("-R=/w/none")
            c["dirs"].append("/w/none")
        elif var == "hiddenrules":
            argv.append("-R=/w/none")
            c["dirs"].append("/w/none")
            c["plugins"]["/w/none/.libx.so"] = ["rule", "s"]
        elif var == "badrule":
            c["plugins"][W.RULES + "/libzz.so"] = ["bad", ""]
        elif var == "nosuchreport":
            argv[argv.index("-report-type") + 1] = rng.choice(["nope", "Text", "JSON", "xml ", "tex", ""])
        elif var == "badreporter":
            c["plugins"][W.REPORTERS + "/libAAbad.so"] = ["bad", ""]
            c["orders"][W.REPORTERS] = ["libAAbad.so"]
        elif var == "norepdir":
            c["noreps"] = True
        elif var == "throwrule":
            c["rules"].append(["", "thrower", "cat", 1, [scen.act(rng.choice(units + ["*"]), "throw", msg="bang")]])
        elif var == "throwreport":
            c["plugins"][W.REPORTERS + "/libThrow.so"] = ["reporter", "throwing"]
            argv[argv.index("-report-type") + 1] = "throwing"
        elif var == "badopt":
            argv.append(rng.choice(["-no-such-option", "-report-typ=text", "--max-priority-4=1"]))
        elif var == "badint":
            argv = [a for a in argv if "max-priority" not in a] + ["-max-priority-%d=%s" % (rng.randrange(1, 4), rng.choice(BADINTS))]
        elif var == "outisdir":
            argv = [a for a in argv if a not in ("-o", c["dest"]) or a == ""] + ["-o", "/w/dd"]
            c["dest"] = "/w/dd"
            c["dirs"].append("/w/dd")
        elif var == "outnodir":
            argv = [a for a in argv if a not in ("-o", c["dest"]) or a == ""] + ["-o", "/w/not/there"]
            c["dest"] = "/w/not/there"
        elif var == "nosource":
            c["units"] = units = []
        elif var == "badcmddir":
            c["files"]["/w/compile_commands.json"] = json.dumps([{"directory": "/gone" if u == units[-1] else "/w", "file": u,
                                                                  "arguments": ["cc", "-c", u]} for u in sorted(set(units))])
            tail = ["-p", "/w"]
        elif var == "compdb":
            c["files"]["/w/compile_commands.json"] = json.dumps([{"directory": "/w", "file": u, "arguments": ["cc", "-c", u]} for u in sorted(set(units))])
            tail = rng.choice([["-p", "/w"], []])
        elif var == "nodb":
            tail = ["-p", "/w/nodir"]
        elif var == "allrulesoff":
            for r in rules:
                argv.append("-disable-rule=" + "".join(w.capitalize() for w in r[1].split()))
        elif var == "hashinclude":
            c["files"]["/w/deep.h"] = "#error in header\n"
            c["files"][units[0]] = '#include "deep.h"\n' + c["files"].get(units[0], "")
            kinds[units[0]] = "bad"
        # relative names: resolved by the tool itself (unless without a database option, then also by libclang's search for one)
        names = [u[3:] if u.startswith("/w/") and rng.random() < 0.3 else u for u in units]
        c["relauto"] = tail == [] and any(not x.startswith("/") for x in names)
        c["argv"] = argv + names + tail
        yield c
        ref = self.one(c, ctx, [], trace=True)
        occ = [o for o in scen.occurrences(ref.trace) if o[0] not in ("clock", "exit") and not o[1].startswith("<stderr")]
        if not occ:
            return
        for _ in range(3):
            fl = [scen.fault_at(rng, scen.pick_op(rng, occ))]
            if rng.random() < 0.25:
                fl.append(scen.fault_at(rng, scen.pick_op(rng, occ)))
            yield dict(c, faults=fl)

    def one(self, case, ctx, faults, trace=False):
        run, fs = scen.build_world(self.built, dict(case, faults=faults))
        return ctx.run(run, fs, trace=trace)

    # ------------------------------------------------------------ model
    def expect(self, c):
        """-> (set of statuses, counts per priority or None, errors?)"""
        v = c["var"]
        if v in ("badopt", "badint"):
            return {7}, None, None
        if v == "nosource":
            return {7}, None, None
        if v in ("norulesdir", "emptyrules", "hiddenrules", "badrule"):
            return {1}, None, None
        if v in ("nosuchreport", "badreporter", "norepdir"):
            return {2}, None, None
        if v == "badcmddir":
            return {3}, None, None
        ok = [u for u in c["units"] if c["kinds"][u] in ("good", "warn", "empty")]
        if v == "throwrule":
            m = c["rules"][-1][4][0][0]
            if m in ok or (m == "*" and ok):
                return {3}, None, None
        if v in ("throwreport", "outisdir", "outnodir"):
            return {4}, None, None
        err = any(c["kinds"][u] in ("bad", "badinc", "missing") for u in c["units"])
        seen, cnt = set(), [0, 0, 0]
        dups = False
        if v != "allrulesoff":
            for ri, r in enumerate(c["rules"]):
                for u in ok:
                    for a in r[4]:
                        if a[1] == "v" and a[0] in ("*", u):
                            key = (ri, a[2] or u, tuple(a[3:]))
                            if key in seen:
                                dups = True
                                if not c["allow"]:
                                    continue
                            seen.add(key)
                            cnt[r[3] - 1] += 1
        over = any(cnt[q] > c["lim"][q] for q in range(3))
        self.dups = dups
        return {6 if err else 5 if over else 0}, cnt, err

    def out(self, c, r):
        d = c["dest"]
        return r.out if not d else r.fs.read(d if d.startswith("/") else "/w/" + d)

    def execute(self, c, ctx):
        V = []
        r = self.one(c, ctx, c["faults"])
        ex = r.exit()
        ctx.probe("variant:" + c["var"])
        ctx.probe("exit:%s" % ex)
        if r.note & 2:
            return [E.Viol("hang", "the run does not end (over %d operations); faults %s" % (r.ops, r.fired))]
        if r.sig or ex not in range(8):
            auto = c.get("relauto") and [f[0] for f in r.fired] and any(f[0] == "getcwd" for f in r.fired) and not any(
                x[0] == "opendir" for x in self.one(c, ctx, c["faults"], trace=True).trace)
            return [E.Viol("crash-libtooling" if auto else "crash", "the run ended with %s; faults %s; stderr %r" % (ex, r.fired, r.err[-400:]))]
        ctx.probe("signal_free")
        if c["glob"]:
            ctx.probe("global")
        want, cnt, err = self.expect(c)
        if not r.fired:
            if ex not in want:
                V.append(E.Viol("status", "exit status %s, the contract says %s: %s; stderr %r" % (ex, sorted(want), self.sit(c, cnt, err), r.err[-300:])))
            if cnt and any(cnt[q] in (c["lim"][q], c["lim"][q] + 1) for q in range(3)):
                ctx.probe("boundary")
            if cnt and err and any(cnt[q] > c["lim"][q] for q in range(3)):
                ctx.probe("both_error_and_excess")
            if cnt and self.dups:
                ctx.probe("dups_matter")
        if ex in (1, 2, 3, 4, 7) and not r.err:
            V.append(E.Viol("silent-failure", "exit status %s without a message; faults %s" % (ex, r.fired)))
        if ex in scen.CLAIMS:
            if c["fmt"] == "sim":
                data = self.out(c, r)
                d = W.Dump(data or b"")
                if not d.ok:
                    V.append(E.Viol("no-report", "exit status %s without a complete report; faults %s" % (ex, r.fired)))
                else:
                    names = {x[1]: x[3] for x in c["rules"]}
                    n = [0, 0, 0]
                    for v in d.v:
                        n[names[v.rule] - 1] += 1
                    over = any(n[q] > c["lim"][q] for q in range(3))
                    w = 6 if d.e else 5 if over else 0
                    cfgfault = any(f[1].endswith("oclint") for f in r.fired) and any(p.endswith("oclint") for p in c["files"])
                    if ex != w and not cfgfault:
                        V.append(E.Viol("status-vs-report", "exit status %s, but the report has %d errors and %s violations with maxima %s; "
                                        "faults %s" % (ex, len(d.e), n, c["lim"], r.fired)))
                    if not r.fired and cnt is not None and n != cnt:
                        V.append(E.Viol("counts", "reported violations per priority %s, expected %s" % (n, cnt)))
            has5 = b"violations exceed threshold" in r.err
            if has5 != (ex == 5):
                V.append(E.Viol("threshold-message", "exit status %s, threshold message %s" % (ex, "present" if has5 else "missing")))
            elif ex == 5 and not r.fired:
                m = re.search(rb"P1=(-?\d+)\[(-?\d+)\] P2=(-?\d+)\[(-?\d+)\] P3=(-?\d+)\[(-?\d+)\]", r.err)
                w = [x for q in range(3) for x in (cnt[q], c["lim"][q])] if cnt else None
                if w and (not m or [int(x) for x in m.groups()] != w):
                    V.append(E.Viol("threshold-message", "the message says %r, expected counts and maxima %s" % (r.err[-120:], w)))
        if r.fired:
            ctx.probe("fault_survived" if ex in scen.CLAIMS else "fault_failed")
            # a status says which part failed: it must be the part that met the fault (or that failed without it)
            paths = [f[1] for f in r.fired]
            if ex not in want:
                def under(*ps):
                    return any(p == q or p.startswith(q + "/") or q.startswith(p.rstrip("/") + "/") for p in paths for q in ps)
                inst = ["/opt/oclint/bin", "/usr/bin"]        # finding the installation
                roots = [W.RULES, "/w/none", "/nowhere/rules"] + inst
                dest = c["dest"] and (c["dest"] if c["dest"].startswith("/") else "/w/" + c["dest"]) or "<stdout>"
                if ex == 1 and not under(*roots):
                    V.append(E.Viol("wrong-part", "status 1 (rules not found), but the faults were %s" % r.fired))
                if ex == 2 and not under(W.REPORTERS, *inst):
                    V.append(E.Viol("wrong-part", "status 2 (reporter not found), but the faults were %s" % r.fired))
                if ex == 4 and not under(dest) and not any(f[0] == "getcwd" for f in r.fired):
                    V.append(E.Viol("wrong-part", "status 4 (error while reporting), but the faults were %s" % r.fired))
        return V

    def sit(self, c, cnt, err):
        return "situation %s, units %s, violations per priority %s, maxima %s, compiler errors %s" % (
            c["var"], [c["kinds"].get(u) for u in c["units"]], cnt, c["lim"], err)

    def shrink(self, c):
        yield from scen.shrink_common(c)
        if len(c["units"]) > 1:
            for u in sorted(set(c["units"])):
                nu = [x for x in c["units"] if x != u]
                if nu and "compile_commands.json" not in str(sorted(c["files"])):
                    yield dict(c, units=nu, argv=[a for a in c["argv"] if a not in (u, u[3:])])
        for i in range(len(c["rules"])):
            if len(c["rules"]) > 1 and c["var"] not in ("throwrule", "allrulesoff"):
                yield dict(c, rules=c["rules"][:i] + c["rules"][i + 1:])
