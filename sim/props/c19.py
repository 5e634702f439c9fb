"""C19: the documentation generator documents every loaded rule, or fails."""
import os, re, time
import engine as E
import scen
import simrun as S
import world as W
from props.c11 import TZS, MARKS

OUT = "/build/oclint-docs/rules"
TEXT = ["Short.", "", "Two\nlines.", "A `link <http://x/?a=b&c>`_ and **bold**.", "=====\n-----", ".. note::\n   text\n\n", "tab\there", "caf\u00e9 \u2603", "x" * 5000, "**Since: 9.9**", "trailing   ", "percent %s %n"]
WORDS = "alpha beta gamma delta epsilon zeta eta theta iota kappa lambda mu nu xi omicron pi rho sigma tau".split()
CATS = ["basic", "cocoa", "convention", "size", "sizes", "Size", "z", "a b", "c++", "1st", "index2", "caf\u00e9", "design", "unused", "migration", "naming"]


def ident(n):
    return "".join(w[0].upper() + w[1:] for w in re.split("[^A-Za-z]+", n) if w)


def attr(n):
    return n


class P(E.Prop):
    ID = "C19"
    DOCGEN = True
    COUNT = {"quick": 4000, "thorough": 60000}
    RULE = ("Seeded cases: up to 60 rules in up to 8 categories from several libraries and directories under seeded listing orders, with seeded documentation texts, thresholds and "
            "suppression; earlier output at the destination; rule directories and libraries that cannot be read; output directories and files that are missing, read-only, directories or "
            "links; then failing, short, torn and interrupted opens, writes and closes of the output at every point, full disks, and seeded clocks, zones and heaps.  The written files "
            "must be exactly the documentation of the loaded rules, or the status must say that they are not.")
    PROBES = ["ok", "failed", "many_rules", "many_categories", "several_dirs", "earlier_output", "no_outdir", "readonly", "out_is_dir", "out_is_link", "fault_write", "fault_open", "fault_close", "fault_load",
              "thresholds", "suppress", "more", "badlib", "no_rules", "bad_option", "filtered", "survived", "twins", "fault_other"]
    REAL = ["main_docgen, option processing, config files, rule loader, core library (built for documentation)", "libclang's option parser", "libstdc++ streams", "glibc time conversion"]
    STUB = E.Prop.STUB + ["rules (scripted libraries that register through oclint's real interface)"]

    def cases(self, rng, ctx, tier, i):
        nd = rng.choice([1, 1, 1, 2, 3])
        dirs = rng.sample(["/w/ra", "/opt/r b", "/w/deep/er/rules", "/srv/x"], nd)
        cats = rng.sample(CATS, rng.choice([1, 1, 2, 3, 5, 8]))
        w = ["%s %s" % (a, b) if b else a for a in WORDS for b in WORDS[:6] + [""] if a != b]
        rng.shuffle(w)
        plugins, rules, names = {}, [], {}
        for d in dirs:
            names[d] = []
            for k in range(rng.choice([0, 1, 2, 3, 8])):
                so = "%s/lib%s%d.so" % (d, rng.choice("abcXYZ_"), k)
                plugins[so] = ["rule", "s"]
                names[d].append(so.rsplit("/", 1)[1])
                for _ in range(rng.choice([0, 1, 1, 1, 2, 5])):
                    n = w.pop()
                    doc = [["since", rng.choice(["0.6", "0.8", "20.11", ""])], ["description", rng.choice(TEXT)], ["example", rng.choice(TEXT)]]
                    if rng.random() < 0.15:
                        doc.append(["file", rng.choice(["XRule.cpp", "ABCRule.cpp"])])
                    if rng.random() < 0.4:
                        doc.append(["suppress", "y"])
                    if rng.random() < 0.3:
                        doc.append(["more", rng.choice([t for t in TEXT if t])])
                    thr = [[x, rng.choice(TEXT)] for x in rng.sample(["MAX", "LONG_LINE", "A", "B_2", "zz"], rng.choice([1, 2, 4]))] if rng.random() < 0.35 else []
                    one = [so, n, rng.choice(cats), rng.randrange(1, 4), [scen.act(a, "doc", msg=b) for a, b in doc] + [scen.act(a, "thr", msg=b) for a, b in thr]]
                    rules.append(one)
                    if rng.random() < 0.03:
                        rules.append([list(one)[0]] + list(one)[1:])
            if rng.random() < 0.3:
                plugins[d + "/.hidden.so"] = ["rule", "s"]
                rules.append([d + "/.hidden.so", "hidden one", rng.choice(cats), 1, [scen.act("since", "doc", msg="9")]])
        c = dict(plugins=plugins, rules=rules, dirs=list(dirs), orders={}, heap=scen.rand_heap(rng), io=scen.rand_io(rng), faults=[], clock=(rng.choice(MARKS + [1700000000] * 8)) * 10**9, files={}, links={}, modes={},
                 tick=rng.choice([0, 1000, 1000, 10**9]), tz=rng.choice(TZS), filt=[], outdir="ok", extra=[])
        for d in dirs:
            o = names[d] + [".hidden.so"]
            rng.shuffle(o)
            c["orders"][d] = o
        if rng.random() < 0.3:
            for x in ["index"] + rng.sample(cats, 1):
                c["files"][OUT + "/" + x + ".rst"] = rng.choice(["old\n", "old line\n" * 5000, ""])
        if rng.random() < 0.2:
            c["filt"] = rng.choice([["-disable-rule=" + ident(rules[0][1])] if rules else [], ["-rule=NoSuchRule"]])
        x = rng.random()
        if x < 0.06:
            c["outdir"] = rng.choice(["none", "readonly", "file"])
        elif x < 0.14:
            f = OUT + "/" + rng.choice(["index"] + cats) + ".rst"
            y = rng.random()
            if y < 0.35:
                c["dirs"].append(f)
                c["files"].pop(f, None)
            elif y < 0.7:
                c["files"][f] = "old\n"
                c["modes"][f] = 0o444
            else:
                c["files"].pop(f, None)
                c["links"][f] = rng.choice(["/w/elsewhere.rst", "/no/where.rst", f.rsplit("/", 1)[1]])
        elif x < 0.18:
            c["plugins"][dirs[0] + "/bad.so"] = ["other", "not a library"]
        elif x < 0.21:
            c["extra"] = rng.choice([["-nosuch"], ["-report-type"], ["-max-priority-1=x"]])
        c["soft"] = False
        yield c
        r = self.run(c, ctx)[0]
        occ = [o for o in scen.occurrences(r.trace) if o[0] in ("openw", "write", "closew", "opendir", "readdir", "dlopen", "open", "stat", "getcwd", "access", "readlink", "close") and o[1] != "<stderr>"]
        outs = [o for o in occ if o[1].startswith(OUT)]
        for _ in range(5):
            if not occ:
                return
            fl = []
            for _ in range(rng.choice([1, 1, 1, 2])):
                o = rng.choice(outs) if outs and rng.random() < 0.75 else scen.pick_op(rng, occ)
                if o[0] == "write" and rng.random() < 0.35:
                    fl.append(dict(op="write", path=o[1], nth=o[2], kind=rng.choice(["EINTR", "short", "short"]), arg=rng.choice([1, 2, 7, 100])))
                elif o[0] == "write" and rng.random() < 0.2:
                    fl.append(dict(op="write", path=o[1], nth=-o[2], kind="ENOSPC", arg=0))
                else:
                    f = scen.fault_at(rng, o)
                    if f["op"] in ("opendir", "open", "stat", "access") and f["kind"] == "ENOENT" and not f["path"].startswith(OUT):  # an absent directory has no rules (C09)
                        f["kind"] = "EACCES"
                    fl.append(f)
            yield dict(c, faults=fl)

    def run(self, c, ctx):
        pl = {p: tuple(k) for p, k in c["plugins"].items() if k[0] == "rule"}
        files = dict(c["files"])
        for p, k in c["plugins"].items():
            if k[0] != "rule":
                files[p] = k[1]
        dirs = list(c["dirs"])
        if c["outdir"] in ("ok", "readonly"):
            dirs.append(OUT)
        elif c["outdir"] == "file":
            files = {p: t for p, t in files.items() if not p.startswith(OUT)}
            files[OUT] = "a file\n"
        else:
            files = {p: t for p, t in files.items() if not p.startswith(OUT)}
        if c["outdir"] in ("none", "file"):
            dirs = [d for d in dirs if not d.startswith(OUT)]
        modes = dict(c["modes"])
        if c["outdir"] == "readonly":
            modes[OUT] = 0o555
        fs = W.fs_of(pl, files, dirs, links=c["links"] if c["outdir"] == "ok" else {}, orders=c["orders"], modes=modes)
        rd = [d for d in c["dirs"] if not d.startswith(OUT)]
        argv = ["oclint-docgen"] + ["-R=" + d for d in rd] + c["filt"] + c["extra"] + ["docgen", "--"]
        before = {p: n.get("data") for p, n in fs.nodes.items()}
        r = ctx.run(S.Run(argv=argv, plugins=pl, scripts=[(a, b, k, p, [tuple(x) for x in acts]) for a, b, k, p, acts in c["rules"]], heap=tuple(c["heap"]), io=tuple(c["io"]), faults=c["faults"],
                          clock=c["clock"], tick=c["tick"], env={"PATH": "/usr/bin:/opt/oclint/bin", "HOME": "/home/u", "TZ": c["tz"]}), fs, trace=True)
        return r, before

    def model(self, c):
        """file name -> text with @ for the date line"""
        live = [r for r in c["rules"] if not r[0].rsplit("/", 1)[1].startswith(".")]
        cats = sorted({r[2] for r in live}, key=lambda s: s.encode())
        out = {"index": "Rule Index\n==========\n\nOCLint |release| includes %d rules.\n\n.. toctree::\n   :maxdepth: 2\n\n" % len(live) + "".join("   %s\n" % k for k in cats) + "\n.. Generated on \0\n"}
        for k in cats:
            n = len(k.encode())
            t = "%s\n%s\n\n" % (k[0].upper() + k[1:] if k[0].isascii() else k, "=" * n)
            for so, name, cat, prio, acts in sorted([r for r in live if r[2] == k], key=lambda r: ident(r[1])):
                d = {a[0]: a[7] for a in reversed(acts) if a[1] == "doc"}
                th = {a[0]: a[7] for a in acts if a[1] == "thr"}
                i = ident(name)
                f = d.get("file") or i + "Rule.cpp"
                t += "%s\n%s\n\n**Since: %s**\n\n**Name: %s**\n\n%s\n\n" % (i, "-" * len(i), d.get("since", ""), name, d.get("description", ""))
                t += "This rule is defined by the following class: `oclint-rules/rules/%s/%s <https://github.com/oclint/oclint/blob/master/oclint-rules/rules/%s/%s>`_\n\n" % (cat, f, cat, f)
                t += "**Example:**\n\n%s\n\n" % d.get("example", "")
                if th:
                    t += "**Thresholds:**\n\n" + "".join("%s\n    %s\n" % (x, th[x]) for x in sorted(th)) + "\n"
                if "suppress" in d:
                    t += "**Suppress:**\n\n.. code-block:: cpp\n\n    __attribute__((annotate(\"oclint:suppress[%s]\")))\n\n" % attr(name)
                if d.get("more"):
                    t += d["more"] + "\n"
            out[k] = t + "\n.. Generated on \0\n"
        return out, len(live)

    def dates(self, c, r):
        ts = [int(t[4]) // 10**9 for t in r.trace] + [c["clock"] // 10**9]
        old = os.environ.get("TZ")
        os.environ["TZ"] = c["tz"]
        time.tzset()
        try:
            return {time.asctime(time.localtime(t)) for x in set(ts) for t in (x, x + 1, x + 2)}
        finally:
            if old is None:
                os.environ.pop("TZ")
            else:
                os.environ["TZ"] = old
            time.tzset()

    def execute(self, c, ctx):
        r, before = self.run(c, ctx)
        V = []
        want, n = self.model(c)
        fired = [f for f in r.fired if f[2] not in ("short", "EINTR", "delay")] or [f for f in r.fired if f[0] != "write"]
        if r.sig:
            return [E.Viol("crash", "ended with %s: %r (faults %s)" % (r.exit(), r.err[-300:], r.fired))]
        own = {OUT + "/" + k + ".rst" for k in want}
        # nothing else is touched
        allow = set(own) | {c["links"][p] for p in own if p in c["links"]}
        other = sorted(p for k, p in r.touched if p not in allow)
        if other:
            V.append(E.Viol("other-file", "changed %s" % other[:5]))
        if r.exit() == 0:
            if n == 0:
                V.append(E.Viol("claims", "status 0 without any rule"))
            if c["outdir"] in ("none", "file"):
                V.append(E.Viol("claims", "status 0, but the output directory is not usable (%s)" % c["outdir"]))
                return V
            dates = self.dates(c, r)
            for k in sorted(want):
                p = OUT + "/" + k + ".rst"
                p = c["links"].get(p, p)
                try:
                    b = r.fs.read(p)
                except Exception:
                    b = None
                b = None if b is None else b.decode("utf8", "surrogateescape")
                m = None if b is None else re.search(r"\n\.\. Generated on ([^\n]*)\n(\n?)\Z", b)
                body = b if not m else b[:m.start(1)] + "\0\n"
                if b is None:
                    V.append(E.Viol("missing-file", "status 0, but there is no %s (faults %s)" % (p, r.fired)))
                elif body != want[k] + ("" if m else "") or not m:
                    a = next((x for x in range(min(len(body), len(want[k]))) if body[x] != want[k][x]), min(len(body), len(want[k])))
                    V.append(E.Viol("wrong-file", "%s is not the documentation of the loaded rules (faults %s): at %d %r instead of %r" % (p, r.fired, a, body[a:a + 200], want[k][a:a + 200])))
                elif m.group(1) not in dates:
                    V.append(E.Viol("wrong-date", "%s says generated on %r, the clock showed %s" % (p, m.group(1), sorted(dates)[:3])))
        else:
            if not r.err.strip():
                V.append(E.Viol("silent", "status %s without a message (faults %s)" % (r.exit(), r.fired)))
            bad = n == 0 or c["outdir"] != "ok" or c["extra"] or any(k[0] != "rule" for k in c["plugins"].values()) or any(p in own for p in c["dirs"]) or \
                any(not m & 0o200 for p, m in c["modes"].items() if p in own) or any(p in own for p in c["links"])
            if not bad and not fired:
                V.append(E.Viol("status", "nothing is wrong, status %s: %r" % (r.exit(), r.err[-300:])))
            loadbad = n == 0 or c["extra"] or any(k[0] != "rule" for k in c["plugins"].values())
            if loadbad and r.touched and not fired:
                V.append(E.Viol("wrote", "rules were not loaded (status %s), but %s were changed" % (r.exit(), sorted({p for k, p in r.touched})[:3])))
        self.count(c, r, ctx, want, n, fired)
        return V

    def count(self, c, r, ctx, want, n, fired):
        P = ctx.probe
        P("ok" if r.exit() == 0 else "failed")
        if fired and r.exit() == 0:
            P("survived")
        docs = {a[0] for x in c["rules"] for a in x[4] if a[1] == "doc"}
        for p, b in (("many_rules", n > 20), ("many_categories", len(want) > 5), ("several_dirs", len(c["orders"]) > 1), ("earlier_output", any(p.startswith(OUT + "/") for p in c["files"])),
                     ("no_outdir", c["outdir"] in ("none", "file")), ("readonly", c["outdir"] == "readonly" or c["modes"]), ("out_is_dir", any(p.startswith(OUT + "/") for p in c["dirs"])), ("out_is_link", c["links"]),
                     ("fault_write", any(f[0] == "write" for f in r.fired)), ("fault_open", any(f[0] == "openw" for f in r.fired)), ("fault_close", any(f[0] == "closew" for f in r.fired)),
                     ("fault_load", any(f[0] in ("opendir", "readdir", "dlopen") for f in r.fired)), ("thresholds", any(a[1] == "thr" for x in c["rules"] for a in x[4])),
                     ("suppress", "suppress" in docs), ("more", "more" in docs), ("badlib", any(k[0] != "rule" for k in c["plugins"].values())), ("no_rules", n == 0), ("bad_option", c["extra"]), ("filtered", c["filt"]),
                     ("twins", len({(x[1], x[2]) for x in c["rules"]}) < len(c["rules"])), ("fault_other", any(f[0] in ("open", "stat", "getcwd", "access", "readlink", "close") for f in r.fired))):
            if b:
                P(p)

    def shrink(self, c):
        for x in E.drop_each(c["rules"]):
            yield dict(c, rules=x)
        for x in E.drop_each(c["faults"]):
            yield dict(c, faults=x)
        for k, v in (("filt", []), ("io", [0, 0]), ("tz", "UTC0"), ("tick", 1000), ("files", {}), ("heap", [0, 0, 0, 0, 0, 0, 1]), ("links", {}), ("modes", {}), ("clock", 1700000000 * 10**9)):
            if c[k] != v:
                yield dict(c, **{k: v})
        for j, x in enumerate(c["rules"]):
            for a in range(len(x[4])):
                yield dict(c, rules=c["rules"][:j] + [x[:4] + [x[4][:a] + x[4][a + 1:]]] + c["rules"][j + 1:])
