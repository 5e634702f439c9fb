"""C06: configuration layers combine with the documented precedence."""
import collections, json, math, re
import engine as E
import scen
import simrun as S
import world as W

KEYS = ["LONG_LINE", "SHORT", "K", "a.b", "with space", "MIN=LEN", "LONG_LINES", "LONG", "long_line", "KK", "SHORT "]
VALUES = ["1", "100", "0", "-5", "007", "3.25", "1e3", "text", "two words", "a=b", "x:y", "# no comment", "it's", 'say "hi"', "é漢", "true",
          "back\\slash", "tab\there", "[x]", "{y}", "  padded  ", "2147483647", "v" * 40, "w" * 300, "%s", "*star", "&amp", "!bang", "-", "", ""]
LONGN = "unnecessary other statement in a directory that is covered by some enumeration"
OUTS = ["o1", "sub/o2", "/w/o3", "/tmp/o4", "-", "o with space", "o5.xml"]
TYPES = ["simA", "simB", "sim"]
RP = ["/w/rp1", "rp2", "./rp3", "/opt/other rules", "/w/rp1/../rp2"]
DIRS = {"/w/rp1": 0, "rp2": 1, "./rp3": 2, "/opt/other rules": 3, "/w/rp1/../rp2": 1}
RDIR = ["/w/rp1", "/w/rp2", "/w/rp3", "/opt/other rules", W.RULES]
LAYERS = ["etc", "home", "proj"]


def ident(n):
    return "".join(w[:1].upper() + w[1:] for w in n.split(" "))


def quote(rng, s, force=False):
    plain = re.fullmatch(r"[A-Za-z0-9_./][A-Za-z0-9_./\\=-]*", s) is not None and not force
    st = rng.randrange(3)
    if st == 0 and plain:
        return s
    if st == 1 and "\n" not in s and "\t" not in s:
        return "'" + s.replace("'", "''") + "'"
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t") + '"'


def seq(rng, items):
    if not items:
        return " []"
    if rng.random() < 0.4:
        return " [" + ", ".join(quote(rng, x) for x in items) + "]"
    ind = rng.choice(["  ", "    ", ""])
    return "".join("\n%s- %s" % (ind, quote(rng, x)) for x in items)


def render(rng, l):
    parts = []
    for k in sorted(l):
        v = l[k]
        if k in ("rules", "disable-rules", "rule-paths"):
            parts.append("%s:%s" % (k, seq(rng, v)))
        elif k == "rule-configurations":
            t = "rule-configurations:"
            flow = rng.random() < 0.2
            if flow:
                t += " [" + ", ".join("{key: %s, value: %s}" % (quote(rng, a, True), quote(rng, b, True)) for a, b in v) + "]"
            else:
                for a, b in v:
                    x, y = "key: " + quote(rng, a), "value: " + quote(rng, b)
                    if rng.random() < 0.2:
                        x, y = y, x
                    t += "\n  - %s\n    %s" % (x, y)
            parts.append(t)
        elif isinstance(v, bool):
            parts.append("%s: %s" % (k, "true" if v else "false"))
        elif isinstance(v, int):
            parts.append("%s: %d" % (k, v))
        else:
            parts.append("%s: %s" % (k, quote(rng, v)))
    rng.shuffle(parts)
    out = []
    if rng.random() < 0.3:
        out.append("---")
    pad = rng.choice([0, 0, 0, 1, 300, 4000])
    for p in parts:
        if rng.random() < 0.3:
            out.append("# comment: [1")
        if pad:
            out.append("\n".join("# padding %06d" % j for j in range(pad)))
        out.append(p)
    t = "\n".join(out)
    if rng.random() < 0.9:
        t += "\n"
    return t


class P(E.Prop):
    ID = "C06"
    COUNT = {"quick": 6000, "thorough": 40000}
    RULE = ("Seeded cases: random subsets of the three configuration files and the command line set output, report type, maxima, "
            "switches, rule paths, rule selection and rule parameters (all YAML quoting styles, files from a few bytes to hundreds of "
            "kilobytes); scripted rules report the parameter values they see in every unit, scripted reporters and rule directories "
            "make every other setting visible; compared with a small model of the layering, under heap fills, short and failing reads.")
    PROBES = ["layer:etc", "layer:home", "layer:proj", "layer:cli", "override:output", "override:type", "override:max", "override:bool",
              "override:param", "rulepaths:many", "rulepaths:none", "enable_then_disable", "disable_then_enable", "big_config",
              "quoted", "nohome", "home_is_cwd", "read_fault", "layer_lost", "global", "analyzer", "dups"]
    STUB = E.Prop.STUB + ["rules and reporters (scripted, to show the settings they get)"]

    def layer(self, rng, rich, cli=False):
        l = {}
        if rng.random() < 0.35 * rich:
            l["output"] = rng.choice(OUTS)
        if rng.random() < 0.4 * rich:
            l["report-type"] = rng.choice(TYPES)
        for q in (1, 2, 3):
            if rng.random() < 0.4 * rich:
                l["max-priority-%d" % q] = rng.choice([0, 1, 2, 3, 5, 50, 1000, 1000, -1, -5, 2147483647])
        for k in ("enable-clang-static-analyzer", "allow-duplicated-violations", "enable-global-analysis"):
            if rng.random() < (0.3 if k != "enable-clang-static-analyzer" else 0.15) * rich:
                l[k] = rng.random() < 0.6
        if rng.random() < 0.4 * rich:
            l["rule-paths"] = [rng.choice(RP) for _ in range(rng.choice([0, 1, 1, 2, 5]))]
        if rng.random() < 0.35 * rich:
            l["rules"] = [ident(rng.choice(self.names)) for _ in range(rng.choice([1, 2, 3, 8]))]
        if rng.random() < 0.35 * rich:
            l["disable-rules"] = [ident(rng.choice(self.names)) for _ in range(rng.choice([1, 1, 2, 5]))]
        if rng.random() < 0.6 * rich:
            l["rule-configurations"] = [[rng.choice(KEYS), rng.choice(VALUES)] for _ in range(rng.choice([1, 2, 3, 4, 5, 25]))]
        return l

    names = ["probe one", "probe two", "not loaded", "other dir b", "other dir c", LONGN, "extra", "extra more", LONGN + " twice"]

    def cases(self, rng, ctx, tier, i):
        rich = rng.choice([0.5, 1, 1, 1.6])
        L = {}
        for n in LAYERS:
            if rng.random() < 0.7:
                L[n] = self.layer(rng, rich)
        cli = self.layer(rng, rich)
        texts = {n: render(rng, L[n]) for n in L}
        cwd = "/home/u" if rng.random() < 0.05 else "/w"
        if cwd == "/home/u" and "home" in L:
            L["proj"] = L["home"]
            texts["proj"] = texts["home"]
        elif cwd == "/home/u" and "proj" in L:
            L["home"], texts["home"] = L["proj"], texts["proj"]
        home = rng.choice(["/home/u"] * 8 + ["", None, "/nohome", "/home/u/"])
        if cwd == "/home/u":
            home = "/home/u"
        if home in ("", None, "/nohome"):
            L.pop("home", None)
            texts.pop("home", None)
        ca = []
        for k in sorted(cli):
            v = cli[k]
            d = rng.choice(["-", "--"])
            if k == "rules":
                ca += [d + "rule=" + x for x in v]
            elif k == "disable-rules":
                ca += [d + "disable-rule=" + x if rng.random() < 0.6 else [d + "disable-rule", x] for x in v]
            elif k == "rule-paths":
                ca += ["-R" + x if rng.random() < 0.5 else "-R=" + x if False else "-R" + x for x in v]
            elif k == "rule-configurations":
                ca += ["%src=%s=%s" % (d, a, b) if rng.random() < 0.6 else [d + "rc", "%s=%s" % (a, b)] for a, b in v]
            elif isinstance(v, bool):
                ca.append(d + k + ("=false" if not v else rng.choice(["", "=true", "=1"])))
            elif k == "output":
                ca.append([d + "o", v] if rng.random() < 0.5 else d + "o=" + v)
            else:
                ca.append([d + k, str(v)] if rng.random() < 0.5 else "%s%s=%s" % (d, k, v))
        # keep the order of repeated options, shuffle the rest
        first = [x for x in ca if isinstance(x, str) and not re.match(r"--?(rule|disable-rule|rc|R)", x)]
        rest = [x for x in ca if x not in first]
        rng.shuffle(first)
        flat = []
        for x in first + rest:
            flat += x if isinstance(x, list) else [x]
        yield from self.variants(rng, dict(layers=L, texts=texts, cli=cli, args=flat, cwd=cwd, home=home, heap=scen.rand_heap(rng),
                                           io=[rng.choice([0, 0, 1, 7, 512]), 0], faults=[], dash=rng.random() < 0.5), ctx)

    def variants(self, rng, c, ctx):
        yield c
        if c["texts"] and rng.random() < 0.5:
            n = rng.choice(sorted(c["texts"]))
            p = self.lpath(n, c["cwd"])
            if rng.random() < 0.5:
                f = [dict(op="read", path=p, nth=rng.randrange(1, 4), kind="short", arg=rng.randrange(1, 9))]
            else:
                f = [dict(op=rng.choice(["open", "read", "fstat", "mmap"]), path=p, nth=1, kind=rng.choice(["EIO", "EACCES", "ENOMEM", "ENOENT"]), arg=0)]
            yield dict(c, faults=f)

    def lpath(self, n, cwd):
        return {"etc": "/opt/oclint/etc/oclint", "home": "/home/u/.oclint", "proj": cwd + "/.oclint"}[n]

    SRC = ["int a0(void) { int *p = 0; return *p; }\n", "int a1(int x) { return x; }\n"]

    def rules(self, c):
        """plugin, name, directory index, priority"""
        return [("probe one", 0, 1), ("probe two", 0, 2), ("other dir b", 1, 3), ("other dir c", 2, 2), (LONGN, 3, 1),
                ("extra", 4, 3), ("extra more", 4, 1)]

    def world(self, c):
        rules = []
        for k, (n, d, pr) in enumerate(self.rules(c)):
            acts = []
            for j, key in enumerate(KEYS):
                for t in ("cfgs", "cfgi", "cfgd", "cfgh"):
                    acts.append(scen.act("*", t, "", 10 + j, {"cfgs": 1, "cfgi": 2, "cfgd": 3, "cfgh": 4}[t], 1, 1, key))
            acts.append(scen.act("*", "cwd", "", 50, 1, 1, 1))
            acts += [scen.act("*", "v", "", 60, 1, 1, 1, "twice")] * 2
            rules.append(["%s/lib%d.so" % (RDIR[d], k), n, "c", pr, acts])
        files = {"/w/d0/s.c": self.SRC[0], "/w/d1/s.c": self.SRC[1],
                 "/w/compile_commands.json": json.dumps([{"directory": "/w/d%d" % k, "file": "/w/d%d/s.c" % k,
                                                          "arguments": ["cc", "-c", "/w/d%d/s.c" % k]} for k in (0, 1)])}
        for n, t in c["texts"].items():
            files[self.lpath(n, c["cwd"])] = t
        env = {"PATH": "/opt/oclint/bin", "TZ": "UTC0"}
        if c["home"] is not None:
            env["HOME"] = c["home"]
        dirs = ["/w/sub", "/home/u/sub", "/opt/other rules", "/w/rp1", "/w/rp2", "/w/rp3"]
        links = {}
        if c["cwd"] != "/w":
            links = {"/home/u/rp2": "/w/rp2", "/home/u/rp3": "/w/rp3"}
        a = ["oclint"] + c["args"] + ["-p", "/w", "/w/d0/s.c", "/w/d1/s.c"]
        return dict(files=files, dirs=dirs, links=links, rules=rules, argv=a, env=env, cwd=c["cwd"], reps=[], heap=c["heap"], io=c["io"],
                    faults=c["faults"], plugins={W.REPORTERS + "/libA.so": ["reporter", "simA"], W.REPORTERS + "/libB.so": ["reporter", "simB"]})

    def effective(self, c, drop=None):
        seqn = [c["layers"][n] for n in LAYERS if n in c["layers"] and n != drop] + [c["cli"]]
        eff = {"output": "-", "report-type": "text", "max-priority-1": 0, "max-priority-2": 10, "max-priority-3": 20,
               "enable-clang-static-analyzer": False, "allow-duplicated-violations": False, "enable-global-analysis": False}
        paths, en, dis, params = [], set(), set(), {}
        cli_paths = c["cli"].get("rule-paths", [])
        for l in seqn:
            for k in eff:
                if k in l:
                    eff[k] = l[k]
            paths += l.get("rule-paths", [])
            for r in l.get("rules", []):
                en.add(r)
                dis.discard(r)
            for r in l.get("disable-rules", []):
                dis.add(r)
                en.discard(r)
            for k, v in l.get("rule-configurations", []):
                if l is c["cli"]:
                    k, v = (k + "=" + v).rsplit("=", 1)
                params[k] = v
        return eff, paths, en, dis, params

    def predict(self, c, drop=None):
        eff, paths, en, dis, params = self.effective(c, drop)
        if paths:
            dset = {DIRS[p] for p in paths}
        else:
            dset = {4}
        loaded = [(n, pr) for n, d, pr in self.rules(c) if d in dset]
        on = [(n, pr) for n, pr in loaded if (not en or ident(n) in en) and ident(n) not in dis]
        if eff["report-type"] not in TYPES:
            return 2, None, None, None, None
        vs, cnt = [], {1: 0, 2: 0, 3: 0}
        for n, pr in on:
            for u in (0, 1):
                path = "/w/d%d/s.c" % u
                one = []
                for j, key in enumerate(KEYS):
                    v = params.get(key)
                    one.append((10 + j, 1, "S=" + (v if v is not None else "<unset>")))
                    one.append((10 + j, 2, "I=%d" % (-77 if v is None else atoi(v))))
                    one.append((10 + j, 3, "D=%f" % (-7.5 if v is None else atof(v))))
                    one.append((10 + j, 4, "H=%d" % (v is not None)))
                one.append((50, 1, "CWD /w/d%d" % (1 if eff["enable-global-analysis"] else u)))
                one += [(60, 1, "twice")] * (2 if eff["allow-duplicated-violations"] else 1)
                for l, col, m in one:
                    vs.append(W.V(path, l, col, 1, 1, n, m))
                    cnt[pr] += 1
        over = any(cnt[q] > eff["max-priority-%d" % q] for q in (1, 2, 3))
        msg = " ".join("P%d=%d[%d]" % (q, cnt[q], eff["max-priority-%d" % q]) for q in (1, 2, 3)) if over else None
        o = eff["output"]
        dest = None if o == "-" else o if o.startswith("/") else c["cwd"] + "/" + o
        return (5 if over else 0), vs, msg, dest, eff

    def check(self, c, r, pred):
        ex, vs, msg, dest, eff = pred
        if r.exit() != ex:
            return "exit status %s, expected %s (stderr %r)" % (r.exit(), ex, r.err[-200:])
        if ex == 2:
            return None
        data = r.out if dest is None else r.fs.read(dest)
        if data is None:
            return "no report at %s (written: %s)" % (dest, sorted({p for _, p in r.touched}))
        t = data[:40]
        if not t.startswith(b"BEGIN " + eff["report-type"].encode() + b"\n"):
            return "report type: expected %s, the report starts %r" % (eff["report-type"], t)
        d = W.Dump(data.replace(b"BEGIN " + eff["report-type"].encode(), b"BEGIN sim", 1).replace(b"END " + eff["report-type"].encode(), b"END sim"))
        if not d.ok:
            return "unreadable report %r" % data[:200]
        oa, ob = W.msdiff(d.v, vs)
        if oa or ob:
            return "violations: " + W.diff_text(oa, ob, "the report", "the model")
        if bool(d.b) != bool(eff["enable-clang-static-analyzer"]):
            return "static analyzer findings %s with the pass %s" % (d.b, "on" if eff["enable-clang-static-analyzer"] else "off")
        m = re.search(rb"P1=.*\]", r.err)
        got = m.group(0).decode() if m else None
        if got != msg:
            return "maxima message %r, expected %r" % (got, msg)
        if dest is None and [p for _, p in r.touched if not p.endswith(".plist")]:
            return "files written: %s" % r.touched
        return None

    def execute(self, c, ctx):
        run, fs = scen.build_world(self.built, self.world(c))
        r = ctx.run(run, fs)
        pred = self.predict(c)
        e = self.check(c, r, pred)
        self.count(c, ctx, pred, r)
        hard = [f for f in r.fired if f[2] not in ("EINTR", "short")]
        if hard and e:
            n = [n for n in c["texts"] if self.lpath(n, c["cwd"]) == hard[0][1]]
            both = c["cwd"] == "/home/u"
            if r.exit() in (1, 2, 3, 4, 7) and r.err:
                return []
            if n and not both:
                e2 = self.check(c, r, self.predict(c, drop=n[0]))
                if not e2:
                    ctx.probe("layer_lost")
                    return []
                return [E.Viol("settings-mixed", "an unreadable layer (%s) gave settings that fit neither with nor without that layer: %s / %s"
                               % (hard, e, e2))]
            return []
        if r.sig or r.note & 2:
            return [E.Viol("crash", "the run ended with %s; faults %s" % (r.exit(), r.fired))]
        if e:
            cls = e.split(":")[0].split(",")[0].split(" ")[0]
            return [E.Viol("settings-" + cls, "%s\nlayers %s\ncommand line %s; faults %s" % (e, json.dumps(c["layers"])[:2500], c["args"], r.fired))]
        return []

    def count(self, c, ctx, pred, r):
        P = ctx.probe
        for n in c["layers"]:
            if c["layers"][n]:
                P("layer:" + n)
        if c["cli"]:
            P("layer:cli")
        ls = [c["layers"][n] for n in LAYERS if n in c["layers"]] + [c["cli"]]

        def multi(k):
            v = [json.dumps(l[k]) for l in ls if k in l]
            return len(v) > 1 and len(set(v)) > 1
        if multi("output"):
            P("override:output")
        if multi("report-type"):
            P("override:type")
        if multi("max-priority-2"):
            P("override:max")
        if any(multi(k) for k in ("enable-clang-static-analyzer", "allow-duplicated-violations", "enable-global-analysis")):
            P("override:bool")
        if multi("rule-configurations"):
            P("override:param")
        _, paths, en, dis, _ = self.effective(c)
        P("rulepaths:none" if not paths else "rulepaths:many" if len(set(paths)) > 1 else "rulepaths:one")
        for a in range(len(ls)):
            for b in range(a + 1, len(ls)):
                if set(ls[a].get("rules", [])) & set(ls[b].get("disable-rules", [])):
                    P("enable_then_disable")
                if set(ls[a].get("disable-rules", [])) & set(ls[b].get("rules", [])):
                    P("disable_then_enable")
        for t in c["texts"].values():
            if len(t) > 20000:
                P("big_config")
            if "'" in t or '"' in t:
                P("quoted")
        if c["home"] in (None, ""):
            P("nohome")
        if c["cwd"] == "/home/u":
            P("home_is_cwd")
        if r.fired:
            P("read_fault")
        if pred[4]:
            for k, n in (("enable-clang-static-analyzer", "analyzer"), ("allow-duplicated-violations", "dups"), ("enable-global-analysis", "global")):
                if pred[4][k]:
                    P(n)

    def shrink(self, c):
        import random
        for fl in E.drop_each(c["faults"]):
            yield dict(c, faults=fl)
        for n in list(c["layers"]):
            if c["cwd"] == "/home/u":
                break
            yield dict(c, layers={k: v for k, v in c["layers"].items() if k != n}, texts={k: v for k, v in c["texts"].items() if k != n})
        for n, l in c["layers"].items():
            if c["cwd"] == "/home/u":
                break
            for k in l:
                nl = {a: b for a, b in l.items() if a != k}
                yield dict(c, layers=dict(c["layers"], **{n: nl}), texts=dict(c["texts"], **{n: render(random.Random(1), nl)}))
        if c["io"] != [0, 0]:
            yield dict(c, io=[0, 0])
        if c["heap"] != scen.DEFAULT_HEAP:
            yield dict(c, heap=scen.DEFAULT_HEAP)


def atoi(s):
    m = re.match(r"[ \t\n]*([+-]?\d+)", s)
    return int(m.group(1)) if m else 0


def atof(s):
    m = re.match(r"[ \t\n]*([+-]?(\d+\.?\d*([eE][+-]?\d+)?|\.\d+))", s)
    return float(m.group(1)) if m else 0.0
