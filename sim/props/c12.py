"""C12: paths keep their meaning while the tool changes directories."""
import json, posixpath
import engine as E
import scen
import simrun as S
import world as W

ODD = ["a", "b", "src", "build", "a b", "it's", 'q"q', "back\\slash", "%s%d", "p\u00e9\u00e8", "-dash", "~", "$HOME", "*", "x" * 100, "y" * 200, "z" * 255, "...", "a.c", "lib", "etc", "bin",
       "compile_commands", "#", "@x", "a=b", "\u4e2d\u6587", "tab\there", "C:", "(1)", "&", ";", ".hidden"]
KEYS = ["ETC", "HOME", "PROJ"]


def odd_path(rng, base="", colon=True):
    n = rng.choice([1, 1, 2, 3, 4, 8])
    p = base
    big = rng.random() < 0.25
    for _ in range(n + (rng.choice([6, 12, 18]) if big else 0)):
        o = rng.choice(ODD[-30:] if not big else ["x" * 100, "y" * 30, "y" * 200, "d", "a b"])
        if not colon and ":" in o:
            o = "c"
        if len(p) + len(o) > 3000:
            break
        p += "/" + o
    return p


def resolve(nodes, cwd, path, depth=0):
    """(physical path, exists) of what opening path for creation means; None when a directory is missing."""
    if depth > 20:
        return None
    cur = "" if path.startswith("/") else ("" if cwd == "/" else cwd)
    comps = [x for x in path.split("/") if x]
    trail = path.endswith("/")
    for i, x in enumerate(comps):
        last = i + 1 == len(comps)
        if cur and nodes.get(cur, {}).get("type") != "d":
            return None
        if x == ".":
            continue
        if x == "..":
            cur = cur.rsplit("/", 1)[0] if cur else ""
            continue
        if len(x.encode()) > 255:
            return None
        nxt = cur + "/" + x
        n = nodes.get(nxt)
        if n is None:
            return nxt if last and not trail else None
        if n["type"] == "l":
            t = resolve(nodes, cur or "/", n["data"].decode(), depth + 1)
            if t is None or (not last and t not in nodes):
                return None
            nxt = t
        cur = nxt
    if trail:
        return None
    return cur or "/"


class P(E.Prop):
    ID = "C12"
    COUNT = {"quick": 5000, "thorough": 60000}
    RULE = ("Seeded cases: start directories and installation prefixes of any depth up to the path limit with odd names, reached directly or "
            "through symbolic links with a matching, stale or missing PWD; executable named absolutely, relatively, through links or found "
            "in PATH among decoys; relative, dotted, absolute and linked output paths from the command line or from configuration files; several "
            "compile command directories that contain decoy configuration files, plugin trees and output directories; failing getcwd, stat, chdir "
            "and any other system call.  Compared with a small path resolver on the world's directory tree, and with the set of changed files.")
    PROBES = ["deep_cwd", "deep_prefix", "odd_cwd", "cwd_link", "pwd_stale", "exe_abs", "exe_rel", "exe_path", "exe_path_rel", "exe_link", "exe_missing", "out_rel", "out_dots", "out_abs", "out_link", "out_dangling",
              "out_config", "out_home", "out_nodir", "out_isdir", "out_none", "out_existing", "rule_dir_rel", "rule_dir_config", "auto_db", "fixed", "cmds2", "fault:getcwd", "fault:chdir", "fault:other", "src_rel"]
    STUB = E.Prop.STUB + ["rules and reporter (scripted probes through oclint's real interface)"]

    def cases(self, rng, ctx, tier, i):
        f, dirs, links, plugins, rules = {}, [], {}, {}, []
        c = dict(heap=scen.rand_heap(rng), faults=[], io=[rng.choice([0, 0, 0, 1, 9]), 0])
        feat = []
        prefix = rng.choice(["/opt/oclint", "/opt/oclint", odd_path(rng, "/i", colon=False), "/o"])
        cwd = rng.choice(["/w", odd_path(rng, "/c"), odd_path(rng, "/c"), prefix + "/bin", prefix, "/"] + (["/home/u/src", "/home/u/p q", "/home"] if rng.random() < 0.3 else []))
        if len(prefix) + len(cwd) > 3500:
            prefix = "/opt/oclint"
        cwd = cwd.replace("\\", "_")  # (libclang takes a backslash in a source path for a separator)
        if len(cwd) > 250:
            feat.append("deep_cwd")
        if len(prefix) > 120:
            feat.append("deep_prefix")
        if any(ch in cwd for ch in " '\"\\%$*\u00e9"):
            feat.append("odd_cwd")
        dirs += [cwd, prefix + "/bin"]

        def install(at, rule, rep, etc):
            if at + "/lib/oclint/rules/libr.so" in plugins:
                return
            plugins[at + "/lib/oclint/reporters/librep.so"] = ["reporter", rep]
            rules.append([at + "/lib/oclint/rules/libr.so", rule, "c", 3, []])
            plugins[at + "/lib/oclint/rules/libr.so"] = ["rule", "s"]
            if etc:
                f[at + "/etc/oclint"] = etc

        def conf(key, value, out=None, rp=None):
            return ("output: %s\n" % json.dumps(out, ensure_ascii=False) if out is not None else "") + ("rule-paths:\n  - %s\n" % json.dumps(rp, ensure_ascii=False) if rp else "") + \
                "rule-configurations:\n  - key: %s\n    value: %s\n" % (key, value)
        has_etc = rng.random() < 0.7
        install(prefix, "probe", "sim", conf("ETC", "right") if has_etc else None)
        c["vals"] = {k: None for k in KEYS}
        if has_etc:
            c["vals"]["ETC"] = "right"
        # compile commands
        n = rng.choice([1, 2, 2, 3])
        cdirs = [rng.choice([cwd, "/w/x", "/b/" + rng.choice(ODD[:20]), odd_path(rng, "/b"), cwd + "/" + "sub" if cwd != "/" else "/sub"]) for _ in range(n)]
        cdirs = [d if len(d) < 2500 else "/w/x" for d in cdirs]
        cdirs = [d.replace("\\ ", "_") for d in cdirs]
        mode = rng.choice(["p", "p", "prel", "auto", "fixed"])
        if cwd == "/" and mode == "auto":
            mode = "p"
        srcdir = (cwd if cwd != "/" else "") if mode == "auto" or rng.random() < 0.6 else "/s/" + rng.choice(ODD[:12]).replace("\\", "_")
        if len(srcdir) > 3000:
            srcdir = "/s"
        units = []
        for k in range(rng.choice([1, 2, 2, 3])):
            u = "%s/%su%d.c" % (srcdir, rng.choice(["", "", "q r/"]), k)
            f[u] = "int file_%d;\n" % k
            units.append(u)
        cmds = []
        for k, u in enumerate(units):
            if mode == "fixed":
                cmds.append([k, cwd])
            else:
                for d in rng.sample(cdirs, rng.choice([1, 1, min(2, len(cdirs))])):
                    cmds.append([k, d])
        if mode != "fixed":
            dirs += [d for _, d in cmds]
        if len({d for _, d in cmds}) > 1:
            feat.append("cmds2")
        argv = ["oclint", "-report-type", "sim", "-allow-duplicated-violations"]
        env = {"HOME": "/home/u", "PATH": "/usr/bin"}
        if mode in ("p", "prel", "auto"):
            dbdir = srcdir if mode == "auto" else rng.choice(["/w/db", cwd if cwd != "/" else "/dbb"])
            f[(dbdir or "") + "/compile_commands.json"] = json.dumps(
                [{"directory": d, "file": units[k], "arguments": ["cc", "-c", units[k]]} for k, d in cmds], ensure_ascii=False)
            if mode == "auto":
                feat.append("auto_db")
            elif mode == "prel":
                argv += ["-p", posixpath.relpath(dbdir, cwd)]
            else:
                argv += ["-p", dbdir]
        else:
            feat.append("fixed")
        if rng.random() < 0.2:
            argv.append("-enable-global-analysis")
        # output
        x = rng.random()
        place = rng.choice(["cli"] * 6 + ["proj", "proj", "home", "none"])
        out = None
        oname = rng.choice(["out", "r.txt", "o u t", "r\u00e9p", "%s", "a'b", "-x", "out.c", ".out", "~out", "~u", "$HOME", "C:out", "file:out", "|out", "&1", "o" * 200])
        form = rng.choice(["name", "name", "dot", "up", "sub", "abs", "absodd", "link", "dangling", "isdir", "nodir", "existing", "existing", "uplink"])
        j = lambda p: (cwd if cwd != "/" else "") + "/" + p
        if form == "name":
            out = oname
        elif form == "dot":
            out = "././/" + oname
        elif form == "up":
            out = "../" * rng.choice([1, 1, 2, 30]) + oname
        elif form == "sub":
            dirs.append(j("res/d e"))
            out = rng.choice(["res/d e/", "./res//d e/../d e/", "res/../res/"]) + oname
        elif form == "abs":
            dirs.append("/abs")
            out = "/abs/" + oname
        elif form == "absodd":
            p = odd_path(rng, "/abs")
            dirs.append(p)
            out = p + "/" + oname
        elif form == "link":
            f["/abs/target"] = "old content of the link target, somewhat longer than nothing\n" * rng.choice([0, 1, 500])
            links[j(oname)] = "/abs/target"
            out = oname
        elif form == "dangling":
            dirs.append("/abs")
            links[j(oname)] = rng.choice(["/abs/new", "/abs/none/new"])
            out = oname
        elif form == "isdir":
            dirs.append(j("isdir"))
            out = rng.choice(["isdir", "isdir/", "."])
        elif form == "nodir":
            out = rng.choice(["nodir/" + oname, "no/../" + oname, oname + "/"])
        elif form == "uplink":
            dirs.append("/abs/deep/er")
            links[j("lnk")] = "/abs/deep/er"
            out = "lnk/../" + oname
        else:
            f[j(oname)] = "previous\n" * rng.choice([1, 30, 5000])
            out = oname
        if len(cwd) + len(out) > 3800 or len(cwd) > 3300:
            out = "out"
        if place == "none":
            out = None
            feat.append("out_none")
        else:
            feat.append({"name": "out_rel", "dot": "out_dots", "up": "out_dots", "sub": "out_dots", "abs": "out_abs", "absodd": "out_abs", "link": "out_link", "dangling": "out_dangling",
                         "isdir": "out_isdir", "nodir": "out_nodir", "uplink": "out_link", "existing": "out_existing"}[form])
        pc = rng.random() < 0.5
        hc = rng.random() < 0.4
        # extra rule directory
        rp = None
        rplace = None
        if rng.random() < 0.3:
            rname = rng.choice(["rr", "my rules", "../rr2", "./rr", "/rr3"])
            rp = rname
            rdir = posixpath.normpath(posixpath.join(cwd, rname))
            rules.append([rdir + "/libx.so", "probe", "c", 3, []])
            plugins[rdir + "/libx.so"] = ["rule", "s"]
            rplace = rng.choice(["cli", "proj"])
            if rplace == "cli":
                argv += ["-R", rp]
            feat.append("rule_dir_rel" if rplace == "cli" else "rule_dir_config")
        if pc or place == "proj" or rplace == "proj":
            f[j(".oclint")] = conf("PROJ", "right", out if place == "proj" else None, rp if rplace == "proj" else None)
            c["vals"]["PROJ"] = "right"
        if (hc or place == "home") and j(".oclint") != "/home/u/.oclint":
            f["/home/u/.oclint"] = conf("HOME", "right", out if place == "home" else None)
            c["vals"]["HOME"] = "right"
        if place == "proj":
            feat.append("out_config")
        if place == "home":
            feat.append("out_home")
        if place == "cli":
            argv += ["-o", out] if not out.startswith("-") or True else []
        # decoys: what any other directory would supply
        spots = {d for _, d in cmds} | {"/", "/w", srcdir or "/", posixpath.dirname(cwd), "/usr/bin"}
        for d in sorted(spots - {cwd, "/home/u"}):
            if rng.random() < 0.6:
                p = ("" if d == "/" else d)
                if p + "/.oclint" not in f:
                    f[p + "/.oclint"] = "rule-configurations:\n" + "".join("  - key: %s\n    value: decoy\n" % k for k in KEYS) + \
                        ("output: decoy.out\n" if rng.random() < 0.5 else "") + ("report-type: text\n" if rng.random() < 0.3 else "")
                for at in (p, posixpath.dirname(p) if p else ""):
                    if rng.random() < 0.4 and at != prefix and not (at == "" and prefix == ""):
                        install(at, "decoy", rng.choice(["sim", "text"]), "rule-configurations:\n" + "".join("  - key: %s\n    value: decoy\n" % k for k in KEYS))
                if rng.random() < 0.4 and d not in (posixpath.dirname(prefix),):
                    for sub in ("res/d e", "nodir", "no", "lnk", "rr", "my rules"):
                        q = p + "/" + sub
                        if q not in links and q not in dirs and not q.startswith((cwd if cwd != "/" else "") + "/"):
                            dirs.append(q)
                            if sub in ("rr", "my rules") and rng.random() < 0.5 and q + "/libx.so" not in plugins:
                                rules.append([q + "/libx.so", "decoy", "c", 3, []])
                                plugins[q + "/libx.so"] = ["rule", "s"]
        # how the tool is started
        f[prefix + "/bin/oclint"] = "\x7fELF"
        modes = {prefix + "/bin/oclint": 0o755}
        start = cwd
        if rng.random() < 0.3 and cwd not in ("/", prefix, prefix + "/bin") and len(cwd) < 2000:
            links["/ln k"] = cwd
            start = rng.choice(["/ln k", cwd])
            feat.append("cwd_link")
            x = rng.random()
            if x < 0.6:
                env["PWD"] = "/ln k"
            elif x < 0.8:
                env["PWD"] = rng.choice(["/w/x", "/", "ln k", "/none", "/home/u"])
                feat.append("pwd_stale")
            start = cwd
        elif rng.random() < 0.3:
            env["PWD"] = cwd
        elif rng.random() < 0.3:
            env["PWD"] = rng.choice(["/home/u", "/none", "", ".", "/tmp"])
            feat.append("pwd_stale")
        x = rng.choice(["abs", "abs", "rel", "rel", "path", "path", "pathrel", "link", "link", "missing"])
        if x == "rel":
            a0 = posixpath.relpath(prefix + "/bin/oclint", cwd)
            if "/" not in a0:
                a0 = "./" + a0
            if rng.random() < 0.3:
                a0 = "./" + a0
        elif x in ("path", "pathrel", "missing"):
            ent = [] if x == "missing" else [prefix + "/bin"] if x == "path" else [posixpath.relpath(prefix + "/bin", cwd)]
            pre = []
            for e in rng.sample(["/usr/bin", "/none", "/dk1", "/dk2", ""], rng.choice([0, 1, 2, 3])):
                if e == "/dk1":  # not executable
                    f["/dk1/oclint"] = "text"
                elif e == "/dk2":
                    dirs.append("/dk2/oclint")
                elif e == "" and cwd == prefix + "/bin":
                    continue
                pre.append(e)
            post = ["/dk3/bin"]
            f["/dk3/bin/oclint"] = "\x7fELF"
            modes["/dk3/bin/oclint"] = 0o755
            if x != "missing":
                install("/dk3", "decoy", "sim", None)
            else:
                post = []
            env["PATH"] = ":".join(pre + ent + post)
            a0 = "oclint"
        elif x == "link":
            y = rng.random()
            if y < 0.5:
                links["/el"] = prefix
                a0 = "/el/bin/oclint"
            else:
                links["/el"] = prefix + "/bin"
                a0 = rng.choice(["/el/oclint", posixpath.relpath("/el/oclint", cwd)])
        else:
            a0 = prefix + "/bin/oclint"
        feat.append({"abs": "exe_abs", "rel": "exe_rel", "path": "exe_path", "pathrel": "exe_path_rel", "link": "exe_link", "missing": "exe_missing"}[x])
        if x == "missing":
            # then the tool is taken to be in the start directory
            if any((r[0] == "/lib/oclint/rules/libr.so") or r[0].startswith(posixpath.dirname(cwd) + "/lib/") for r in rules):
                return
        argv[0] = a0
        for k, u in enumerate(units):
            rel = posixpath.relpath(u, cwd)
            if rng.random() < 0.5 and "cwd_link" not in feat and not rel.startswith("..") and mode != "fixed" and not rel.startswith(("-", "@")):
                argv.append(rel)
                feat.append("src_rel")
            else:
                argv.append(u)
        if mode == "fixed":
            argv.append("--")
        if any(p.startswith(q + "/") for p in list(f) + dirs + list(plugins) for q in list(f) + list(links) if p != q):
            return  # a decoy would lie below a file
        for p in links:
            if p in f or p in plugins or p in dirs:
                return
        for p in dirs:
            if p in f or p in plugins:
                return
        for p in list(f) + list(links) + list(plugins) + [r[0] for r in rules] + list(dirs):
            while p.rfind("/") > 0:
                p = p[:p.rfind("/")]
                dirs.append(p)
        acts = [scen.act("*", "tu", "", 1)] + [scen.act("*", "cfgs", "", 10 + q, msg=k) for q, k in enumerate(KEYS)] + ([scen.act("*", "cwd", "", 2)] if "-enable-global-analysis" not in argv else [])
        for r in rules:
            r[4] = acts
        c.update(files=f, dirs=sorted(set(dirs)), links=links, plugins={p: k for p, k in plugins.items() if k[0] != "rule"}, rules=rules, argv=argv, env=env, cwd=start, modes=modes, noreps=True, exe=prefix + "/bin/oclint",
                 feat=feat, cmds=cmds, units=units, out=out, place=place, rp=bool(rp), missing=x == "missing", glob="-enable-global-analysis" in argv, prefix=prefix)
        if rng.random() < 0.3:
            r, fs = scen.build_world(self.built, c)
            occ = scen.occurrences(ctx.run(r, fs, trace=True).trace)
            k = rng.choice(["getcwd", "chdir", "stat", "any", "any"])
            cand = [o for o in occ if o[0] == k] or occ
            if cand:
                c["faults"] = [scen.fault_at(rng, scen.pick_op(rng, cand))]
        yield c

    def execute(self, c, ctx):
        run, fs = scen.build_world(self.built, c)
        r = ctx.run(run, fs, trace=bool(c["faults"]))
        ex = r.exit()
        for p in c["feat"]:
            ctx.probe(p)
        if r.fired:
            ctx.probe("fault:" + (r.fired[0][0] if r.fired[0][0] in ("getcwd", "chdir") else "other"))
        touched = sorted({p for k, p in (r.touched or [])})
        target = None
        if c["out"] is not None:
            target = resolve(fs.nodes, c["cwd"], c["out"])
            if target is not None and fs.nodes.get(target, {}).get("type") == "d":
                target = None
        V = []
        wrong = [p for p in touched if p != target]
        if wrong:
            V.append(E.Viol("files-written", "the run changed %s; the report belongs to %s (-o %r from %s), exit %s" % (wrong, target, c["out"], c["cwd"], ex)))
        # which report was delivered
        data = (r.fs.read(target) if target is not None and target in r.fs.nodes else None) if c["out"] is not None else r.out
        d = W.Dump(data or b"")
        if r.fired:
            if ex in scen.CLAIMS and c["place"] not in ("proj", "home") and not d.ok:
                V.append(E.Viol("undelivered", "exit %s without the report at %s (fault %s): stderr %r" % (ex, target, r.fired, r.err[-300:])))
            # (an executable that cannot be examined is not the one the PATH search finds)
            search = c["argv"][0] == "oclint" and any(f[1].endswith("/oclint") for f in r.fired)
            for v in [] if search else d.v if d.ok else W.Dump(r.out).v:
                if v.rule == "decoy" or v.msg == "S=decoy":
                    V.append(E.Viol("decoy", "under fault %s the run used what belongs to another directory: %s" % (r.fired, W.show(v))))
                    break
            return V
        if c["missing"]:
            if ex not in (1, 2) or touched:
                V.append(E.Viol("status", "no installation can be found for a bare name that is not in PATH, exit %s" % (ex,)))
            return V
        if c["out"] is not None and target is None:
            if ex != 4:
                V.append(E.Viol("status", "output %r cannot be created from %s, exit %s, changed %s: %r" % (c["out"], c["cwd"], ex, touched, r.err[-300:])))
            return V
        if ex not in (0, 5) or not d.ok:
            V.append(E.Viol("status", "exit %s, report at %s %s; stdout %r stderr %r" % (ex, target, "incomplete: %r" % data[:200] if data is not None else "missing", r.out[-200:], r.err[-400:])))
            return V
        rep = data[data.index(b"BEGIN"):]
        if target is not None and data[:5] != b"BEGIN":
            V.append(E.Viol("content", "report file starts with %r" % data[:60]))
        exp = []
        for k, u in enumerate(c["units"]):
            for kk, dd in c["cmds"]:
                if kk == k:
                    exp.append("TU %s file_%d" % (u, k))
                    exp += ["S=" + (c["vals"][key] or "<unset>") for key in KEYS]
                    if not c["glob"]:
                        exp.append("CWD " + dd)
        got = ["%s%s" % ("" if v.rule == "probe" else v.rule + ": ", v.msg) for v in d.v]
        if sorted(got) != sorted(exp):
            V.append(E.Viol("resolution", "findings (compilation, configuration, directory) differ:\n" + W.diff_text(*W.msdiff(got, exp), "the run", "the expectation") + "\nargv %s cwd %s" % (c["argv"], c["cwd"])))
        if d.e:
            V.append(E.Viol("errors", "errors %s" % [W.show(e) for e in d.e[:3]]))
        return V

    def shrink(self, c):
        for x in scen.shrink_common(c):
            if x["rules"] == c["rules"]:
                yield x
        need = set(c["units"])
        for p in sorted(c["files"]):
            if p not in need and not p.endswith("compile_commands.json") and "right" not in c["files"][p] and p != c["exe"]:
                yield dict(c, files={q: t for q, t in c["files"].items() if q != p})
        for r in c["rules"]:
            if r[1] == "decoy":
                yield dict(c, rules=[x for x in c["rules"] if x is not r])
