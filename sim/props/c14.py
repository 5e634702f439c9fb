"""C14: compiler and static-analyzer diagnostics are classified faithfully."""
import json, re
import engine as E
import reports as R
import scen
import simrun as S
import world as W

# {{kind|group|text}} marks where a diagnostic is expected; the markers are removed.  E error, F fatal error, W warning of a group, B analyzer finding.
LONG = " ".join(["much", "longer", "than", "a", "line", "of", "text"] * 14) + " @ end"
NAME = "n" * 600 + "_@"
SNIP = {
    "undecl": "int f_@(void) { return {{E||use of undeclared identifier 'Undeclared_Kqj_@'}}Undeclared_Kqj_@; }",
    "redef": "int r_@ = 1;\nint {{E||redefinition of 'r_@'}}r_@ = 2;",
    "syntax": "int s_@(void) { return 1{{E||expected ';' after return statement}} }",
    "hasherr": "int pad_@;\nint pad2_@;\n#{{E||broken @ \"on\" <purpose>}}error broken @ \"on\" <purpose>",
    "member": "struct m_@ { int a; };\nint g_@(struct m_@ *p) { return p->{{E||no member named 'b' in 'struct m_@'}}b; }",
    "sassert_c": "_Static_assert({{E||static assertion failed due to requirement 'sizeof(int) == 77': no @}}sizeof(int) == 77, \"no @\");",
    "macerr": "#define ME_@(x) int q_##x(void) { return Undeclared_Kqj_##x; }\n  {{E||use of undeclared identifier 'Undeclared_Kqj_w@'}}ME_@(w@)",
    "macerr2": "#define IN_@ Undeclared_Kqj_@\n#define OUT_@ IN_@\nint o_@(void) { return 1 + {{E||use of undeclared identifier 'Undeclared_Kqj_@'}}OUT_@; }",
    "tpl": "template <class T> struct t_@ { typename {{E||type 'int' cannot be used prior to '::' because it has no members}}T::type k; };\nt_@<int> ti_@;",
    "deleted": "struct d_@ { d_@() = delete; };\nd_@ {{E||call to deleted constructor of 'd_@'}}dv_@;",
    "missing": "int pad_@;\nint pad2_@;\n#include {{F||'nothere_@.h' file not found}}\"nothere_@.h\"",
    "hashwarn": "#{{W|#warnings|careful @ 100% <&> \"q\"}}warning careful @ 100% <&> \"q\"",
    "message": "#pragma {{W|#pragma-messages|note to self @}}message(\"note to self @\")",
    "unused": "int v_@(void) {\n\tint {{W|unused-variable|unused variable 'x_@'}}x_@;\n\treturn 0;\n}",
    "lit": "int li_@ = {{W|literal-conversion|implicit conversion from 'double' to 'int' changes value from 1.5 to 1}}1.5;",
    "unval": "void w_@(int a) { a {{W|unused-value|expression result unused}}+ @; }",
    "assign": "int ga_@;\nint a_@(int b) { if (ga_@ {{W|parentheses|using the result of an assignment as a condition without parentheses}}= b) return @; return 0; }",
    "macredef": "#define MR_@ 1\n#define {{W|macro-redefined|'MR_@' macro redefined}}MR_@ 2",
    "signcmp": "int c_@(int a, unsigned b) { return a {{W|sign-compare|comparison of integers of different signs: 'int' and 'unsigned int'}}< b; }",
    "macwarn": "#define MW_@(n) int n(void) { int unused_##n; return 0; }\n    {{W|unused-variable|unused variable 'unused_mw_@'}}MW_@(mw_@)",
    "macwarn2": "#define PA_@(x) if (gm_@ = x) return 1\nint gm_@;\nint z_@(int k) { {{W|parentheses|using the result of an assignment as a condition without parentheses}}PA_@(k); return 0; }",
    "argwarn": "#define ID_@(x) x\nvoid y_@(int k) { {{W|unused-value|expression result unused}}ID_@(k * 2); }",
    "extra": "#if 1\n#endif {{W|extra-tokens|extra tokens at end of #endif directive}}@",
    "longwarn": "#{{W|#warnings|"+LONG+"}}warning "+LONG,
    "longerr": "#{{E||"+LONG+"}}error "+LONG,
    "longname": "int ln_@(void) { return {{E||use of undeclared identifier 'Undeclared_"+NAME+"'}}Undeclared_"+NAME+"; }",
    "longunused": "void lu_@(void) { int {{W|unused-variable|unused variable '"+NAME+"'}}"+NAME+"; }",
    "ignored": "#pragma clang diagnostic push\n#pragma clang diagnostic ignored \"-Wunused-value\"\nvoid ig_@(int a) { a + 1; }\n#pragma clang diagnostic pop",
    "toerr": "#pragma clang diagnostic push\n#pragma clang diagnostic error \"-Wunused-value\"\nvoid te_@(int a) { a {{P|unused-value|expression result unused}}- 1; }\n#pragma clang diagnostic pop",
    "null": "int n_@(void) {\n    int *p = 0;\n    return {{B|core.NullDereference|Dereference of null pointer (loaded from variable 'p')}}*p;\n}",
    "zero": "int d_@(int a) { int z = 0; return a {{B|core.DivideZero|Division by zero}}/ z; }",
    "nullmac": "#define DEREF_@(q) *(q)\nint nm_@(int *p) { if (p) return 1; return {{B|core.NullDereference|Dereference of null pointer (loaded from variable 'p')}}DEREF_@(p); }",
    "fine": "int ok_@(int a) { return a + @; }",
    "fine2": "typedef struct { int a; } ok_t@;\nint okf_@(ok_t@ *p) { return p->a; }",
    "line": "#line {{L}}",
}
CONLY = {"sassert_c"}
XONLY = {"tpl", "deleted"}
TOP = [k for k in SNIP if k not in ("line",)]
ERR = [k for k in TOP if "{{E" in SNIP[k] or "{{F" in SNIP[k]]
WRN = [k for k in TOP if "{{W" in SNIP[k]]
BUG = [k for k in TOP if "{{B" in SNIP[k]]
FINE = ["fine", "fine2", "ignored"]
GROUPS = ["#warnings", "#pragma-messages", "unused-variable", "literal-conversion", "unused-value", "parentheses", "macro-redefined", "sign-compare", "extra-tokens"]
DEFON = {"#warnings", "#pragma-messages", "literal-conversion", "unused-value", "parentheses", "macro-redefined", "extra-tokens"}
PARENT = {"-Wall": ["unused-variable", "parentheses", "unused-value"], "-Wextra": ["sign-compare"], "-Wunused": ["unused-variable", "unused-value"]}


class Flags:
    """The compiler's documented treatment of warning options."""

    def __init__(self, flags, cxx):
        self.sev = {g: "warn" if g in DEFON else "ign" for g in GROUPS}
        self.no = {"#pragma-messages"}  # (not promoted by a general -Werror)
        self.werror = False
        self.w = "-w" in flags
        for f in flags:
            if f in PARENT:
                for g in PARENT[f]:
                    if g.endswith("_cxx"):
                        if not cxx:
                            continue
                        g = g[:-4]
                    self.on(g)
            elif f == "-Werror":
                self.werror = True
            elif f == "-Wno-error":
                self.werror = False
            elif f.startswith("-Werror="):
                self.sev[f[8:]] = "err"
            elif f.startswith("-Wno-error="):
                g = f[11:]
                if self.sev[g] == "err":
                    self.sev[g] = "warn"
                self.no.add(g)
            elif f.startswith("-Wno-"):
                self.sev[f[5:]] = "ign"
            elif f.startswith("-W"):
                self.on(f[2:])

    def on(self, g):
        if self.sev[g] != "err":
            self.sev[g] = "warn"

    def level(self, g):
        if self.w or self.sev[g] == "ign":
            return None
        if self.sev[g] == "err" or (self.werror and g not in self.no):
            return "E"
        return "W"


# diagnostics about the unit as a whole: all but the last end the compilation
WHOLE = {"triple": (["-Xclang", "-triple", "-Xclang", "nonsense"], "unknown target triple 'nonsense'"), "cpu": (["-march=nope"], "unknown target CPU 'nope'"),
         "abi": (["-Xclang", "-target-abi", "-Xclang", "zz"], "unknown target ABI 'zz'"), "vfs": (["-ivfsoverlay", "nope"], "virtual filesystem overlay file 'nope' not found"),
         "include": (["-include", "nope.h"], "'nope.h' file not found"), "option": (["-Wnonsense"], "unknown warning option '-Wnonsense'")}
MARK = re.compile(r"\{\{(.)\|([^|]*)\|((?:[^}]|\}(?!\}))*)\}\}")


def render(names, ids, rng, path, prag):
    """-> text, [(kind, group, text, presumed path, line, column)]"""
    out, exp = [], []
    ppath, delta = path, 0
    for n, k in zip(names, ids):
        if n == "line":
            num = 100 + rng.randrange(1, 900)
            nm = rng.choice([None, "gen/x y.c", "/abs/other.y", "gen2.c"])
            if nm:
                ppath = nm
            out.append("#line %d%s" % (num, ' "%s"' % nm if nm else ""))
            delta = num - (len(out) + 1)
            continue
        for l in SNIP[n].replace("@", str(k)).split("\n"):
            while True:
                m = MARK.search(l)
                if not m:
                    break
                exp.append([m.group(1), m.group(2), m.group(3), ppath, len(out) + 1 + delta, len(l[:m.start()].encode()) + 1])
                l = l[:m.start()] + l[m.end():]
            out.append(l)
    return "\n".join(out) + "\n", exp


class P(E.Prop):
    ID = "C14"
    COUNT = {"quick": 16000, "thorough": 120000}
    RULE = ("Seeded cases: 1-4 C and C++ units and shared headers (own and system ones) composed of about thirty kinds of code with marked expected "
            "errors, fatal errors, warnings of nine groups, notes, macro locations, diagnostic pragmas, #line directives and static-analyzer findings, under random "
            "warning options, error limits, global analysis, analyzer pass and duplicates; expectations from the marks and a model of the "
            "warning options; second runs with failing reads in the analyzer's own pass.")
    PROBES = ["error", "fatal", "warning", "werror", "pragma_error", "macro", "header", "system_header", "line", "bug", "bug_off", "error_limit", "shared_header", "global", "dup", "cxx", "w", "fault:second_pass",
              "mixed_units", "nobugs_on_error", "remark", "long"] + ["whole:" + k for k in WHOLE] + ["whole:same"] + ["written:text", "written:html", "written:pmd"]
    STUB = E.Prop.STUB + ["rules and reporter (scripted probes through oclint's real interface)"]

    def cases(self, rng, ctx, tier, i):
        files, hdrs, ids = {}, [], [0]

        def compose(path, cxx, weights, allow_line=True):
            n = rng.choice([1, 2, 3, 4, 6])
            names = []
            for _ in range(n):
                k = rng.choice(rng.choice(weights))
                if (k in CONLY and cxx) or (k in XONLY and not cxx):
                    continue
                names.append(k)
                if allow_line and rng.random() < 0.07:
                    names.append("line")
            idn = []
            for _ in names:
                ids[0] += 1
                idn.append(ids[0])
            return render(names, idn, rng, path, None) + (names,)
        anycxx = rng.random() < 0.4
        for j in range(rng.choice([0, 0, 1, 2])):
            sysd = rng.random() < 0.3
            p = ("/w/sys/s%d.h" if sysd else "/w/inc/h%d.h") % j
            text, exp, names = compose(p, None, [WRN, FINE, WRN, [k for k in ERR if k not in CONLY | XONLY]] if rng.random() < 0.3 else [WRN, FINE, FINE])
            if any(k in CONLY | XONLY for k in names):
                continue
            if rng.random() < 0.8:
                text = "#ifndef H%d\n#define H%d\n" % (j, j) + text + "#endif\n"
                exp = [[*e[:4], e[4] + (2 if e[3] == p else 0), e[5]] for e in exp]
                if "line" in names:
                    continue
            files[p] = text
            hdrs.append(dict(path=p, sys=sysd, exp=exp, names=names))
        units = []
        limit = rng.choice([None] * 8 + [1, 2, 3])
        for k in range(rng.choice([1, 2, 2, 3, 4])):
            cxx = anycxx and rng.random() < 0.6
            p = "/w/%su%d.%s" % (rng.choice(["", "", "s/"]), k, "cpp" if cxx else "c")
            mood = rng.choice(["clean", "warn", "warn", "err", "bug", "bug", "all"])
            weights = {"clean": [FINE], "warn": [WRN, FINE, WRN + ["toerr"]], "err": [ERR, WRN, FINE], "bug": [BUG, FINE, WRN], "all": [ERR, WRN, BUG, FINE, ["toerr"]]}[mood]
            text, exp, names = compose(p, cxx, weights)
            inc = rng.sample(hdrs, rng.randrange(len(hdrs) + 1)) if hdrs else []
            pre = "".join('#include "%s"\n' % h["path"].rsplit("/", 1)[1] if not h["sys"] else "#include <%s>\n" % h["path"].rsplit("/", 1)[1] for h in inc)
            nl = len(inc)
            fixed = []
            seen_line = False
            # lines before the first #line move
            lines = text.split("\n")
            firstline = next((q for q, l in enumerate(lines) if l.startswith("#line")), None)
            for e in exp:
                if firstline is None or (e[3] == p and e[4] <= firstline and self.before(lines, e, firstline)):
                    fixed.append([*e[:4], e[4] + nl, e[5]])
                else:
                    fixed.append(e)
            marker = "int unit_%d;\n" % k
            files[p] = pre + text + marker
            flags = []
            for _ in range(rng.choice([0, 0, 1, 2, 3])):
                g = rng.choice(GROUPS)
                flags.append(rng.choice(["-Wall", "-Wextra", "-Wunused", "-Werror", "-Wno-error", "-w" if rng.random() < 0.4 else "-Wall", "-W" + g, "-Wno-" + g, "-Werror=" + g, "-Wno-error=" + g]))
            rel = rng.random() < 0.3
            fl = Flags([f for f in flags if not f.startswith(("-f", "-R"))], cxx)
            SEM = lambda x: x[0] in "WP" and x[1] not in ("#warnings", "#pragma-messages", "macro-redefined", "extra-tokens")
            if rng.random() < 0.15:
                flags.insert(rng.randrange(len(flags) + 1), "-Rsearch-path-usage")  # (remarks are neither errors nor warnings)
            ulimit = limit
            seq = [([*x[:3], x[3].replace("/w/", "", 1) if rel and x[3] == h["path"] else x[3], *x[4:]], h["sys"]) for h in inc for x in h["exp"]] + [(x, False) for x in fixed]
            # a limit counts promoted warnings too, which neither the analyzer's pass nor a unit after an error necessarily raises
            if ulimit and any(x[0] == "P" or (x[0] == "W" and fl.level(x[1]) == "E") for x, _ in seq):
                ulimit = None
            if ulimit:
                flags.append("-ferror-limit=%d" % ulimit)
            ex = self.expected(seq, fl, ulimit, cxx)
            # after a hard error, or before a fatal one, the compiler may leave semantic warnings out
            ex["may"] = [[x[3], x[4], x[5], x[2]] for x, _ in seq if SEM(x)] if ex["hard"] else []
            whole = rng.choice(list(WHOLE)) if rng.random() < 0.1 else None
            if whole == "option":
                if "-w" not in flags and not any(f.startswith(("-Werror", "-Wno-error")) for f in flags) and not ulimit:
                    flags += WHOLE[whole][0]
                    ex["W"].append(["", 0, 0, WHOLE[whole][1]])
                else:
                    whole = None
            elif whole:
                flags += WHOLE[whole][0]
                ex = {"E": [[*(["<built-in>", 1, 10] if whole == "include" else ["", 0, 0]), WHOLE[whole][1]]], "W": [], "B": [], "hard": True, "may": []}
            units.append(dict(whole=whole, rel=rel, path=p, cxx=cxx, flags=flags, names=names, inc=[h["path"] for h in inc], exp=ex, k=k, hnames=sum([h["names"] for h in inc], []),
                              sys=any(h["sys"] for h in inc)))
        dup, glob, ana = rng.random() < 0.5, rng.random() < 0.35, rng.random() < 0.5
        files["/w/compile_commands.json"] = json.dumps([{"directory": "/w", "file": u["path"], "arguments": ["cc"] + (["-Iinc", "-isystem", "sys"] if u["rel"] else ["-I/w/inc", "-isystem", "/w/sys"]) + u["flags"] + ["-c", u["path"]]} for u in units])
        argv = ["oclint", "-p", "/w", "-report-type", "sim"] + [x for x, b in (("-allow-duplicated-violations", dup), ("-enable-global-analysis", glob), ("-enable-clang-static-analyzer", ana)) if b] + [u["path"] for u in units]
        c = dict(fmt=rng.choice([None, None, None, None, "text", "html", "pmd"]), files=files, argv=argv, units=units, dup=dup, glob=glob, ana=ana, limit=limit, heap=scen.rand_heap(rng), io=[rng.choice([0, 0, 0, 3]), 0],
                 rules=[["", "probe", "c", 3, [scen.act("*", "tu")]]], faults=[])
        yield c
        cand = [u for u in units if u["exp"]["E"] == [] and u["inc"]]
        if ana and cand and rng.random() < 0.5:
            u = rng.choice(cand)
            h = rng.choice(u["inc"])
            r, fs = scen.build_world(self.built, c)
            occ = [o for o in scen.occurrences(ctx.run(r, fs, trace=True).trace) if o[1] == h and o[0] in ("open", "stat", "read")]
            users = sum(1 for x in units if h in x["inc"])
            for op in ("open", "read"):
                l = [o for o in occ if o[0] == op]
                if l and len(l) % (2 * users) == 0:
                    per = len(l) // (2 * users)
                    yield dict(c, faults=[dict(op=op, path=h, nth=rng.randrange(len(l) // 2 + 1, len(l) + 1), kind=rng.choice(["EIO", "EACCES", "ESTALE", "ENOENT"]), arg=0)])
                    break

    def before(self, lines, e, firstline):
        return e[4] - 1 < firstline

    def expected(self, seq, fl, limit, cxx):
        r = {"E": [], "W": [], "B": []}
        fatal = False
        real = 0
        hard = False
        for (kind, g, t, p, l, col), sysh in seq:
            if kind == "B":
                r["B"].append([p, l, col, "%s [%s]" % (t, g)])
                continue
            if fatal:
                continue
            if cxx:
                t = t.replace("'struct m_", "'m_")
            if kind in "EF":
                if sysh and False:
                    continue
                lv = "E"
            elif sysh and g != "#warnings":
                continue
            elif kind == "P":
                lv = None if fl.w else "E"
            else:
                lv = fl.level(g)
            if lv is None:
                continue
            if lv == "E" and kind != "F" and limit and real >= limit:
                r["E"].append(["", 0, 0, "too many errors emitted, stopping now"])
                fatal = True
                hard = True
                continue
            r[lv].append([p, l, col, t])
            if lv == "E":
                real += 1
                if kind in "EF":
                    hard = True
            if kind == "F":
                fatal = True
        if any(x[0] in "EF" for x, _ in seq):
            r["B"] = []
        r["hard"] = hard
        return r

    def execute(self, c, ctx):
        run, fs = scen.build_world(self.built, c)
        r = ctx.run(run, fs, trace=True)
        ex = r.exit()
        d = W.Dump(r.out)
        self.count(c, ctx, r)
        if r.fired:
            return self.second(c, r, d)
        err = any(u["exp"]["E"] for u in c["units"])
        if ex not in ((6,) if err else (0, 5)) or not d.ok:
            return [E.Viol("status", "status %s (expected errors: %s) stderr %r out %r" % (ex, err, r.err[-300:], r.out[:300]))]
        V = []
        for tag, got, name in (("E", d.e, "errors"), ("W", d.w, "warnings"), ("B", d.b, "static analyzer findings")):
            exp = [tuple(x) for u in c["units"] for x in u["exp"][tag]] if tag != "B" or c["ana"] else []
            g = [(v.path, v.sl, v.sc, v.msg) for v in got]
            if not c["dup"]:
                exp = list(dict.fromkeys(exp))
            if tag == "E" and c["ana"] and c["dup"]:  # the analyzer's pass may meet the same error again
                g, exp = sorted(set(g)), sorted(set(exp))
            may = {tuple(x) for u in c["units"] for x in u["exp"]["may"]}
            if any(u["exp"]["hard"] for u in c["units"]) and tag in "EW":
                # warnings that may be missing are judged by presence only
                g, exp = [x for x in g if x not in may], [x for x in exp if x not in may]
            if sorted(g) != sorted(exp):
                V.append(E.Viol("section-" + tag, "%s differ:\n%s\nflags %s" % (name, W.diff_text(*W.msdiff(g, exp), "the report", "the compiler's view"), [u["flags"] for u in c["units"]])))
        exp = sorted(u["path"] for u in c["units"] if not u["exp"]["E"])
        got = sorted(v.path for v in d.v if "unit_" in v.msg)
        if got != exp or len(d.v) != len(exp):
            V.append(E.Viol("units", "units with rule violations %s, expected %s" % ([W.show(v)[:80] for v in d.v], exp)))
        for v in d.e + d.w + d.b:
            if v.el or v.ec or v.rule:
                V.append(E.Viol("shape", "diagnostic with an end position or a rule: %s" % W.show(v)))
                break
        if c.get("fmt") and not V:
            V += self.written(c, ctx, d)
        return V

    def written(self, c, ctx, d):
        """the sections of the shipped reporters that list diagnostics"""
        f = c["fmt"]
        run, fs = scen.build_world(self.built, dict(c, argv=[f if a == "sim" else a for a in c["argv"]], reps=list(W.REP_NAMES.values())))
        r = ctx.run(run, fs)
        ctx.probe("written:" + f)
        V = []
        try:
            if f == "text":
                sec, summ, _ = R.read_text(r.out)
            else:
                items, summ, _ = R.READERS[f](r.out)
        except (R.Bad, KeyError, TypeError, AttributeError, IndexError, ValueError) as e:
            return [E.Viol("written-" + f, "unreadable %s report: %s" % (f, e))]
        for k, vs in (("E", d.e), ("W", d.w), ("B", d.b)):
            if f == "text":
                exp = ["%s:%d:%d: %s" % (v.path, v.sl, v.sc, v.msg) for v in vs]
                got = sec.get(k, "").split("\n")
                got = [x for j, x in enumerate(got) if x or j + 1 < len(got)]
            else:
                exp = [(v.path, v.sl, v.sc, v.msg) for v in vs]
                got = [(i.path, i.sl, i.sc, i.msg) for i in items if i.kind == k]
            if sorted(exp) != sorted(got):
                V.append(E.Viol("written-" + f, "section %s of the %s report: %s" % (k, f, W.diff_text(*W.msdiff(got, exp), "the report", "the results"))))
        if f == "html" and not V and (summ["errors"], summ["warnings"], summ["bugs"]) != (len(d.e), len(d.w), len(d.b)):
            V.append(E.Viol("written-html", "summary %s, listed %s" % ((summ["errors"], summ["warnings"], summ["bugs"]), (len(d.e), len(d.w), len(d.b)))))
        return V

    def second(self, c, r, d):
        """A header fails only in the analyzer's own pass: an error, never an analyzer finding."""
        V = []
        ex = r.exit()
        if ex != 6 or not d.ok:
            return [E.Viol("second-pass", "reading %s failed in the static analyzer's pass; status %s, errors %s" % (r.fired, ex, [W.show(x) for x in d.e[:3]]))]
        names = {x[3] for u in c["units"] for x in u["exp"]["B"]}
        for b in d.b:
            if b.msg not in names:
                V.append(E.Viol("second-pass", "%s is reported as a static analyzer finding (fault %s)" % (W.show(b), r.fired)))
        if not d.e:
            V.append(E.Viol("second-pass", "no error"))
        exp = [tuple(x) for u in c["units"] for x in u["exp"]["W"]]
        g = [(v.path, v.sl, v.sc, v.msg) for v in d.w]
        if not c["dup"]:
            exp = list(dict.fromkeys(exp))
        may = {tuple(x) for u in c["units"] for x in u["exp"]["may"]}
        g, exp = [x for x in g if x not in may], [x for x in exp if x not in may]
        if sorted(g) != sorted(exp):
            V.append(E.Viol("second-pass", "a failure in the analyzer's pass changes the warnings: %s" % W.diff_text(*W.msdiff(g, exp), "the report", "the compiler's view")))
        exp = sorted(u["path"] for u in c["units"] if not u["exp"]["E"])
        got = sorted(v.path for v in d.v)
        if got != exp:
            V.append(E.Viol("second-pass", "a failure in the analyzer's pass changes the rule violations: %s, expected %s" % (got, exp)))
        return V

    def count(self, c, ctx, r):
        if r.fired:
            ctx.probe("fault:second_pass")
        for k, p in (("glob", "global"), ("dup", "dup")):
            if c[k]:
                ctx.probe(p)
        kinds = set()
        for u in c["units"]:
            e = u["exp"]
            kinds.add(bool(e["E"]))
            for cond, p in ((e["E"], "error"), (e["W"], "warning"), (any("file not found" in x[3] for x in e["E"]), "fatal"), (e["E"] and not e["hard"], "werror"),
                            ("toerr" in u["names"], "pragma_error"), ({"macerr", "macerr2", "macwarn", "macwarn2", "argwarn"} & set(u["names"]), "macro"), (u["inc"], "header"), (u["sys"], "system_header"),
                            ("line" in u["names"], "line"), (e["B"] and c["ana"], "bug"), (e["B"] and not c["ana"], "bug_off"), (any(x[0] == "" for x in e["E"]), "error_limit"),
                            (u["cxx"], "cxx"), ("-w" in u["flags"], "w"), (any(len(x[3]) > 400 for t in "EW" for x in e[t]), "long"), ("-Rsearch-path-usage" in u["flags"] and u["inc"], "remark"), (e["hard"] and set(u["names"]) & set(BUG) and c["ana"], "nobugs_on_error")):
                if cond:
                    ctx.probe(p)
        wh = [u["whole"] for u in c["units"] if u["whole"]]
        for k in wh:
            ctx.probe("whole:" + k)
        if len(set(wh)) < len(wh) and c["dup"]:
            ctx.probe("whole:same")
        if len(kinds) == 2:
            ctx.probe("mixed_units")
        hs = [h for u in c["units"] for h in u["inc"]]
        if len(set(hs)) < len(hs):
            ctx.probe("shared_header")

    def shrink(self, c):
        for k, v in (("io", [0, 0]), ("heap", scen.DEFAULT_HEAP)):
            if c[k] != v:
                yield dict(c, **{k: v})
        if c.get("fmt"):
            yield dict(c, fmt=None)
        if len(c["units"]) > 1 and not c["faults"]:
            for u in c["units"]:
                yield dict(c, units=[x for x in c["units"] if x is not u], argv=[a for a in c["argv"] if a != u["path"]])
        for x in ("-allow-duplicated-violations", "-enable-global-analysis"):
            if x in c["argv"] and not c["faults"]:
                yield dict(c, argv=[a for a in c["argv"] if a != x], **({"dup": False} if "dup" in x else {"glob": False}))
