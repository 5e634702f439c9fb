"""C03: what rules report is what the report says."""
import collections, re
import engine as E
import simrun as S
import world as W
import reports as R

TEXTS = ["plain message", "", " leading and trailing ", "std::vector<int> & friends", 'say "hi"', "it's", "a\\b\\\\c", "back\\", "tab\there",
         "line\nbreak", "cr\rhere", "crlf\r\nx", "</violation>", "]]>", "<![CDATA[x", "&amp; &#10; &lt;", "%s %n %d", "{\"k\":[1]}", "\\u0041 \\n",
         "é ü 漢字", "\U0001F600 emoji", "\u2028sep", "</td><td>", "<!-- c", "<script>alert(1)</script>", "a=b, c=d", "'\"<>&",
         "trail\\\"", "\x7fdel", "?>", "x" * 300, "a;b:c|d [e] f"]
CTRL = ["bell\x07", "esc\x1b[31m", "\x01\x02", "form\x0cfeed", "\x08bs"]
PATHS = ["/w/a.c", "/w/b.c", "rel/x.h", "/w/inc/h.h", "/w/a b.c", "/w/q\"uote.c", "/w/am&p.c", "/w/<t>.h", "C:\\dir\\f.c", "/w/é.c", "/w/it's.c", "/w/a c.c", "/w/A.c", "/w/a.cc", "/w/b/a.c", "/w/./a.c", "a.c", "/w/a.c ", "/w/" + "d" * 200 + "/a.c", "/w/" + "d" * 200 + "/b.c"]
NUMS = [0, 1, 2, 3, 4, 5, 7, 8, 12, 16, 20, 31, 64, 100, 255, 256, 1000, 65536, 2147483647, -1]
NAMES = ["long line", "short variable name", "r", "use <auto>", "it's \"odd\"", "a & b", "naïve rule"]
CATS = ["size", "c & c++", "na<me>", "qu\"ote", "convention"]


def gen_viol(rng, ctrl):
    t = rng.choice(TEXTS) if rng.random() < 0.7 else "m%d" % rng.randrange(40)
    if ctrl and rng.random() < 0.3:
        t = rng.choice(CTRL)
    return [rng.choice(PATHS) if rng.random() < 0.7 else "", rng.choice(NUMS), rng.choice(NUMS), rng.choice(NUMS), rng.choice(NUMS), t]


class P(E.Prop):
    ID = "C03"
    COUNT = {"quick": 9000, "thorough": 60000}
    RULE = ("Seeded cases: 1-5 translation units (some given several times, some failing to compile), 1-4 scripted rules with random "
            "names/categories/priorities reporting random multisets of violations (boundary numbers, special text, exact duplicates, "
            "near duplicates differing in one field, hash-colliding positions, up to thousands), one of six formats, both duplicate "
            "modes, to a file or standard output, under random short writes and heap states; the report is decoded and compared.")
    PROBES = ["format:" + k for k in W.REP_NAMES] + ["dups:removed", "dups:kept", "neardup", "many", "to_file", "ctrl", "short_writes"]
    REAL = E.Prop.REAL + ["the six real reporters"]
    STUB = E.Prop.STUB + ["rules (scripted, so that the findings entering the system are known)"]

    def cases(self, rng, ctx, tier, i):
        fmt = rng.choice(sorted(W.REP_NAMES))
        ctrl = rng.random() < 0.25
        ntu = rng.choice([1, 1, 2, 2, 3, 5])
        tus = ["/w/t%d.c" % k for k in range(ntu)]
        order = list(tus)
        if rng.random() < 0.4:
            order += [rng.choice(tus) for _ in range(rng.randrange(1, 3))]
        bad = [t for t in tus if rng.random() < 0.12]
        nr = rng.choice([1, 1, 2, 3, 4])
        rules = []
        for k in range(nr):
            nm = (rng.choice(NAMES) if rng.random() < 0.6 else "rule") + (" %s" % "abcdefg"[k])
            acts = []
            base = [gen_viol(rng, ctrl) for _ in range(rng.choice([0, 1, 2, 4, 8]))]
            vs = list(base)
            for b in base:
                if rng.random() < 0.4:                      # exact duplicate
                    vs.append(list(b))
                if rng.random() < 0.5:                      # differs in exactly one field
                    c = list(b)
                    f = rng.randrange(6)
                    c[f] = {0: rng.choice(PATHS), 5: c[5] + rng.choice(["", "x", " ", "\\", "1"])}.get(f, rng.choice(NUMS)) if f in (0, 5) else \
                        (c[f] + 1 if c[f] < 2147483647 else 5)
                    vs.append(c)
                if rng.random() < 0.3:                      # same xor-combined position
                    c = list(b)
                    if 0 <= c[1] < 1000 and 0 <= c[2] < 1000:
                        d = rng.randrange(1, 8)
                        c[1] ^= d << 2
                        c[2] ^= d
                    vs.append(c)
            rng.shuffle(vs)
            for v in vs:
                acts.append([rng.choice(["*", "*", rng.choice(tus)]), "v"] + v)
            if rng.random() < 0.06:
                acts.append([rng.choice(tus), "many", "/w/m.c", 1, rng.choice([200, 1500, 4000]), 0, rng.choice([0, 9]), rng.choice(TEXTS[:20])])
            prio = rng.choice([1, 2, 3, 3])
            rules.append([nm, rng.choice(CATS), prio, acts])
        if len(rules) > 1 and rng.random() < 0.3:          # the same findings from another rule
            rules[1][3] = [list(a) for a in rules[0][3]]
        yield dict(fmt=fmt, tus=tus, order=order, bad=bad, rules=rules, allow=rng.random() < 0.4, ofile=rng.random() < 0.5,
                   glob=rng.random() < 0.25, io=[0, rng.choice([0, 0, 1, 7, 100, 4096])],
                   heap=[rng.randrange(1 << 30), rng.randrange(4), rng.randrange(4), rng.randrange(4), rng.randrange(3), 0, 1],
                   ctrl=ctrl)

    def world(self, case):
        pl = W.reporters(self.built, sim=False)
        scripts = []
        for k, (nm, cat, prio, acts) in enumerate(case["rules"]):
            p = "%s/lib%02d.so" % (W.RULES, k)
            pl[p] = ("rule", "s")
            scripts.append((p, nm, cat, prio, acts))
        files = {t: ("int f(void){return 0;}\n" if t not in case["bad"] else "int f( { syntax\n") for t in case["tus"]}
        fs = W.fs_of(pl, files)
        argv = ["oclint", "-report-type", case["fmt"], "-max-priority-1=99999", "-max-priority-2=99999", "-max-priority-3=99999"]
        if case["allow"]:
            argv.append("-allow-duplicated-violations")
        if case["glob"]:
            argv.append("-enable-global-analysis")
        if case["ofile"]:
            argv += ["-o", "out.rep"]
        argv += case["order"] + ["--"]
        return S.Run(argv=argv, plugins=pl, scripts=scripts, heap=tuple(case["heap"]), io=tuple(case["io"])), fs

    def model(self, case):
        out = []
        for t in case["order"]:
            if t in case["bad"]:
                continue
            for k, (nm, cat, prio, acts) in enumerate(case["rules"]):
                for m, typ, path, sl, sc, el, ec, msg in acts:
                    if m not in ("*", t):
                        continue
                    path = path or t
                    if typ == "v":
                        out.append((path, sl, sc, el, ec, k, msg))
                    else:
                        for i in range(sc):
                            out.append((path, sl + i, 1 + i % 7, sl + i, ec, k, msg + str(i)))
        if not case["allow"]:
            out = list(dict.fromkeys(out))
        return out

    def execute(self, case, ctx):
        run, fs = self.world(case)
        r = ctx.run(run, fs)
        exp = self.model(case)
        fmt = case["fmt"]
        ctx.probe("format:" + fmt)
        if case["ofile"]:
            ctx.probe("to_file")
        if case["io"][1]:
            ctx.probe("short_writes")
        if case["ctrl"]:
            ctx.probe("ctrl")
        if len(exp) > 1000:
            ctx.probe("many")
        ctx.probe("dups:kept" if case["allow"] else "dups:removed")
        ctx.probe("neardup")
        want = 6 if any(t in case["bad"] for t in case["order"]) else 0
        if r.exit() != want:
            return [E.Viol("status", "the run ended with %s instead of %d; stderr: %r" % (r.exit(), want, r.err[-400:]))]
        data = r.fs.read("/w/out.rep") if case["ofile"] else r.out
        if data is None:
            return [E.Viol("no-report", "no report file was written")]
        rules = case["rules"]
        if fmt in ("text", "xcode"):
            return self.lines(case, exp, data, fmt)
        try:
            items, summ, extra = R.READERS[fmt](data)
        except (R.Bad, KeyError, TypeError, AttributeError, IndexError) as e:
            return [E.Viol("malformed-" + fmt, "%s\nreport begins %r" % (e, data[:300]))]
        want = []
        for path, sl, sc, el, ec, k, msg in exp:
            nm, cat, prio, _ = rules[k]
            if fmt == "pmd":
                want.append((path, sl, sc, el, ec, nm, cat, 2 * prio - 1, msg))
            elif fmt == "html":
                want.append((path, sl, sc, 0, 0, nm, cat, prio, msg))
            elif el == 0 or ec == 0:
                want.append((path, sl, sc, 0, 0, nm, cat, prio, msg))
            else:
                want.append((path, sl, sc, el, ec, nm, cat, prio, msg))
        got = [tuple(i[1:]) for i in items if i.kind == "V"]
        if fmt in ("xml", "pmd", "html"):
            want, got = [self.norm(x, fmt, case["ctrl"]) for x in want], [self.norm(x, fmt, case["ctrl"]) for x in got]
        oa, ob = W.msdiff(want, got)
        if oa or ob:
            return [E.Viol("content-" + fmt, "report does not list exactly the findings\n" + W.diff_text(oa, ob, "findings", "report"))]
        return self.summary(case, exp, summ, fmt)

    def norm(self, t, fmt, ctrl):
        def n(x):
            if not isinstance(x, str):
                return x
            if ctrl:
                return re.sub("[\x00-\x1f\ufffd? ]", "", x)   # not representable in XML: must only be well formed
            if fmt == "html":
                x = x.replace("\r\n", "\n").replace("\r", "\n")
            return x
        return tuple(n(x) for x in t)

    def summary(self, case, exp, summ, fmt):
        if summ is None:
            return []
        pr = collections.Counter(case["rules"][e[5]][2] for e in exp)
        nfiles = sum(1 for t in case["order"] if t not in case["bad"])
        want = dict(files=nfiles, withv=len({e[0] for e in exp}), p={k: pr[k] for k in (1, 2, 3)})
        got = {k: summ[k] for k in want}
        if got != want:
            return [E.Viol("summary", "summary of the %s report is %r, the listed items say %r" % (fmt, got, want))]
        return []

    def lines(self, case, exp, data, fmt):
        L = []
        for path, sl, sc, el, ec, k, msg in exp:
            nm, cat, prio, _ = case["rules"][k]
            L.append("%s:%d:%d: %s%s [%s|P%d] %s" % (path, sl, sc, "" if fmt == "text" else "warning: ", nm, cat, prio, msg))
        if fmt == "xcode":
            block, summ = data.decode("utf8", "surrogateescape"), None
        else:
            try:
                sec, summ, _ = R.read_text(data)
            except R.Bad as e:
                return [E.Viol("malformed-text", str(e))]
            block = sec["V"]
            if block and not block.endswith("\n"):
                block += "\n"
        # the block must be a concatenation of exactly these lines, in some order
        rest = block
        if sorted(l for l in rest.split("\n")) != sorted(l for x in L for l in (x + "\n").split("\n")[:-1]) + [""] and \
           sorted(rest.split("\n")) != sorted([""] + [l for x in L for l in x.split("\n")]):
            a = [l for x in L for l in x.split("\n")]
            oa, ob = W.msdiff(a, rest.split("\n")[:-1] if rest.endswith("\n") else rest.split("\n"))
            return [E.Viol("content-" + fmt, "report does not list exactly the findings\n" + W.diff_text(oa, ob, "findings", "report"))]
        for x in set(L):
            if ("\n" + block).count("\n" + x + "\n") < 1:
                return [E.Viol("content-" + fmt, "the finding %r is not in the report as such" % x)]
        return self.summary(case, exp, summ, fmt)

    def shrink(self, case):
        for o in E.drop_each(case["order"], 1):
            yield dict(case, order=o)
        for rs in E.drop_each(case["rules"], 1):
            yield dict(case, rules=rs)
        for i, r in enumerate(case["rules"]):
            for a in E.drop_each(r[3], 0):
                yield dict(case, rules=case["rules"][:i] + [r[:3] + [a]] + case["rules"][i + 1:])
        if case["bad"]:
            yield dict(case, bad=[])
        for k, v in (("glob", False), ("io", [0, 0]), ("heap", [0, 0, 0, 0, 0, 0, 1]), ("ofile", False)):
            if case[k] != v:
                yield dict(case, **{k: v})
        for i, r in enumerate(case["rules"]):
            for n in (0, 1):
                s = ("r" + "abcdefg"[i], "c")[n]
                if r[n] != s:
                    yield dict(case, rules=case["rules"][:i] + [r[:n] + [s] + r[n + 1:]] + case["rules"][i + 1:])
            for j, a in enumerate(r[3]):
                for f, s in ((7, "m"), (2, ""), (3, 1), (4, 1), (5, 1), (6, 1)):
                    if a[1] == "v" and a[f] != s and not (f == 7 and len(a[7]) < 2):
                        na = a[:f] + [s] + a[f + 1:]
                        yield dict(case, rules=case["rules"][:i] + [r[:3] + [r[3][:j] + [na] + r[3][j + 1:]]] + case["rules"][i + 1:])
