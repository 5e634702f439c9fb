"""C07: suppression hides exactly what it is asked to hide."""
import bisect, json, re
import code as K
import engine as E
import scen
import simrun as S
import world as W
from props.c01 import shrink_text, SYS, same_suite

ATTR = '__attribute__((annotate("oclint:$%d$"))) '
ATTR_NAME = {"calling prohibited method": "prohibited method", "calling protected method": "protected method", "missing call to base method": "base method",
             "missing abstract method implementation": "abstract method"}


def closing(t, i):
    """offset just behind the brace that closes the first one opened at or after i"""
    depth = 0
    n = len(t)
    while i < n:
        c = t[i]
        if c in "\"'":
            j = i + 1
            while j < n and t[j] != c and t[j] != "\n":
                j += 2 if t[j] == "\\" else 1
            i = j
        elif t.startswith("//", i):
            i = t.find("\n", i)
            if i < 0:
                return None
        elif t.startswith("/*", i):
            i = t.find("*/", i) + 1
            if i <= 0:
                return None
        elif c == "{":
            depth += 1
        elif c == "}":
            depth -= 1
            if depth == 0:
                return i + 1
        elif c == ";" and depth == 0:
            return None
        i += 1
    return None


def first_attr(t, p):
    """where the run of attributes that p is in begins"""
    b = t.rfind("__attribute__", 0, p)
    while True:
        m = re.search(r"__attribute__\(\((?:annotate\(\"[^\"]*\"\)(?:, )?)+\)\) $", t[:b])
        if not m:
            return b
        b = m.start()


# comments and annotations that are not the documented ones
NEARLY = ["// !OCLINT", "//!OCLIN", "//OCLINT", "//! OC LINT", "//!!OCLINT", "///!OCLIN T", "//!OLCINT", "//?OCLINT"]


def missed(rng, rule):
    """nearly suppress, or suppress[rule]"""
    t = ["suppressed", "suppress ", "suppress everything", "suppress()", "suppress.", "suppress,", "suppress[]", "suppress[*]", "suppress[all]"]
    if rule:
        t += ["suppress[%s" % rule, "suppress[%s]" % rule.upper(), "suppress[%s]" % rule[:-1], "suppress[ %s]" % rule, "suppress[%s ]" % rule, "suppress(%s)" % rule, "suppress[x %s]" % rule,
              "suppress[x][%s]" % rule, "suppress[%s x]" % rule, "suppress [%s]" % rule]
    return rng.choice(t)


class Text:
    """A text with markers: $k$ in annotations, //$OCLINT for comments, //%OCLINT where it is no comment."""

    def __init__(self, marked, ann, on):
        def rep(m):
            k = int(m.group(1))
            a = ann.get(str(k))
            w = "suppress" if on else "nothing!"
            if a is None:
                return w
            if a.get("miss"):
                return a["miss"] if on else w + "." * (len(a["miss"]) - 8)
            return w + ("[%s]%s" % (a["rule"], a.get("comment", "")) if a["rule"] else "")
        self.pos = {}
        out, last, n = [], 0, 0
        for m in re.finditer(r"\$(\d+)\$", marked):
            out.append(marked[last:m.start()])
            n += m.start() - last
            self.pos[m.group(1)] = n
            r = rep(m)
            out.append(r)
            n += len(r)
            last = m.end()
        out.append(marked[last:])
        t = "".join(out)
        self.hidden = [k + 1 for k, l in enumerate(t.split("\n")) if "//$OCLINT" in l]
        t = t.replace("//$OCLINT", "//!OCLINT" if on else "//xOCLINT").replace("//%OCLINT", "//!OCLINT")
        self.text = re.sub(r"//~(\d)~", lambda m: NEARLY[int(m.group(1))] if on else "//" + "x" * (len(NEARLY[int(m.group(1))]) - 2), t)
        self.starts = [0] + [m.end() for m in re.finditer("\n", self.text)]

    def lc(self, off):
        k = bisect.bisect_right(self.starts, off) - 1
        return k + 1, off - self.starts[k] + 1

    def range_of(self, k, kind):
        """((line, col) of the first character, (line, col) behind the last) of the annotated declaration"""
        p = self.pos.get(k)
        if p is None:
            return None
        t = self.text
        p = t.index('"', p) + 1
        if kind == "v":
            b = first_attr(t, p)
            e = t.find(";", p)
        elif kind in ("f", "i"):
            b = first_attr(t, p)
            e = closing(t, p) if kind == "f" else t.find("@end", p) + 4
        elif kind == "m":
            b = t.rfind("\n", 0, p) + 1
            e = closing(t, p)
        else:
            b = t.rfind("\n", 0, p) + 1
            e = closing(t, p)
        if e is None or e < 4:
            return None
        return self.lc(b), self.lc(e)


TINY = [("if (1) { }", ["empty if statement", "constant if expression"]), ("if ($v & 1) ;", ["empty if statement", "bitwise operator in conditional"]),
        ("if (($v = 1)) { }", ["empty if statement", "parameter reassignment", "assignment expression in conditional"][:2]), ("if (!!$v) { $v = 1; }", ["double negative", "parameter reassignment", "multiple unary operator"]),
        ("if ((1)) { $v = (1); }", ["constant if expression", "parameter reassignment", "useless parentheses"]), ("if (1) { return; $v++; }", ["dead code", "constant if expression"]),
        ("switch ($v) { case 1: break; }", ["switch statements should have default", "too few branches in switch statement"]),
        ("switch ($v) { case 1: $v++; case 2: break; }", ["missing break in switch statement", "switch statements should have default", "too few branches in switch statement"]),
        ("(void)!!$v;", ["double negative", "multiple unary operator"]), ("if (1 & 2) { $v++; }", ["constant if expression", "bitwise operator in conditional"]),
        ("if (!!$v) ;", ["double negative", "multiple unary operator"]),
        ("if (1) if (!!!$v) { }", ["empty if statement", "constant if expression", "multiple unary operator", "double negative"])]


class P(E.Prop):
    ID = "C07"
    NEEDS_RULES = True
    COUNT = {"quick": 4000, "thorough": 30000}
    RULE = ("Seeded cases: 1-3 units (corpus, joined, generated) with //!OCLINT comments on seeded lines and oclint:suppress / oclint:suppress[rule] annotations on functions, "
            "methods, classes, interfaces and variables, also in included files, also as mere text in strings; all rules or a subset, seeded thresholds.  Each unit is first "
            "analyzed alone with the comments and annotations replaced by meaningless ones of the same length; then the batch with the real ones, in seeded order, with and "
            "without global analysis, equal relative names in several directories, split or interrupted transfers, must report exactly the unsuppressed rest.")
    PROBES = ["comment", "comment_hides", "annotation", "annotation_hides", "rule_annotation", "rule_annotation_hides", "rule_annotation_keeps", "kind_f", "kind_v", "kind_m", "kind_c", "kind_i",
              "included", "included_hides", "string", "same_name", "global", "several", "comment_keeps", "rule_comment", "nearly"]
    STUB = ["file system, descriptors, stdio, mmap, directories, clock, environment, working directory (simulated libc)", "heap (seeded allocator)",
            "reporter (scripted, records the results)"]
    REAL = E.Prop.REAL + ["all rule libraries, metrics, rule helpers"]
    RULES = ["short variable name", "long variable name", "unused local variable", "unused method parameter", "high cyclomatic complexity", "long method", "high ncss method",
             "deep nested block", "parameter reassignment", "empty if statement", "dead code", "goto statement", "long line", "constant if expression", "multiple unary operator",
             "bitwise operator in conditional", "too many parameters", "long class", "useless parentheses", "missing break in switch statement", "double negative"]

    def cases(self, rng, ctx, tier, i):
        ann, files, units = {}, {}, []
        same = rng.random() < 0.3
        dirs = ["/w/a", "/w/b", "/w/c"]
        cnt = [0]
        pref = [None]

        def one(kind):
            k = str(cnt[0])
            cnt[0] += 1
            r = rng.choice(pref[0] or self.RULES) if rng.random() < (0.8 if pref[0] else 0.5) else None
            ann[k] = dict(kind=kind, rule=ATTR_NAME.get(r, r))
            if r and rng.random() < 0.2:
                ann[k]["comment"] = "[because]"
            if rng.random() < 0.12:
                ann[k] = dict(kind=kind, rule=None, miss=missed(rng, ann[k]["rule"]))
            return ATTR % int(k)

        def mark(kind):
            t = one(kind)
            while rng.random() < 0.25:
                x = rng.random()
                if x < 0.5:
                    t += one(kind)
                elif x < 0.7:
                    t = t.rstrip()[:-2] + ", " + one(kind).strip()[len("__attribute__(("):] + " "
                elif x < 0.85:
                    t += '__attribute__((annotate("another:tool"))) '
                else:
                    t = '__attribute__((annotate("oclint"))) ' + t
            return t

        pa = rng.choice([0, 0.1, 0.3])

        def attrs(kind):
            return (" " + mark(kind).rstrip() if kind == "m" else mark(kind)) if rng.random() < (pa if kind != "v" else pa / 3) else ""
        for u in range(rng.choice([1, 1, 2, 3])):
            inc = None
            x = rng.random()
            if x < 0.15:
                # little more than one statement that several rules object to
                lang, fl = rng.choice(["c", "cpp"]), []
                fl = list(K.FLAGS[lang])
                text = ""
                for q in range(rng.choice([1, 1, 2])):
                    st, pref[0] = rng.choice(TINY)
                    text += "%svoid tiny%d(int arg%d)\n{\n    %s\n}\n" % (mark("f") if rng.random() < 0.8 else "", q, q, st.replace("$v", "arg%d" % q))
                pref[0] = None
            elif x < 0.55:
                lang = rng.choice(["c", "c", "cpp", "m", "mm", "cu"])
                g = K.Gen(rng, lang, attrs)
                text = "".join(g.program())
                fl = list(K.FLAGS[lang])
                if rng.random() < 0.25:
                    g.vars, g.fn, g.loop, g.labels = [], False, 0, None
                    inc = "".join(g.stmt(2, 0) for _ in range(rng.choice([2, 3, 5])))
                    text += "void with_included%d(struct P *p)\n{\n#include \"body%d.inc\"\n}\n" % (u, u)
            else:
                lang, fl, text = same_suite(rng)[0] if x < 0.8 else K.unit(rng, rng.choice(["joined", "mutant"]))
                if "annotate" in text or "OCLINT" in text or "$" in text:
                    text = re.sub(r'OCLINT|"oclint:[^"]*"|\$', lambda m: '"none"' if m.group()[0] == '"' else "", text)
                if pa:
                    ms = [m for m in re.finditer(r"^(?=(?:static |unsigned )?(?:int|void|bool|char) \w+\([^;{]*\)\s*\{)", text, flags=re.M)]
                    for m in sorted(rng.sample(ms, min(len(ms), rng.choice([1, 2]))), key=lambda m: -m.start()):
                        text = text[:m.start()] + mark("f") + text[m.start():]
            d = rng.choice(dirs) if same else dirs[0]
            stem = "u" if same else "u%d" % u
            p = "%s/%s.%s" % (d, stem, lang)
            if p in files:
                continue
            files[p] = text
            if inc:
                files["%s/body%d.inc" % (d, u)] = inc
            units.append(dict(path=p, dir=d, name=p.rsplit("/", 1)[1] if same else p, flags=fl, ext=lang, inc="%s/body%d.inc" % (d, u) if inc else None))
        c = dict(files=files, units=units, ann=ann, rules=None if rng.random() < 0.6 else sorted(rng.sample(sorted(self.built["rules"]), rng.choice([5, 20, 40]))), rc=K.thresholds(rng),
                 order=rng.sample(range(len(units)), len(units)), glob=rng.random() < 0.3, heap=[scen.rand_heap(rng), scen.rand_heap(rng)], io=scen.rand_io(rng))
        if rng.random() < 0.75:
            # where do findings start?
            starts = {}
            for j in range(len(units)):
                r, d = self.go(c, ctx, [j], False, False, scen.DEFAULT_HEAP)
                for v in d.v if d.ok else []:
                    q = v.path if v.path in files else units[j]["path"]
                    starts.setdefault(q, []).append(v.sl)
            new = dict(files)
            for p, t in files.items():
                l = t.split("\n")
                pick = set()
                for _ in range(rng.choice([0, 1, 1, 2, 4])):
                    pick.add(rng.choice(starts[p]) if starts.get(p) and rng.random() < 0.7 else rng.randrange(1, len(l) + 1))
                    if rng.random() < 0.3 and pick:
                        pick.add(max(pick) + rng.choice([-1, 1]))
                for k in sorted(pick):
                    if 1 <= k <= len(l) and self.plain(l, k - 1):
                        if rng.random() < 0.08 and l[k - 1].rstrip().endswith(";") and not l[k - 1].lstrip().startswith(("int ", "}", "case", "#", "-", "+", "@", "struct", "extern", "virtual", "static", "typedef")) and l[k - 1].startswith("    "):
                            l[k - 1] += ' (void)"//%OCLINT";'
                        else:
                            l[k - 1] += rng.choice([" //$OCLINT", "//$OCLINT", "  //$OCLINT: why", " //$OCLINT // twice"]) if rng.random() < 0.9 else " //~%d~" % rng.randrange(len(NEARLY))
                new[p] = "\n".join(l)
            c = dict(c, files=new)
        yield c

    def plain(self, l, k):
        s = l[k]
        if s.rstrip().endswith("\\") or (k and l[k - 1].rstrip().endswith("\\")) or "//" in s or "/*" in s or "*/" in s:
            return False
        return s.count('"') % 2 == 0

    def go(self, c, ctx, order, glob, on, heap, io=(0, 0)):
        db, files = [], {}
        for j in order:
            u = c["units"][j]
            db.append({"directory": u["dir"], "file": u["name"], "arguments": [SYS[u["ext"]]] + u["flags"] + ["-c", u["name"]]})
        for p, t in c["files"].items():
            files[p] = Text(t, c["ann"], on).text
        files["/w/compile_commands.json"] = json.dumps(db)
        pl = W.all_rules(self.built, c["rules"])
        pl[W.SIMREP] = ("reporter", "sim")
        argv = ["oclint", "-p", "/w", "-report-type", "sim", "-allow-duplicated-violations"] + ["-rc=" + x for x in c["rc"]] + (["-enable-global-analysis"] if glob else []) + [c["units"][j]["path"] for j in order]
        r = ctx.run(S.Run(argv=argv, plugins=pl, heap=tuple(heap), io=tuple(io), cpu=40), W.fs_of(pl, files), keep_fs=False)
        return r, W.Dump(r.out)

    def execute(self, c, ctx):
        want, free = [], []
        us = c["units"]
        shown = lambda v: v
        if len(us) > 1:
            ctx.probe("several")
        if len({u["name"] for u in us}) < len(us):
            ctx.probe("same_name")
        if c["glob"]:
            ctx.probe("global")
        if any("//%OCLINT" in t for t in c["files"].values()):
            ctx.probe("string")
        why = {}
        for j in range(len(us)):
            u = us[j]
            r, d = self.go(c, ctx, [j], False, False, c["heap"][0])
            if not d.ok or d.e:
                return []
            txt = {u["path"]: Text(c["files"][u["path"]], c["ann"], True)}
            if u["inc"]:
                txt[u["inc"]] = Text(c["files"][u["inc"]], c["ann"], True)
                ctx.probe("included")
            for v in d.v:
                q = u["inc"] if u["inc"] and v.path.endswith(".inc") else u["path"]
                t = txt[q]
                hide, loose, reason = False, False, None
                if v.sl in t.hidden:
                    hide, reason = True, "//!OCLINT"
                    ctx.probe("comment_hides")
                    if q == u["inc"]:
                        ctx.probe("included_hides")
                for k, a in c["ann"].items():
                    if a.get("miss"):
                        ctx.probe("nearly")
                        continue
                    rg = t.range_of(k, a["kind"])
                    if rg is None:
                        continue
                    (bl, bc), (el, ec) = rg
                    applies = not a["rule"] or a["rule"] == ATTR_NAME.get(v.rule, v.rule)
                    if v.rule == "long line":
                        if bl < v.sl < el:
                            if applies:
                                hide, reason = True, "annotation %s" % k
                        elif v.sl in (bl, el) and applies:
                            loose = True
                        continue
                    if (bl, bc) <= (v.sl, v.sc) < (el, ec):
                        if applies:
                            hide, reason = True, "annotation %s" % k
                            ctx.probe("rule_annotation_hides" if a["rule"] else "annotation_hides")
                            if a["kind"] == "v" and (v.sl, v.sc) == (bl, bc):
                                loose = True  # may be a finding about the statement
                        else:
                            ctx.probe("rule_annotation_keeps")
                    elif a["kind"] == "v" and applies and False:
                        loose = True
                if u["inc"] and not hide and any(t.range_of(k, a["kind"]) for k, a in c["ann"].items() if 0):
                    loose = True
                if loose and not (reason == "//!OCLINT"):
                    free.append(v)
                elif not hide:
                    want.append(v)
                    ctx.probe("comment_keeps")
                else:
                    why[v] = reason
            if any(t.hidden for t in txt.values()):
                ctx.probe("comment")
            for k, a in c["ann"].items():
                if any(k in t.pos for t in txt.values()):
                    ctx.probe("rule_annotation" if a["rule"] else "annotation")
                    ctx.probe("kind_" + a["kind"])
                    if a.get("comment"):
                        ctx.probe("rule_comment")
        r, d = self.go(c, ctx, c["order"], c["glob"], True, c["heap"][1], c.get("io", (0, 0)))
        if not d.ok:
            return [E.Viol("failed", "with the suppressions the run ends with %s: %r" % (r.exit(), r.err[-200:]))]
        oa, ob = W.msdiff(d.v, want)
        for v in free:
            if v in oa:
                oa.remove(v)
        if not oa and not ob:
            return []
        V = []
        if oa:
            v = oa[0]
            V.append(E.Viol("shown-%s" % (why.get(v, "?").split()[0].strip("/!")), "findings that a suppression (%s) covers are reported:\n%s" % (why.get(v, "?"), W.diff_text(oa, [], "the report"))))
        if ob:
            V.append(E.Viol("hidden", "findings that no suppression covers are missing:\n%s" % W.diff_text([], ob, "", "the expected report")))
        return V

    def shrink(self, c):
        if c["glob"]:
            yield dict(c, glob=False)
        if c.get("io", [0, 0]) != [0, 0]:
            yield dict(c, io=[0, 0])
        if len(c["units"]) > 1:
            for k in range(len(c["units"])):
                us = c["units"][:k] + c["units"][k + 1:]
                yield dict(c, units=us, order=[x - (x > k) for x in c["order"] if x != k])
        used = {u["path"] for u in c["units"]} | {u["inc"] for u in c["units"]}
        if set(c["files"]) - used:
            yield dict(c, files={p: t for p, t in c["files"].items() if p in used})
        for p, t in sorted(c["files"].items()):
            for m in re.finditer(r"\s*__attribute__\(\(annotate\(\"oclint:\$\d+\$\"\)\)\) ?|\s*//\$OCLINT.*", t):
                yield dict(c, files=dict(c["files"], **{p: t[:m.start()] + t[m.end():]}))
        r = c["rules"] or sorted(self.built["rules"])
        for l in E.drop_each(r, 1):
            yield dict(c, rules=l)
        for r in E.drop_each(c["rc"], 0):
            yield dict(c, rc=r)
        if c["heap"] != [scen.DEFAULT_HEAP] * 2:
            yield dict(c, heap=[scen.DEFAULT_HEAP] * 2)
        yield from shrink_text(c)
