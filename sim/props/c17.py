"""C17: every program the compiler accepts is analyzed to the end."""
import json
import re
import code as K
import engine as E
import headers
import odd
import scen
import simrun as S
import world as W
from props.c01 import SYS, shrink_text

STD = {"c": ["c89", "c99", "gnu99", "c11", "gnu17", "c2x"], "cpp": ["c++98", "c++11", "c++14", "c++17", "gnu++17", "c++20", "c++2b", "gnu++2b"],
       "m": ["gnu99", "gnu11"], "mm": ["gnu++17", "c++14", "c++20"]}
MODES = [[], [], [], ["-fblocks"], ["-fms-extensions"], ["-ffreestanding"], ["-fno-exceptions"], ["-O2"], ["-fshort-enums"], ["-Weverything"], ["-w"], ["-fdelayed-template-parsing"],
         ["-fopenmp"], ["-target", "i386-pc-linux-gnu"], ["-target", "armv7-none-eabi"], ["-fno-rtti"], ["-ftrivial-auto-var-init=zero"], ["-fcoroutines"], ["-fparse-all-comments"], ["-ferror-limit=0"]]
LAST = "/w/zlast"
LINE = re.compile(r'[ \t\f\v]*#[ \t]*(?:line[ \t]+)?(\d+)(?:[ \t]+"([^"]*)")?')


def places(path, text):
    """(file, first line, last line) that a position in this text may be given as"""
    ls = text.replace("\r\n", "\n").replace("\r", "\n").split("\n")
    # the text as it stands, should the directives be in comments or left out
    out = [(path, 1, len(ls))]
    name, lo, at = path, 1, 0
    for i, l in enumerate(ls):
        m = LINE.match(l)
        if m:
            out.append((name, lo, lo + i - at))
            name, lo, at = m.group(2) or name, int(m.group(1)), i + 1
    out.append((name, lo, lo + len(ls) - at))
    return out


def odd_unit(rng):
    lang = rng.choice(["c", "c", "cpp", "cpp", "m", "mm"])
    fl = list(K.FLAGS[lang])
    x = rng.random()
    if x < 0.7:
        fl += ["-std=" + (rng.choice(STD[lang]) if rng.random() < 0.4 else {"c": "gnu17", "cpp": "gnu++2b" if rng.random() < 0.5 else "gnu++20", "m": "gnu11", "mm": "gnu++20"}[lang])]
    if rng.random() < 0.4:
        fl += rng.choice(MODES)
    if lang in ("m", "mm"):
        fl += ["-fblocks", "-fobjc-runtime=macosx" if rng.random() < 0.5 else "-fobjc-nonfragile-abi" if False else "-fobjc-exceptions"]
        if rng.random() < 0.3:
            fl += ["-fobjc-arc"] if "-fobjc-runtime=macosx" in fl else []
    y = rng.random()
    if y < 0.1:
        t = odd.deep(rng, lang)
    elif y < 0.25:
        t = K.mutate(rng, odd.text(rng, lang))
    else:
        t = odd.text(rng, lang)
    return lang, fl, t


class P(E.Prop):
    ID = "C17"
    NEEDS_RULES = True
    COUNT = {"quick": 7000, "thorough": 60000}
    RULE = ("Seeded cases: 1-4 units of unusual but valid texts in C, C++, ObjC and ObjC++ (old and new language features, extensions, empty bodies, templates, lambdas, blocks, asm, "
            "odd file starts and ends, line endings, markers, deep nesting, long chains), corpus texts, generated and mutated programs, under many language standards and modes.  A run "
            "with one scripted rule tells which units the compiler accepts; then all rules analyze them with seeded memory layouts and contents, rule orders, thresholds, file orders, "
            "global analysis, and one more scripted rule that is loaded last must still have seen every accepted unit, and the report must be complete.")
    PROBES = ["accepted", "rejected", "odd", "corpus", "gen", "deep", "global", "empty_file", "c", "cpp", "m", "mm", "order", "crlf", "many", "found", "io", "reject_and_accept", "line_directive", "header"]
    STUB = ["file system, descriptors, stdio, mmap, directories, clock, environment, working directory (simulated libc)", "heap (seeded allocator)",
            "reporter and one rule (scripted)"]
    REAL = E.Prop.REAL + ["all rule libraries, metrics, rule helpers"]

    def limits(self, rng):
        if rng.random() < 0.6:
            return K.thresholds(rng)
        ks = sorted(K.PARAMS)
        return ["%s=%d" % (k, rng.choice([-2**31, -100, -25, -12, -3, -1, 0, 1, 5, 2**31 - 1, 2**31 - 5])) for k in rng.sample(ks, rng.choice([2, 6, len(ks)]))]

    def prepare(self, built):
        super().prepare(built)
        self.headers = headers.texts()

    def cases(self, rng, ctx, tier, i):
        files, units = {}, []
        # the installed headers in turn, each as the main file of a unit
        if i % 100 == 7 and self.headers:
            lang, std, h, p = self.headers[(i // 100) % len(self.headers)]
            with open(p, "rb") as f:
                text = f.read().decode("utf-8", "surrogateescape")
            q = "/w/u0." + lang
            yield dict(files={q: text}, units=[dict(path=q, flags=["-std=" + std, "-w", "-Wno-invalid-constexpr"], ext=lang, kind="header")], order=None, rc=self.limits(rng),
                       glob=False, dup=True, heap=scen.rand_heap(rng), io=[0, 0])
            return
        for k in range(rng.choice([1, 1, 1, 2, 3, 4])):
            kind = rng.choice(["odd"] * 6 + ["unit"] * 2)
            ext, fl, text = odd_unit(rng) if kind == "odd" else K.unit(rng)
            if kind == "unit" and rng.random() < 0.5:
                text = K.mutate(rng, text)
            p = "/w/u%d.%s" % (k, ext)
            if rng.random() < 0.1:
                files["/w/inc%d.h" % k] = text
                text = rng.choice(['#include "inc%d.h"\n', '#include "inc%d.h"\nint tail%%d;\n' .replace("%%d", str(k)), 'int head;\n#include "inc%d.h"']) % k
            files[p] = text
            units.append(dict(path=p, flags=list(fl), ext=ext, kind=kind))
        order = None
        if rng.random() < 0.3:
            order = sorted(self.built["rules"])
            rng.shuffle(order)
        yield dict(files=files, units=units, order=order, rc=self.limits(rng), glob=rng.random() < 0.25, dup=rng.random() < 0.5,
                   heap=scen.rand_heap(rng), io=scen.rand_io(rng) if rng.random() < 0.3 else [0, 0])

    def go(self, c, ctx, real):
        pl = W.all_rules(self.built, None if real else [])
        last = LAST + "/libz.so"
        pl[last] = ("rule", "s")
        pl[W.SIMREP] = ("reporter", "sim")
        files = dict(c["files"])
        files["/w/compile_commands.json"] = json.dumps([{"directory": "/w", "file": u["path"], "arguments": [SYS[u["ext"]]] + u["flags"] + ["-c", u["path"]]} for u in c["units"]])
        argv = ["oclint", "-p", "/w", "-report-type", "sim", "-R=" + S.RULES, "-R=" + LAST] + ["-rc=" + x for x in c["rc"]] + \
            ["-max-priority-1=100000", "-max-priority-2=100000", "-max-priority-3=100000"] + \
            [x for x, b in (("-enable-global-analysis", c["glob"]), ("-allow-duplicated-violations", c["dup"])) if b] + [u["path"] for u in c["units"]]
        orders = {S.RULES: [".", ".."] + ["lib%s.so" % l for l in c["order"]]} if c["order"] and real else {}
        fs = W.fs_of(pl, files, [LAST, S.RULES], orders=orders)
        r = ctx.run(S.Run(argv=argv, plugins=pl, scripts=[(last, "zlast", "c", 3, [tuple(scen.act("*", "v", "", 1, 1, 1, 1, "seen"))])], heap=tuple(c["heap"]), io=tuple(c["io"]), cpu=40),
                    fs, keep_fs=False)
        return r, W.Dump(r.out)

    def execute(self, c, ctx):
        r0, d0 = self.go(c, ctx, False)
        P = ctx.probe
        for u in c["units"]:
            P(u["ext"])
            P({"odd": "odd", "header": "header"}.get(u["kind"], "corpus"))
        if not d0.ok:
            # the compiler itself gave up: not ours to judge here
            P("compiler_failed")
            return []
        ok = [v.path for v in d0.v if v.rule == "zlast"]
        if d0.e:
            P("rejected")
        if not ok:
            return []
        P("accepted")
        if d0.e:
            P("reject_and_accept")
        if len(ok) > 1:
            P("many")
        for k, b in (("global", c["glob"]), ("order", c["order"]), ("io", c["io"] != [0, 0]), ("crlf", any("\r\n" in t for t in c["files"].values())),
                     ("deep", any(len(t) > 3000 for t in c["files"].values())), ("empty_file", any(not t for t in c["files"].values())), ("gen", any(u["kind"] == "unit" for u in c["units"]))):
            if b:
                P(k)
        r, d = self.go(c, ctx, True)
        if r.sig or r.note & 2:
            return [E.Viol("crash", "with all rules the run ends with %s (signal %s) on units that the compiler accepts: %s" % (r.exit(), r.sig, ok))]
        if r.exit() != r0.exit() or not d.ok:
            return [E.Viol("status", "with all rules the run ends with status %s (%s with one): %r" % (r.exit(), r0.exit(), r.err[-300:]))]
        seen = [v.path for v in d.v if v.rule == "zlast"]
        if seen != ok:
            return [E.Viol("unseen", "after the other rules the last one has seen %s of %s" % (seen, ok))]
        for what, a, b in (("errors", d.e, d0.e), ("warnings", d.w, d0.w)):
            oa, ob = W.msdiff(a, b)
            if oa or ob:
                return [E.Viol("diagnostics", "compiler %s differ with the rules loaded:\n%s" % (what, W.diff_text(oa, ob, "with all rules", "without")))]
        # places that the findings name exist
        ok_places = {"<built-in>": [(1, 10 ** 9)]}     # declarations that the compiler itself provides
        for p, t in c["files"].items():
            for name, lo, hi in places(p, t):
                ok_places.setdefault(name, []).append((lo, hi))
        got = [v for v in d.v if v.rule != "zlast"]
        if got:
            P("found")
        for v in got:
            if v.path not in ok_places:
                return [E.Viol("place", "a finding names a file that is not part of the program: %s" % W.show(v))]
            if not (v.el >= 0 and any(lo <= v.sl <= hi for lo, hi in ok_places[v.path])):
                return [E.Viol("place", "a finding names lines that do not exist (there are %s): %s" % (ok_places[v.path], W.show(v)))]
            if v.path not in c["files"]:
                P("line_directive")
        return []

    def shrink(self, c):
        if len(c["units"]) > 1:
            for k in range(len(c["units"])):
                yield dict(c, units=c["units"][:k] + c["units"][k + 1:], files={p: t for p, t in c["files"].items() if p != c["units"][k]["path"]})
        for k, z in (("order", None), ("rc", []), ("glob", False), ("dup", False), ("heap", scen.DEFAULT_HEAP), ("io", [0, 0])):
            if c[k] != z:
                yield dict(c, **{k: z})
        for k, u in enumerate(c["units"]):
            for fl in E.drop_each(u["flags"], 0):
                yield dict(c, units=c["units"][:k] + [dict(u, flags=fl)] + c["units"][k + 1:])
        yield from shrink_text(c)
