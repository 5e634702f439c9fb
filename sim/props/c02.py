"""C02: rules do not influence each other."""
import json
import re
import code as K
import engine as E
import scen
import simrun as S
import world as W
from props.c01 import make_units, shrink_text, SYS


IDENT = {"base class destructor should be virtual or protected": "ProblematicBaseClassDestructor", "ivar assignment outside accessors or init": "AssignIvarOutsideAccessors",
         "unnecessary default statement in covered switch statement": "UnnecessaryDefaultStatement", "prefer early exits and continue": "PreferEarlyExit",
         "missing default in switch statements": "MissingDefaultStatement", "ill-placed default label in switch statement": "MisplacedDefaultLabel",
         "high npath complexity": "HighNPathComplexity"}


def ident(name):
    """the documented identifier of a rule"""
    return IDENT.get(name) or "".join(w[0].upper() + w[1:] for w in re.split("[^A-Za-z]+", name) if w)


class P(E.Prop):
    ID = "C02"
    NEEDS_RULES = True
    COUNT = {"quick": 2500, "thorough": 20000}
    RULE = ("Seeded cases: 1-4 units as for C01; every rule library loaded in one run as the reference, then runs with seeded subsets of the libraries, seeded listing orders, "
            "libraries spread over several rule directories, rules chosen and disabled by option or configuration file, and parameters of other rules changed, with other memory layouts and split or interrupted transfers.  Each "
            "rule must report exactly what it reported in the reference.")
    PROBES = ["subset", "single", "order", "split", "disable", "enable", "config_file", "param", "param_effect", "nodup", "global", "none_enabled", "error_unit", "io"]
    STUB = ["file system, descriptors, stdio, mmap, directories, clock, environment, working directory (simulated libc)", "heap (seeded allocator)",
            "reporter (scripted, records the results)"]
    REAL = E.Prop.REAL + ["all rule libraries, metrics, rule helpers"]
    names = None

    def rulemap(self, ctx):
        """library -> names of the rules it registers, learnt from runs with that library alone"""
        if P.names is None:
            P.names = {}
        return P.names

    def names_of(self, lib, ctx):
        m = self.rulemap(ctx)
        if lib not in m:
            pl = W.all_rules(self.built, [lib])
            pl[W.SIMREP] = ("reporter", "sim")
            r = ctx.host.run(S.Run(argv=["oclint", "-report-type", "sim", "-list-enabled-rules", "/w/e.c", "--"], plugins=pl), W.fs_of(pl, {"/w/e.c": "int e;\n"}), keep_fs=False)
            t = r.out.decode().split("BEGIN sim")[0]
            m[lib] = [l[2:] for l in t.split("\n") if l.startswith("- ")]
            if not m[lib]:
                raise S.HarnessError("no rules listed for %s: %r" % (lib, r.out[:300]))
        return m[lib]

    def cases(self, rng, ctx, tier, i):
        libs = sorted(self.built["rules"])
        allnames = sorted({n for l in libs for n in self.names_of(l, ctx)})
        units, files = [], {}
        for k, (ext, fl, text) in enumerate(make_units(rng, rng.choice([1, 1, 2]))[:3]):
            p = "/w/u%d.%s" % (k, ext)
            if rng.random() < 0.2:
                text = K.decorate(rng, ext, text)
            files[p] = text
            units.append(dict(path=p, flags=list(fl), ext=ext))
        runs = []
        for _ in range(rng.choice([2, 3, 4])):
            v = dict(libs=None, order=None, split=[], disable=[], enable=[], cfg=False, rc=None, heap=scen.rand_heap(rng), io=scen.rand_io(rng))
            x = rng.random()
            if x < 0.5:
                v["libs"] = sorted(rng.sample(libs, rng.choice([1, 1, 2, 5, 20, 40, 65])))
            if rng.random() < 0.6:
                o = list(v["libs"] or libs)
                rng.shuffle(o)
                v["order"] = o
            if rng.random() < 0.2:
                v["split"] = sorted(rng.sample(v["libs"] or libs, min(len(v["libs"] or libs), rng.choice([1, 3, 10]))))
            have = sorted({n for l in (v["libs"] or libs) for n in self.names_of(l, ctx)})
            y = rng.random()
            if y < 0.3:
                v["disable"] = rng.sample(have, min(len(have), rng.choice([1, 1, 3, 10])))
            elif y < 0.5:
                v["enable"] = rng.sample(have, min(len(have), rng.choice([1, 1, 3, 10])))
                if rng.random() < 0.3:
                    v["disable"] = [n for n in rng.sample(have, min(len(have), 2)) if n not in v["enable"]]
            v["cfg"] = rng.random() < 0.3
            if rng.random() < 0.4:
                k = rng.choice(sorted(K.LOW))
                v["rc"] = ["%s=%d" % (k, rng.choice(K.LOW[k] + [0, 1000]))]
                if rng.random() < 0.3:
                    v["rc"].append(rng.choice(["UNHEARD_OF=3", "LONG=1", "X=y"]))
                if rng.random() < 0.4:
                    # keys that only resemble a parameter
                    k = rng.choice(sorted(K.LOW))
                    v["rc"] += ["%s=%d" % (x, rng.choice([0, 1])) for x in rng.sample([k + "S", k + "_X", k.lower(), k[:-1], k.replace("_", "")], 2)]
            runs.append(v)
        yield dict(files=files, units=units, runs=runs, rc=K.thresholds(rng), dup=rng.random() < 0.75, glob=rng.random() < 0.2, heap=scen.rand_heap(rng))

    def go(self, c, ctx, v):
        libs = v["libs"] or sorted(self.built["rules"])
        pl = {}
        for l in libs:
            pl[("/w/more" if l in v["split"] else S.RULES) + "/lib%s.so" % l] = ("real", l)
        pl[W.SIMREP] = ("reporter", "sim")
        files = dict(c["files"])
        files["/w/compile_commands.json"] = json.dumps([{"directory": "/w", "file": u["path"], "arguments": [SYS[u["ext"]]] + u["flags"] + ["-c", u["path"]]} for u in c["units"]])
        rc = dict(x.split("=") for x in c["rc"])
        for x in v["rc"] or []:
            rc[x.split("=")[0]] = x.split("=")[1]
        argv = ["oclint", "-p", "/w", "-report-type", "sim"] + ["-rc=%s=%s" % kv for kv in sorted(rc.items())]
        argv += ["-R=" + S.RULES, "-R=/w/more"] if v["split"] else []
        if v["cfg"] and (v["disable"] or v["enable"]):
            files["/w/.oclint"] = "".join("%s:\n%s" % (k, "".join("  - %s\n" % json.dumps(n) for n in l)) for k, l in (("rules", v["enable"]), ("disable-rules", v["disable"])) if l)
        else:
            argv += ["-rule=" + n for n in v["enable"]] + ["-disable-rule=" + n for n in v["disable"]]
        argv += [x for x, b in (("-enable-global-analysis", c["glob"]), ("-allow-duplicated-violations", c["dup"])) if b] + [u["path"] for u in c["units"]]
        orders = {}
        if v["order"]:
            orders[S.RULES] = [".", ".."] + ["lib%s.so" % l for l in v["order"] if l not in v["split"]]
            if v["split"]:
                orders["/w/more"] = ["..", "."] + ["lib%s.so" % l for l in v["order"] if l in v["split"]]
        fs = W.fs_of(pl, files, ["/w/more"] if v["split"] else [], orders=orders)
        r = ctx.run(S.Run(argv=argv, plugins=pl, heap=tuple(v["heap"]), io=tuple(v.get("io", (0, 0))), cpu=40), fs, keep_fs=False)
        return r, W.Dump(r.out)

    def execute(self, c, ctx):
        ref, d0 = self.go(c, ctx, dict(libs=None, order=None, split=[], disable=[], enable=[], cfg=False, rc=None, heap=c["heap"]))
        if not d0.ok:
            return []
        if d0.e:
            ctx.probe("error_unit")
        if not c["dup"]:
            ctx.probe("nodup")
        if c["glob"]:
            ctx.probe("global")
        V = []
        for v in c["runs"]:
            libs = v["libs"] or sorted(self.built["rules"])
            have = {n for l in libs for n in self.names_of(l, ctx)}
            on = (set(v["enable"]) if v["enable"] else set(have)) - set(v["disable"])
            for k, p in (("libs", "subset"), ("order", "order"), ("split", "split"), ("disable", "disable"), ("enable", "enable"), ("rc", "param")):
                if v[k]:
                    ctx.probe(p)
            if v["cfg"] and (v["disable"] or v["enable"]):
                ctx.probe("config_file")
            if v["libs"] and len(v["libs"]) == 1:
                ctx.probe("single")
            r, d = self.go(c, ctx, v)
            if v.get("io", [0, 0]) != [0, 0]:
                ctx.probe("io")
            if not on:
                ctx.probe("none_enabled")
            if not d.ok:
                if not on and r.exit() == 1:
                    continue
                V.append(E.Viol("failed", "with rules %s the run ends with %s: %r" % (sorted(on)[:5], r.exit(), r.err[-300:])))
                continue
            free = set()
            for x in v["rc"] or []:
                free |= set(K.PARAMS.get(x.split("=")[0], []))
            want = [x for x in d0.v if ident(x.rule) in on and x.rule not in free]
            got = [x for x in d.v if x.rule not in free]
            if any(x.rule in free for x in d.v) != any(x.rule in free for x in d0.v):
                ctx.probe("param_effect")
            off = [x for x in d.v if ident(x.rule) not in on]
            if off:
                V.append(E.Viol("not-enabled", "rules that are not enabled report: %s" % [W.show(x) for x in off[:4]]))
                continue
            oa, ob = W.msdiff(got, want)
            if oa or ob:
                kind = "parameter" if v["rc"] and not (v["libs"] or v["disable"] or v["enable"] or v["order"] or v["split"]) else "rules"
                V.append(E.Viol(kind, "%s of %d libraries%s%s%s%s change other rules' findings:\n%s" % (
                    "a subset" if v["libs"] else "all", len(libs), ", listed in another order" if v["order"] else "", ", spread" if v["split"] else "",
                    ", enabled %s disabled %s" % (v["enable"][:4], v["disable"][:4]) if v["enable"] or v["disable"] else "", ", parameters %s" % v["rc"] if v["rc"] else "",
                    W.diff_text(oa, ob, "this run", "the reference"))))
            for what, a, b in (("errors", d.e, d0.e), ("warnings", d.w, d0.w)):
                oa, ob = W.msdiff(a, b)
                if oa or ob:
                    V.append(E.Viol("diagnostics", "compiler %s depend on the rules:\n%s" % (what, W.diff_text(oa, ob, "this run", "the reference"))))
        return V

    def shrink(self, c):
        for rs in E.drop_each(c["runs"], 1):
            yield dict(c, runs=rs)
        if len(c["units"]) > 1:
            for k in range(len(c["units"])):
                yield dict(c, units=c["units"][:k] + c["units"][k + 1:], files={p: t for p, t in c["files"].items() if p != c["units"][k]["path"]})
        for i, v in enumerate(c["runs"]):
            def put(**kw):
                return dict(c, runs=c["runs"][:i] + [dict(v, **kw)] + c["runs"][i + 1:])
            for k, z in (("order", None), ("split", []), ("cfg", False), ("disable", []), ("enable", []), ("rc", None), ("heap", scen.DEFAULT_HEAP), ("io", [0, 0])):
                if v.get(k, z) != z:
                    yield put(**{k: z})
            for k in ("disable", "enable"):
                for l in E.drop_each(v[k], 1):
                    yield put(**{k: l})
            libs = v["libs"] or sorted(self.built["rules"])
            for l in E.drop_each(libs, 1):
                yield put(libs=l, order=None if not v["order"] else [x for x in v["order"] if x in l], split=[x for x in v["split"] if x in l])
        for r in E.drop_each(c["rc"], 0):
            yield dict(c, rc=r)
        if c["heap"] != scen.DEFAULT_HEAP:
            yield dict(c, heap=scen.DEFAULT_HEAP)
        yield from shrink_text(c)
