"""C18: memory and descriptors are given back unit by unit."""
import json
import code as K
import engine as E
import odd
import scen
import simrun as S
import world as W
from props.c01 import SYS

LAST = "/w/zlast"
STD = {"c": "gnu17", "cpp": "gnu++20", "m": "gnu11", "mm": "gnu++20"}
# what may stay per unit, per finding (a violation and its message, in up to three containers, one of them
# growing by doubling), and once
UNIT, FINDING, ONCE = 4096, 500, 16384
PADS = ["// %d-%d-%d words about this unit that nobody wants to read twice", "/* %d %d %d */", "#define PAD_%d_%d_%d 1", "typedef int pad_%d_%d_%d;", "extern int pad_%d_%d_%d;",
        "int pad_%d_%d_%d(void);", "", "struct pad_%d_%d_%d { int field; };", "enum { PADE_%d_%d_%d };"]
KINDS = ["ok", "error", "syntax", "fatal", "missing", "eio", "target", "limit", "twice", "dir"]


class P(E.Prop):
    ID = "C18"
    NEEDS_RULES = True
    COUNT = {"quick": 450, "thorough": 6000}
    RULE = ("Seeded cases: batches of up to 40 units that the compiler accepts, rejects early, late or at the first unknown include, that are missing, directories or fail to be "
            "read, for a target that does not exist, or listed twice; with scripted or all real rules, with and without the static analyzer pass and global analysis.  At each "
            "first touch of the next unit the simulator records the live heap bytes, the open descriptors and the mapped bytes: growth may depend on the number of findings, not "
            "on the size of the units (the same batch with 1 and with k copies of each text), and a batch of n units must behave the same under limits on heap and descriptors that "
            "were enough for its first few units.")
    PROBES = ["kind:" + k for k in KINDS] + ["real", "analyzer", "global", "header", "distinct", "limited", "directories", "config", "pad", "findings", "many", "big"] + ["lang:" + l for l in STD]
    STUB = ["file system, descriptors, stdio, mmap, directories, clock, environment, working directory (simulated libc)", "heap (seeded allocator, with limit and accounting)",
            "reporter and one rule (scripted)"]
    REAL = E.Prop.REAL + ["all rule libraries, metrics, rule helpers"]

    def cases(self, rng, ctx, tier, i):
        lang = rng.choice(["c", "c", "cpp", "cpp", "m", "mm"])
        items = rng.sample(odd.of(lang), rng.choice([2, 5, 10, 20]))
        kinds = [rng.choice(KINDS + ["ok"] * 4 + ["error"] * 2) for _ in range(rng.choice([1, 1, 2, 3]))]
        yield dict(lang=lang, items=items, kinds=kinds, big=rng.choice([4, 8, 16]), n=rng.choice([4, 5, 8]), real=rng.random() < 0.5,
                   ana=rng.random() < 0.3, glob=rng.random() < 0.15, header=rng.random() < 0.3, pad=[rng.randrange(len(PADS)), rng.choice([0, 0, 20, 100])], distinct=rng.random() < 0.5, heap=scen.rand_heap(rng),
                   dup=rng.random() < 0.7, rdirs=rng.choice([0, 0, 1, 3, 12]), conf=rng.random() < 0.3)

    def body(self, c, k, j):
        t = []
        for q in range(k):
            for a, x in enumerate(c["items"]):
                n = q * len(c["items"]) + a
                t.append(x.replace("\0", "%d" % (1000 + n) if not c["distinct"] else "%d_%d" % (100 + j, n)))
            # text that no rule reports
            t += [PADS[c["pad"][0]] % (((j if c["distinct"] else 0), q, z) if PADS[c["pad"][0]] else ()) for z in range(c["pad"][1])]
        return t

    def go(self, c, ctx, k, n, trace=2, limits=(0, 0)):
        """one run of n units per kind, each text repeated k times"""
        pl = W.all_rules(self.built, None if c["real"] else [])
        last = LAST + "/libz.so"
        pl[last] = ("rule", "s")
        pl[W.SIMREP] = ("reporter", "sim")
        base = K.FLAGS[c["lang"]] + ["-std=" + STD[c["lang"]], "-w"] + (["-fblocks", "-fobjc-runtime=macosx"] if c["lang"] in ("m", "mm") else [])
        files, dirs, units, db, faults = {}, [LAST, S.RULES], [], [], []
        for j in range(n * len(c["kinds"])):
            kind = c["kinds"][j % len(c["kinds"])]
            p = "/w/u%02d.%s" % (j, c["lang"])
            t = self.body(c, k, j)
            if kind == "error":
                t.append("int e0 = undeclared_thing;")
            elif kind == "syntax":
                t[len(t) // 2:len(t) // 2] = ["int e1 = ;", "struct { int e2; ) e3;"]
            elif kind == "fatal":
                t.append('#include "nowhere.h"')
            elif kind == "limit":
                t = ["int e%d = undeclared_%d;" % (q, q) for q in range(25)] + t
            fl = list(base)
            if c["header"]:
                files["/w/h%02d.h" % j] = "\n".join(t) + "\n"
                t = ['#include "h%02d.h"' % j, "int main_%d;" % j]
            if kind == "dir":
                dirs.append(p)
            elif kind != "missing":
                files[p] = "\n".join(t) + "\n"
            if kind == "eio":
                faults += [dict(op="open", path=p, nth=x, kind="EIO", arg=0) for x in range(1, 9)]
            if kind == "target":
                fl += ["-Xclang", "-triple", "-Xclang", "nonsense"]
            for _ in range(2 if kind == "twice" else 1):
                db.append({"directory": "/w", "file": p, "arguments": [SYS[c["lang"]]] + fl + ["-c", p]})
            units.append(p)
        files["/w/compile_commands.json"] = json.dumps(db)
        more = ["/w/rules%d" % x for x in range(c["rdirs"])]
        for x in more:
            dirs.append(x)
            pl[x + "/libn.so"] = ("rule", "s")
        if c["conf"]:
            files["/w/.oclint"] = "max-priority-1: 1\n"
            files["/home/u/.oclint"] = "max-priority-2: 1\n"
        argv = ["oclint", "-p", "/w", "-report-type", "sim", "-R=" + S.RULES] + ["-R=" + x for x in more] + ["-R=" + LAST] + [x for x, b in (
            ("-allow-duplicated-violations", c["dup"]), ("-enable-clang-static-analyzer", c["ana"]), ("-enable-global-analysis", c["glob"])) if b] + units
        fs = W.fs_of(pl, files, dirs)
        r = ctx.run(S.Run(argv=argv, plugins=pl, scripts=[(last, "zlast", "c", 3, [tuple(scen.act("*", "v", "", 1, 1, 1, 1, "seen"))])], heap=tuple(c["heap"]), cpu=120,
                          faults=faults, budget=10000000, limits=limits), fs, trace=trace, keep_fs=False)
        return r, W.Dump(r.out), units

    def points(self, r, units):
        """per pass: what is held when the next unit is touched first"""
        passes, last = [], None
        idx = {u: k for k, u in enumerate(units)}
        for row in r.trace:
            k = idx.get(row[1])
            if k is None or row[0] not in ("open", "stat") or k == last:
                continue
            if last is None or k < last:
                passes.append([])
            held = int(row[6]) - (row[0] == "open" and int(row[2]) >= 0)
            passes[-1].append((row[1], int(row[5]), held, int(row[7]), int(row[8])))
            last = k
        return passes

    def execute(self, c, ctx):
        out = []
        nk = len(c["kinds"])
        res = {}
        for k in (1, c["big"]):
            r, d, units = self.go(c, ctx, k, c["n"])
            if r.sig or not d.ok:
                return [E.Viol("crash", "a batch of %d units ended with %s: %s" % (len(units), r.exit(), r.err[-500:].decode("utf8", "replace")))]
            f = len(d.v) + len(d.e) + len(d.w) + len(d.b)
            found = FINDING * f + 4 * sum(len(v[6]) + len(v[0]) for x in (d.v, d.e, d.w, d.b) for v in x)
            ps = self.points(r, units)
            res[k] = (r, d, units, found, ps)
            if f:
                ctx.probe("findings")
            for q, pts in enumerate(ps):
                # after the warm-up of the first cycle
                w = min(nk * 2, len(pts) - 1)
                if len(pts) - w < 2:
                    continue
                a, b = pts[w], pts[-1]
                fds = [p[2] for p in pts[w:]]
                if max(fds) > 3 or max(p[2] for p in pts) > 3:
                    out.append(E.Viol("descriptors", "pass %d: descriptors held at each unit, with the three that the process starts with: %s" % (q + 1, [p[2] for p in pts])))
                if c["glob"] and q == 0:
                    continue
                maps = [p[3] for p in pts[w:]]
                if max(maps) > maps[0]:
                    out.append(E.Viol("mappings", "pass %d: bytes of files mapped at the next unit: %s" % (q + 1, maps)))
                grown = b[1] - a[1]
                if grown > ONCE + UNIT * (len(pts) - w) + found:
                    out.append(E.Viol("memory", "pass %d: %d units with %d findings leave %d bytes (units: %s; live bytes at the next unit: %s)" % (
                        q + 1, len(pts) - 1 - w, f, grown, "+".join(c["kinds"]), [p[1] for p in pts])))
        (r1, d1, u1, f1, p1), (r2, d2, u2, f2, p2) = res[1], res[c["big"]]
        if len(p1) == len(p2) and not out:
            for q, (x, y) in enumerate(zip(p1, p2)):
                w = min(nk * 2, len(x) - 1)
                if len(x) != len(y) or len(x) - w < 2 or (c["glob"] and q == 0):
                    continue
                g1, g2 = x[-1][1] - x[w][1], y[-1][1] - y[w][1]
                if g2 - g1 > ONCE + max(0, f2 - f1):
                    out.append(E.Viol("size", "pass %d: %d units leave %d bytes, the same units with each text %d times leave %d, for findings worth %d" % (q + 1, len(x) - 1 - w, g1, c["big"], g2, f2 - f1)))
        if not c["glob"] and not out:
            # limits that are enough for two units of each kind, and for the findings of all, must be enough for the batch
            rs, ds, us = self.go(c, ctx, c["big"], 2)
            if not rs.sig and ds.ok:
                pk = int(rs.trace[-1][8])
                fd = max(int(row[6]) for row in rs.trace)
                ps = self.points(rs, us)
                # the commands of more units, and their names
                base = max(0, p2[0][0][1] - ps[0][0][1]) if p2 and ps else 0
                # (the compiler's analyzer has tables whose growth depends on addresses)
                lim = pk + base + (pk // 16 if c["ana"] else pk // 50) + 2 * ONCE + UNIT * len(u2) + 2 * f2
                rl, dl, ul = self.go(c, ctx, c["big"], c["n"], trace=0, limits=(lim, fd + 1))
                ctx.probe("limited")
                if rl.exit() != r2.exit() or rl.out != r2.out:
                    out.append(E.Viol("limits", "%d units of each kind need %d bytes and %d descriptors, %d units of each kind do not do with %d bytes and %d descriptors: exit %s instead of %s, %s" % (
                        2, pk, fd, c["n"], lim, fd + 1, rl.exit(), r2.exit(), rl.err[-300:].decode("utf8", "replace"))))
        for k in c["kinds"]:
            ctx.probe("kind:" + k)
        ctx.probe("lang:" + c["lang"])
        for p, b in (("real", c["real"]), ("analyzer", c["ana"]), ("global", c["glob"]), ("header", c["header"]), ("distinct", c["distinct"]), ("directories", c["rdirs"]), ("config", c["conf"]), ("pad", c["pad"][1]), ("many", len(u2) >= 15), ("big", c["big"] >= 16)):
            if b:
                ctx.probe(p)
        return out

    def shrink(self, c):
        for x in E.drop_each(c["items"], 1):
            yield dict(c, items=x)
        for x in E.drop_each(c["kinds"], 1):
            yield dict(c, kinds=x)
        for k in ("real", "ana", "header", "distinct", "dup"):
            if c[k]:
                yield dict(c, **{k: False})
        if c["pad"][1]:
            yield dict(c, pad=[0, 0])
        if c["rdirs"]:
            yield dict(c, rdirs=0)
        if c["conf"]:
            yield dict(c, conf=False)
        if c["n"] > 4:
            yield dict(c, n=4)
        if c["heap"] != [0, 0, 0, 0, 0, 0, 1]:
            yield dict(c, heap=[0, 0, 0, 0, 0, 0, 1])
