"""C11: generation times in reports are the clock's time."""
import calendar, os, re, time
import engine as E
import scen
import simrun as S
import world as W
import reports as R

TZS = ["UTC0", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "<+0530>-5:30", "<-03>3", "NZST-12NZDT,M9.5.0,M4.1.0/3", "<+14>-14", "<-12>12",
       "<+0545>-5:45", "PST8PDT,M3.2.0,M11.1.0", "AEST-10AEDT,M10.1.0,M4.1.0/3"]


def ts(*a):
    return calendar.timegm(a + (0,) * (6 - len(a)) + (0, 0, 0))


MARKS = [0, 1, 59, 86399, 86400, 2**31 - 1, 2**31, 2**31 + 1, 2**32 - 1, 2**32, 10**9, ts(2000, 2, 29), ts(2000, 12, 31, 23, 59, 59), ts(2024, 2, 28, 23, 59, 59),
         ts(2024, 2, 29, 12), ts(2023, 3, 12, 6, 59, 59), ts(2023, 3, 12, 7), ts(2023, 11, 5, 5, 59, 59), ts(2023, 11, 5, 6), ts(2023, 3, 26, 1),
         ts(2023, 10, 29, 1), ts(2100, 2, 28, 23, 59, 59), ts(2100, 3, 1), ts(2099, 12, 31, 23, 59, 59), ts(2038, 1, 19, 3, 14, 7), ts(2200, 1, 1),
         ts(2016, 12, 31, 23, 59, 59), ts(1999, 12, 31, 23, 59, 59), -1, -86400, ts(1950, 6, 1)]


class P(E.Prop):
    ID = "C11"
    COUNT = {"quick": 5000, "thorough": 60000}
    RULE = ("Seeded cases: clock values at and around every month, year, leap-day, daylight-saving and 32-bit boundary and at random "
            "over 1930-2250, eleven time zones, clocks that run slow, fast (seconds per operation) or jump forwards or back at a chosen "
            "operation, all report formats; the printed time must be the clock's value while the report was produced, and the rest "
            "of the report must equal that of a run under another clock.")
    PROBES = ["json", "xml", "html", "untimed", "jump_back", "jump_forward", "fast_clock", "far_future", "before_epoch", "dst", "year_end"]
    REAL = E.Prop.REAL + ["the six real reporters", "glibc time conversion"]
    STUB = E.Prop.STUB + ["rules (scripted)"]

    def cases(self, rng, ctx, tier, i):
        fmt = rng.choice(["json", "xml", "html"] * 4 + ["text", "pmd", "xcode"])
        x = rng.random()
        if x < 0.4:
            t = rng.choice(MARKS) + rng.randrange(-3, 4)
        elif x < 0.7:
            t = ts(rng.randrange(1971, 2120), rng.randrange(1, 13), 1) - rng.randrange(0, 3) + rng.randrange(2) * rng.randrange(0, 86400 * 28)
        else:
            t = rng.randrange(ts(1930, 1, 1), ts(2250, 1, 1))
        files, units, kinds = scen.small_project(rng)
        rules = [["", "r", "c", 1, [scen.act(rng.choice(units), "v", "", 1, 1, 1, 1, rng.choice(["m", "2023-11-14T22:13:20Z", "1700000000"]))
                                    for _ in range(rng.choice([0, 1, 3, 900 if rng.random() < 0.1 else 2]))]]]
        dest = rng.choice(["out", ""])
        argv = ["oclint", "-report-type", fmt] + (["-o", dest] if dest else []) + (["-allow-duplicated-violations"] if rng.random() < 0.3 else []) + units + ["--"]
        c = dict(files=files, rules=rules, argv=argv, fmt=fmt, dest=dest, heap=scen.rand_heap(rng), clock=t * 10**9 + rng.randrange(10**9),
                 tick=rng.choice([0, 1000, 10**6, 10**9 // 4, 10**9, 3600 * 10**9]), env={"HOME": "/home/u", "PATH": "/opt/oclint/bin", "TZ": rng.choice(TZS)},
                 jumps=[], faults=[], other=rng.choice([1700000000, 0, 2**31 - 5, 981173106]) * 10**9)
        if rng.random() < 0.3:
            ref = self.one(c, ctx)
            occ = [o for o in scen.occurrences(ref.trace) if o[0] not in ("dlsym", "write", "closew")]
            o = scen.pick_op(rng, occ)
            c["faults"] = [dict(op=o[0], path=o[1], nth=o[2], kind="clock", arg=max(-10**9, t + rng.choice([-1, 1]) * rng.choice([1, 60, 3600, 86400, 10**7])))]
        yield c

    def one(self, c, ctx, clock=None):
        case = dict(c)
        if clock is not None:
            case.update(clock=clock, faults=[], tick=1000)
        run, fs = scen.build_world(self.built, case)
        return ctx.run(run, fs, trace=True)

    def data(self, c, r):
        return r.fs.read("/w/" + c["dest"]) if c["dest"] else r.out

    def split(self, fmt, b):
        """-> (report with the time replaced, the time text or None)"""
        pat = {"json": rb'"timestamp":(-?[0-9]+)', "xml": rb"<datetime>([^<]*)</datetime>", "html": rb"<hr/?><p>([^\n]*)\n\| Generated|<p>([^\n<]*)\n\| Generated"}.get(fmt)
        if not pat:
            return b, None
        ms = list(re.finditer(pat, b))
        if not ms:
            return b, None
        m = ms[-1] if fmt == "html" else ms[0]
        g = 1 if m.group(1) is not None else 2
        return b[:m.start(g)] + b"@" + b[m.end(g):], m.group(g).decode("utf8", "replace")

    def execute(self, c, ctx):
        fmt = c["fmt"]
        r = self.one(c, ctx)
        if r.exit() not in scen.CLAIMS:
            return [E.Viol("status", "the run ended with %s: %r (clock %s)" % (r.exit(), r.err[-200:], c["clock"]))]
        b = self.data(c, r)
        rest, text = self.split(fmt, b)
        ctx.probe(fmt if fmt in ("json", "xml", "html") else "untimed")
        dest = "/w/out" if c["dest"] else "<stdout>"
        rows = r.trace
        idx = [k for k, t in enumerate(rows) if t[0] in ("openw", "write", "closew") and t[1] == dest]
        if not idx:
            idx = [len(rows) - 1]
        lo = idx[0] if c["dest"] else max(k for k in range(idx[0]) if rows[k][0] in ("read", "close", "open", "realpath", "stat", "fstat", "readlink"))
        hi = idx[-1] if c["dest"] else min(idx[-1], len(rows) - 1)
        times = [int(rows[k][4]) for k in range(lo, hi + 1)]
        if fmt in ("json", "xml", "html"):
            if text is None:
                return [E.Viol("no-time", "the %s report has no generation time: %r" % (fmt, b[:200]))]
            a, z = min(times) // 10**9, (max(times) + c["tick"] * 4) // 10**9
            if a < 0:
                z += 1  # before 1970 the full second may be the one before or the one behind
            self.count(c, ctx, a)
            V = []
            if fmt == "json":
                ok = re.fullmatch(r"-?\d+", text) and a <= int(text) <= z
                exp = "%d..%d" % (a, z)
            elif fmt == "xml":
                f = lambda t: "%04d-%02d-%02dT%02d:%02d:%02dZ" % time.gmtime(t)[:6]
                exp = f(a) + " .. " + f(z)
                m = re.fullmatch(r"(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)Z", text)
                ok = bool(m)
                if m:
                    g = tuple(int(x) for x in m.groups())
                    try:
                        v = calendar.timegm(g + (0, 0, 0))
                        ok = time.gmtime(v)[:6] == g and a <= v <= z
                    except ValueError:
                        ok = False
            else:
                old = os.environ.get("TZ")
                os.environ["TZ"] = c["env"]["TZ"]
                time.tzset()
                try:
                    ok = z - a <= 200000 and any(time.ctime(t) == text for t in range(a, min(z, a + 7300) + 1)) or (z - a > 7300 and self.between(text, a, z))
                    exp = time.ctime(a) + " .. " + time.ctime(z)
                finally:
                    if old is None:
                        os.environ.pop("TZ")
                    else:
                        os.environ["TZ"] = old
                    time.tzset()
            if not ok:
                V.append(E.Viol("wrong-time-" + fmt, "the %s report says %r, the clock showed %s while it was produced (TZ %s, faults %s)"
                                % (fmt, text, exp, c["env"]["TZ"], r.fired)))
            if V:
                return V
        r2 = self.one(c, ctx, clock=c["other"])
        rest2, _ = self.split(fmt, self.data(c, r2) or b"")
        if rest != rest2 or r.exit() != r2.exit():
            return [E.Viol("clock-elsewhere", "besides the generation time the report depends on the clock:\n%r\n%r" % (rest[-300:], rest2[-300:]))]
        return []

    def between(self, text, a, z):
        try:
            t = time.mktime(time.strptime(text, "%a %b %d %H:%M:%S %Y"))
        except ValueError:
            return False
        return a - 3600 <= t <= z + 3600

    def count(self, c, ctx, a):
        if c["faults"]:
            ctx.probe("jump_back" if c["faults"][0]["arg"] < c["clock"] // 10**9 else "jump_forward")
        if c["tick"] >= 10**9 // 4:
            ctx.probe("fast_clock")
        if a > 2**31:
            ctx.probe("far_future")
        if a < 0:
            ctx.probe("before_epoch")
        if "," in c["env"]["TZ"]:
            ctx.probe("dst")
        if time.gmtime(a)[1:3] in ((12, 31), (1, 1)):
            ctx.probe("year_end")

    def shrink(self, c):
        yield from scen.shrink_common(c)
        if c["tick"] > 1000:
            yield dict(c, tick=1000)
        if c["env"]["TZ"] != "UTC0":
            yield dict(c, env=dict(c["env"], TZ="UTC0"))
