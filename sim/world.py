"""Scenarios as JSON values, and readers of the reports."""
import json, re, collections
import simrun as S

EXE, RULES, REPORTERS = S.EXE, S.RULES, S.REPORTERS
REP_NAMES = {"text": "TextReporter", "xml": "XMLReporter", "json": "JSONReporter", "html": "HTMLReporter",
             "pmd": "PMDReporter", "xcode": "XcodeReporter"}
SIMREP = REPORTERS + "/libSimReporter.so"


def reporters(built, sim=True, only=None):
    pl = {}
    for n in sorted(built["reporters"]):
        if only is None or n in only:
            pl[REPORTERS + "/lib%s.so" % n] = ("real", n)
    if sim:
        pl[SIMREP] = ("reporter", "sim")
    return pl


def all_rules(built, only=None):
    return {RULES + "/lib%s.so" % n: ("real", n) for n in sorted(built["rules"]) if only is None or n in only}


def fs_of(plugins, files, dirs=(), links=None, orders=None, modes=None, mtimes=None, inos=None):
    fs = S.base_fs(plugins)
    for d in dirs:
        fs.dir(d)
    for p in sorted(files):
        c = files[p]
        need = p.rsplit("/", 1)[0]
        while need and need not in fs.nodes:
            fs.dir(need)
            need = need.rsplit("/", 1)[0]
        fs.add(p, c)
    for p, t in sorted((links or {}).items()):
        fs.link(p, t)
    for p, m in (modes or {}).items():
        if p in fs.nodes:
            fs.nodes[p]["mode"] = m
    for p, o in (orders or {}).items():
        fs.orders[p] = list(o)
    return fs


V = collections.namedtuple("V", "path sl sc el ec rule msg")


class Dump:
    """What the scripted reporter 'sim' recorded of the Results."""

    def __init__(self, data):
        self.ok = False
        self.v, self.e, self.w, self.b = [], [], [], []
        self.files = self.prios = self.counts = self.has = None
        data = data.encode("utf8", "surrogateescape") if isinstance(data, str) else data
        i = data.find(b"BEGIN sim\n")
        if i < 0:
            return
        self.prefix = data[:i]
        i += 10

        def tok(i):
            j = data.index(b":", i)
            n = int(data[i:j])
            return data[j + 1:j + 1 + n].decode("utf8", "surrogateescape"), j + 2 + n
        try:
            while True:
                c = data[i:i + 2]
                if c in (b"V ", b"E ", b"W ", b"B "):
                    p, i = tok(i + 2)
                    nums = []
                    for _ in range(4):
                        j = data.index(b",", i)
                        nums.append(int(data[i:j]))
                        i = j + 1
                    r, i = tok(i)
                    m, i = tok(i)
                    i += 1
                    {b"V ": self.v, b"E ": self.e, b"W ": self.w, b"B ": self.b}[c].append(V(p, *nums, r, m))
                else:
                    break
            rest = data[i:].decode("utf8", "surrogateescape").split("\n")
            for l in rest:
                if l.startswith("FILES "):
                    self.files = [int(x) for x in l[6:].split()]
                elif l.startswith("P "):
                    self.prios = [int(x) for x in l[2:].split()]
                elif l.startswith("N "):
                    self.counts = [int(x) for x in l[2:].split()]
                elif l.startswith("HAS "):
                    self.has = l[4:]
            self.ok = rest[-2:] == ["END sim", ""]
        except (ValueError, IndexError):
            self.ok = False


def show(v):
    return "%s:%d:%d-%d:%d [%s] %s" % (v.path, v.sl, v.sc, v.el, v.ec, v.rule, v.msg)


def msdiff(a, b, n=6):
    """difference of two lists as multisets: (only in a, only in b)"""
    ca, cb = collections.Counter(a), collections.Counter(b)
    oa = list((ca - cb).elements())
    ob = list((cb - ca).elements())
    return oa, ob


def diff_text(oa, ob, la="first", lb="second", n=6):
    s = []
    for tag, l in ((la, oa), (lb, ob)):
        for v in l[:n]:
            s.append("only in %s: %s" % (tag, show(v) if isinstance(v, V) else v))
        if len(l) > n:
            s.append("... %d more only in %s" % (len(l) - n, tag))
    return "\n".join(s)


FINAL = {0: "SUCCESS", 5: "VIOLATIONS", 6: "COMPILATION_ERRORS"}
FAIL = {1: "RULE_NOT_FOUND", 2: "REPORTER_NOT_FOUND", 3: "PROCESSING", 4: "REPORTING", 7: "OPTIONS"}
