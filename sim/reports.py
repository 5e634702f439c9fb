"""Readers of the six report formats: every reader is strict about the format's grammar and
returns the listed items, so a report that does not decode is a violation, not a parse guess."""
import json, re, collections
import xml.etree.ElementTree as ET
from html.parser import HTMLParser

Item = collections.namedtuple("Item", "kind path sl sc el ec rule cat prio msg")


class Bad(Exception):
    pass


def _int(s):
    if not re.fullmatch(r"-?\d+", s):
        raise Bad("not a number: %r" % s)
    return int(s)


def read_json(data):
    try:
        d = json.loads(data.decode("utf8", "surrogateescape"))
    except ValueError as e:
        raise Bad("json report is not well formed: %s" % e)
    items = []
    for kind, key in (("V", "violation"), ("B", "clangStaticAnalyzer")):
        for v in d[key]:
            items.append(Item(kind, v["path"], v["startLine"], v["startColumn"], v.get("endLine", 0), v.get("endColumn", 0),
                              v.get("rule"), v.get("category"), v.get("priority"), v["message"]))
    s = d["summary"]
    pr = {p["priority"]: p["number"] for p in s["numberOfViolationsWithPriority"]}
    return items, dict(files=s["numberOfFiles"], withv=s["numberOfFilesWithViolations"], p={k: pr[k] for k in (1, 2, 3)}), \
        dict(timestamp=d["timestamp"], version=d["version"])


def read_xml(data):
    try:
        r = ET.fromstring(data)
    except ET.ParseError as e:
        raise Bad("xml report is not well formed: %s" % e)
    items = []
    for kind, tag in (("V", "violations"), ("B", "clangstaticanalyzer")):
        sec = r.findall(tag)
        if len(sec) != 1:
            raise Bad("xml report has %d <%s>" % (len(sec), tag))
        for v in sec[0]:
            a = v.attrib
            items.append(Item(kind, a["path"], _int(a["startline"]), _int(a["startcolumn"]), _int(a.get("endline", "0")),
                              _int(a.get("endcolumn", "0")), a.get("rule"), a.get("category"),
                              _int(a["priority"]) if "priority" in a else None, a["message"]))
    p = {e.attrib["name"]: _int(e.text) for e in r.find("summary")}
    return items, dict(files=p["number of files"], withv=p["files with violations"],
                       p={k: p["number of priority %d violations" % k] for k in (1, 2, 3)}), \
        dict(datetime=r.find("datetime").text, version=r.attrib["version"])


def read_pmd(data):
    try:
        r = ET.fromstring(data)
    except ET.ParseError as e:
        raise Bad("pmd report is not well formed: %s" % e)
    items = []
    for f in r:
        if f.tag != "file" or len(f) != 1:
            raise Bad("unexpected pmd element %s" % f.tag)
        v = f[0]
        a = v.attrib
        t = v.text
        if not (t.startswith("\n") and t.endswith("\n")):
            raise Bad("unexpected pmd text %r" % t)
        rule = a.get("rule")
        kind = {"compiler error": "E", "compiler warning": "W", "clang static analyzer": "B"}.get(rule, "V") \
            if a.get("ruleset") == "clang" else "V"
        items.append(Item(kind, f.attrib["name"], _int(a["beginline"]), _int(a["begincolumn"]), _int(a["endline"]),
                          _int(a["endcolumn"]), rule, a.get("ruleset"), _int(a["priority"]), t[1:-1]))
    return items, None, {}


class _Html(HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.tables, self.stack, self.cell, self.tail, self.bad, self.td = [], [], None, "", None, None

    VOID = ("hr", "br", "meta", "link")

    def handle_starttag(self, tag, attrs):
        if tag in self.VOID:
            return
        if tag not in ("html", "head", "title", "style", "script", "body", "h1", "h2", "table", "thead", "tbody", "tr", "th", "td", "p", "a"):
            self.bad = "unexpected element <%s>" % tag
        self.stack.append(tag)
        if tag == "table":
            self.tables.append([])
        elif tag == "tr":
            self.tables[-1].append([])
        elif tag in ("td", "th"):
            self.cell = ""

    def handle_endtag(self, tag):
        if tag in self.VOID:
            return
        if not self.stack or self.stack[-1] != tag:
            self.bad = "unbalanced </%s>" % tag
            return
        self.stack.pop()
        if tag in ("td", "th"):
            self.tables[-1][-1].append(self.cell)
            self.cell = None

    def handle_data(self, d):
        if self.cell is not None:
            self.cell += d
        elif self.stack and self.stack[-1] in ("p", "a"):
            self.tail += d

    def handle_comment(self, d):
        self.bad = "unexpected comment"

    def unknown_decl(self, d):
        self.bad = "unexpected declaration"

    def handle_pi(self, d):
        self.bad = "unexpected processing instruction"


def read_html(data):
    p = _Html()
    p.feed(data.decode("utf8", "surrogateescape"))
    p.close()
    if p.bad:
        raise Bad("html report is malformed: %s" % p.bad)
    if p.stack or len(p.tables) != 2:
        raise Bad("html report is incomplete: open %r, %d tables" % (p.stack, len(p.tables)))
    items = []
    for row in p.tables[1][1:]:
        if len(row) != 6:
            raise Bad("html row with %d cells: %r" % (len(row), row))
        m = re.fullmatch(r"(-?\d+):(-?\d+)", row[1])
        if not m:
            raise Bad("html location %r" % row[1])
        kind = {"error": "E", "warning": "W", "checker bug": "B"}.get(row[4], "V") if row[3] == "" else "V"
        items.append(Item(kind, row[0], int(m[1]), int(m[2]), 0, 0, row[2], row[3], int(row[4]) if kind == "V" else None, row[5]))
    c = [_int(x) for x in p.tables[0][1]]
    return items, dict(files=c[0], withv=c[1], p={1: c[2], 2: c[3], 3: c[4]}, errors=c[5], warnings=c[6], bugs=c[7]), dict(footer=p.tail)


TEXT_SECTIONS = [("E", "\nCompiler Errors:\n(please be aware that these errors will prevent OCLint from analyzing this source code)\n\n"),
                 ("W", "\nCompiler Warnings:\n\n"), ("B", "\nClang Static Analyzer Results:\n\n")]


def read_text(data):
    """-> (sections: kind -> text block, summary); lines are matched by the caller, which knows
    what to expect (the format does not quote newlines)."""
    s = data.decode("utf8", "surrogateescape")
    sec = {}
    m = re.search(r"\n\nOCLint Report\n\nSummary: TotalFiles=(-?\d+) FilesWithViolations=(-?\d+) P1=(-?\d+) P2=(-?\d+) P3=(-?\d+) \n\n", s)
    if not m:
        raise Bad("text report has no summary: %r" % s[:300])
    tail = re.search(r"\n\[OCLint \([^)]*\) v[^\]]*\]\n\Z", s)
    if not tail or tail.start() < m.end() - 1:
        raise Bad("text report is not complete: %r" % s[-200:])
    head = s[:m.start()]
    pos = [(head.find(h), k, h) for k, h in TEXT_SECTIONS if h in head]
    pos.sort()
    for j, (i, k, h) in enumerate(pos):
        end = pos[j + 1][0] if j + 1 < len(pos) else len(head)
        sec[k] = head[i + len(h):end]
    sec["V"] = s[m.end():tail.start()] if tail.start() >= m.end() else ""
    g = [int(x) for x in m.groups()]
    return sec, dict(files=g[0], withv=g[1], p={1: g[2], 2: g[3], 3: g[4]}), {}


READERS = {"json": read_json, "xml": read_xml, "pmd": read_pmd, "html": read_html}
