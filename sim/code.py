"""Program texts for the real rules: a corpus of small units, a seeded program generator and mutations."""
import json, os, re

HERE = os.path.dirname(os.path.abspath(__file__))
_corpus = None
# parameter -> the rules documented to read it
PARAMS = {"CYCLOMATIC_COMPLEXITY": ["high cyclomatic complexity"], "LONG_CLASS": ["long class"], "LONG_LINE": ["long line"],
          "LONG_METHOD": ["long method"], "LONG_VARIABLE_NAME": ["long variable name"], "MAXIMUM_IF_LENGTH": ["prefer early exits and continue"],
          "MINIMUM_CASES_IN_SWITCH": ["too few branches in switch statement"], "NCSS_METHOD": ["high ncss method"],
          "NESTED_BLOCK_DEPTH": ["deep nested block"], "NPATH_COMPLEXITY": ["high npath complexity"],
          "SHORT_VARIABLE_NAME": ["short variable name"], "TOO_MANY_FIELDS": ["too many fields"], "TOO_MANY_METHODS": ["too many methods"],
          "TOO_MANY_PARAMETERS": ["too many parameters"]}
LOW = {"CYCLOMATIC_COMPLEXITY": [1, 2, 4], "LONG_CLASS": [1, 3, 8], "LONG_LINE": [20, 40, 70], "LONG_METHOD": [1, 3, 8], "LONG_VARIABLE_NAME": [3, 6, 12],
       "MAXIMUM_IF_LENGTH": [1, 2, 4], "MINIMUM_CASES_IN_SWITCH": [1, 2, 5], "NCSS_METHOD": [1, 3, 8], "NESTED_BLOCK_DEPTH": [1, 2, 3],
       "NPATH_COMPLEXITY": [1, 3, 10], "SHORT_VARIABLE_NAME": [2, 5, 9], "TOO_MANY_FIELDS": [1, 2], "TOO_MANY_METHODS": [1, 2], "TOO_MANY_PARAMETERS": [1, 2, 3]}


def corpus():
    global _corpus
    if _corpus is None:
        with open(os.path.join(HERE, "data", "corpus.json")) as f:
            _corpus = [tuple(x) for x in json.load(f)]
    return _corpus


def pick(rng):
    """a text, half of the time of a suite chosen first, so that rules with few texts get their turn"""
    if rng.random() < 0.5:
        return rng.choice(corpus())
    name = rng.choice(sorted({x[0] for x in corpus()}))
    return rng.choice([x for x in corpus() if x[0] == name])


def thresholds(rng, n=None):
    ks = sorted(LOW)
    pick = rng.sample(ks, n if n is not None else rng.choice([0, 3, 8, len(ks)]))
    return ["%s=%d" % (k, rng.choice(LOW[k])) for k in pick]


# ---------------------------------------------------------------- generator
class Gen:
    """Random functions and classes in C, C++, ObjC or ObjC++.  Compiles without errors."""

    def __init__(self, rng, lang, attrs=None):
        self.r, self.lang = rng, lang
        self.cpp = lang in ("cpp", "mm", "cu")
        self.objc = lang in ("m", "mm")
        self.n = 0
        self.attrs = attrs or (lambda kind: "")
        self.vars = []
        self.loop = 0
        self.fn = False
        self.labels = None

    def name(self, v=True):
        self.n += 1
        if v:
            return self.r.choice(["a%d", "x%d", "value%d", "aRatherLongVariableName%d", "q%d"]) % self.n
        return self.r.choice(["f%d", "computeSomething%d", "m%d"]) % self.n

    def lit(self):
        return self.r.choice(["0", "1", "2", "7", "10", "-1", "100"])

    def expr(self, d=2):
        r = self.r
        x = r.random()
        if d <= 0 or x < 0.3:
            return r.choice(self.vars) if self.vars and r.random() < 0.75 else self.lit()
        a, b = self.expr(d - 1), self.expr(d - 1)
        if x < 0.5:
            return "%s %s %s" % (a, r.choice(["+", "-", "*", "&", "|", "^"]), b)
        if x < 0.65:
            return "(%s)" % a
        if x < 0.75:
            return "(%s ? %s : %s)" % (self.cond(d - 1), a, b)
        if x < 0.8:
            return "!%s%s" % (r.choice(["", "!"]), "(" + a + ")")
        if x < 0.85:
            return "-~(%s)" % a
        if x < 0.9:
            return "(%s %% 2 == %s)" % ("(" + a + ")", r.choice(["1", "0"]))
        return "ext(%s)" % a

    def cond(self, d=2):
        r = self.r
        x = r.random()
        if x < 0.12:
            return r.choice(["0", "1", "!0", "1 == 1", "2 > 1"])
        if x < 0.2:
            return "p%s" % r.choice([" && p->k == 1", " || p->k == 1", " != 0 && p->k", " == 0 || p->k", "->k && p"])
        if x < 0.5:
            return "%s %s %s" % (self.expr(d - 1), r.choice(["==", "!=", "<", ">", "<=", ">="]), self.expr(d - 1))
        if x < 0.65 and d > 0:
            return "%s %s %s" % ("(" + self.cond(d - 1) + ")", r.choice(["&&", "||"]), "(" + self.cond(d - 1) + ")")
        if x < 0.72:
            return "(%s) & (%s)" % (self.expr(d - 1), self.expr(d - 1))
        return self.expr(d)

    def block(self, d, i, n=None):
        r = self.r
        keep = len(self.vars)
        n = r.choice([0, 1, 1, 2, 3]) if n is None else n
        s = "".join(self.stmt(d - 1, i + 1) for _ in range(n))
        del self.vars[keep:]
        return "{\n" + s + "    " * i + "}"

    def body(self, d, i):
        r = self.r
        x = r.random()
        if x < 0.06:
            return ";"
        if x < 0.16:
            return "{ }"
        return self.block(d, i)

    def stmt(self, d, i):
        r = self.r
        p = "    " * i
        x = r.random()
        if d <= 0 or x < 0.25:
            y = r.random()
            if y < 0.3:
                n = self.name()
                s = "%sint %s = %s;" % (self.attrs("v"), n, self.expr() if r.random() < 0.7 else "0")
                self.vars.append(n)
                return p + s + "\n"
            if y < 0.75 and self.vars:
                return p + "%s %s %s;\n" % (r.choice(self.vars), r.choice(["=", "+=", "-="]), self.expr())
            if y < 0.85:
                return p + "ext(%s);\n" % self.expr()
            if y < 0.9:
                return p + ";\n"
            if y < 0.95 and self.loop:
                return p + r.choice(["break;", "continue;"]) + "\n"
            return p + "ext(%s);\n" % ", ".join([self.expr(3)])
        if x < 0.42:
            s = p + "if (%s) %s" % (self.cond(), self.body(d, i))
            while r.random() < 0.35:
                if r.random() < 0.4:
                    s += "\n" + p + "else if (%s) %s" % (self.cond(), self.body(d, i))
                else:
                    s += "\n" + p + "else %s" % self.body(d, i)
                    break
            return s + "\n"
        if x < 0.48 and self.fn:
            e = self.cond()
            return p + r.choice(["if (%s) { return 1; } else { return 0; }", "if (%s) { return 1; } return 0;", "if (%s) { if (gv) { ext(1); } }",
                                 "if (!(%s)) { ext(1); } else { ext(2); }"]) % e + "\n"
        if x < 0.56:
            self.loop += 1
            k = r.random()
            if k < 0.3:
                s = p + "while (%s) %s\n" % (self.cond(), self.body(d, i))
            elif k < 0.6:
                v = self.name()
                s = p + "for (%s; %s; %s) %s\n" % (r.choice(["int %s = 0" % v, "int %s = 1" % v]), v + " < " + self.expr(1), r.choice([v + "++", "", v + " += 2"]), self.body(d, i))
            elif k < 0.75:
                s = p + "for (; %s;) %s\n" % (self.cond(), self.body(d, i))
            else:
                s = p + "do %s while (%s);\n" % (self.block(d, i), self.cond())
            self.loop -= 1
            return s
        if x < 0.64:
            s = p + "switch (%s) {\n" % self.expr()
            cs = r.sample(range(9), r.choice([0, 1, 2, 3, 4]))
            parts = ["case %d:\n%s%s" % (c, self.scoped(d - 1, i + 1), r.choice(["    " * (i + 1) + "break;\n", "    " * (i + 1) + "break;\n", ""])) for c in cs]
            parts = [("{sc}").replace("{sc}", t) for t in parts]
            if r.random() < 0.6:
                parts.insert(r.randrange(len(parts) + 1) if parts else 0, "default:\n" + "    " * (i + 1) + "ext(9);\n" + "    " * (i + 1) + "break;\n")
            # declarations inside a case would cross labels
            parts = [re.sub(r"^(case \d+:\n|default:\n)(.*)$", lambda m: m.group(1) + p + "{\n" + m.group(2) + p + "}\n", t, flags=re.S) if "int " in t else t for t in parts]
            return s + "".join(p + t for t in parts) + p + "}\n"
        if x < 0.68:
            return p + self.block(d, i) + "\n"
        if x < 0.71 and self.fn:
            return p + "return %s;\n" % self.expr()
        if x < 0.74 and self.labels is not None and not self.cpp:
            l = "lab%d" % len(self.labels)
            self.labels.append(l)
            return p + "goto %s;\n" % l
        if self.cpp and x < 0.82:
            y = r.random()
            if y < 0.4:
                return p + "try %s catch (%s) %s\n" % (self.block(d, i), r.choice(["...", "int"]), self.body(d, i) if r.random() < 0.01 else self.block(d, i, r.choice([0, 0, 1])))
            if y < 0.5:
                return p + "if (p) { delete p; p = 0; }\n"
            if y < 0.6:
                keep = self.vars, self.fn, self.loop, self.labels
                s = p + "struct L%d\n%s{\n%s    int k%d;\n" % (self.bump(), p, p, self.bump())
                if r.random() < 0.5:
                    s += p + "    virtual void hook(int z)\n" + p + "    {\n"
                    self.vars, self.fn, self.loop, self.labels = ["z"], False, 0, None
                    s += "".join(self.stmt(1, i + 2) for _ in range(r.choice([0, 1, 2])))
                    s += p + "    }\n"
                self.vars, self.fn, self.loop, self.labels = keep
                return s + p + "};\n"
            if y < 0.8:
                keep = self.vars
                fn, self.fn, lp, self.loop, lb, self.labels = self.fn, False, self.loop, 0, self.labels, None
                self.vars = [self.name()]
                s = p + "auto %s = [&](int %s) %s;\n" % ("l%d" % self.n, self.vars[0], self.block(d, i))
                self.vars, self.fn, self.loop, self.labels = keep, fn, lp, lb
                return s
            return p + "for (int %s : arr) %s\n" % (self.name(), self.body(d, i))
        if self.objc and x < 0.9:
            y = r.random()
            if y < 0.4:
                return p + "@try %s @catch (%s) %s%s\n" % (self.block(d, i), r.choice(["id e", "..."]), self.block(d, i, r.choice([0, 0, 1])),
                                                           " @finally %s" % (self.block(d, i, 0) if r.random() < 0.4 else "{ ext(3); }") if r.random() < 0.5 else "")
            if y < 0.6:
                return p + "@synchronized((id)0) %s\n" % self.block(d, i)
            if y < 0.8:
                return p + "@autoreleasepool %s\n" % self.block(d, i)
            return p + "NSNumber *n%d = [NSNumber numberWithInt:%s];\n" % (self.bump(), r.choice(["1", "gv", "(2 + 3)"]))
        if x < 0.94 and self.vars:
            return p + "if (!%s) { %s = %s; } ext(%s);\n" % (r.choice(self.vars), r.choice(self.vars), self.expr(1), self.expr(1))
        v = self.name()
        return p + "int %s = %s;\n" % (v, self.expr())

    def scoped(self, d, i):
        keep = len(self.vars)
        s = self.stmt(d, i)
        del self.vars[keep:]
        return s

    def bump(self):
        self.n += 1
        return self.n

    def function(self, head=None, i=0, fn=None):
        r = self.r
        ps = [self.name() for _ in range(r.choice([0, 1, 1, 2, 3, 5]))]
        self.vars = list(ps)
        self.fn = r.random() < 0.7 if fn is None else fn
        kernel = self.lang == "cu" and head is None and i == 0 and fn is None and r.random() < 0.5
        if kernel:
            self.fn = self.cpp = False
        self.labels, self.loop = [], 0
        body = "".join(self.stmt(r.choice([1, 2, 3, 3]), i + 1) for _ in range(r.choice([0, 1, 2, 3, 4, 6])))
        for l in self.labels:
            body += "    " * i + "%s:\n" % l + "    " * (i + 1) + "ext(0);\n"
        self.labels = None
        if self.fn:
            body += "    " * (i + 1) + "return %s;\n" % self.expr()
        pre = "    " * i
        where = ""
        if kernel:
            self.cpp = True
            where = r.choice(["__attribute__((global)) ", "__attribute__((global)) ", "__attribute__((device)) "])
        h = pre + self.attrs("f") + where + "%s %s(struct P *p%s)" % ("int" if self.fn else "void", head or self.name(False), "".join(", int " + q for q in ps))
        return h + "\n" + pre + "{\n" + body + pre + "}\n"

    def klass(self, depth=0):
        r = self.r
        n = "C%d" % self.bump()
        s = "%s %s%s%s\n{\npublic:\n" % (r.choice(["class", "struct"]), self.attrs("c"), n, " : public Base" if r.random() < 0.3 else "")
        for _ in range(r.choice([0, 1, 2, 3])):
            s += "    %sint %s;\n" % (r.choice(["", "", "static "]), self.name())
        if r.random() < 0.4:
            s += "    virtual void %s(int arg%s) {}\n" % (self.name(False), r.choice(["", " = 3"]))
        if r.random() < 0.3:
            s += "    %s~%s() {}\n" % (r.choice(["virtual ", ""]), n)
        if depth < 2 and r.random() < 0.25:
            s += self.klass(depth + 1)
        for _ in range(r.choice([0, 1, 2])):
            s += self.function(i=1)
        return s + "private:\n    static int s%d;\n};\n" % self.bump() if r.random() < 0.3 else s + "};\n"

    def iface(self):
        r = self.r
        n = "I%d" % self.bump()
        ms = []
        for _ in range(r.choice([1, 2, 3])):
            ms.append((r.choice(["-", "+"]), self.name(False), r.choice([0, 1, 2])))
        s = self.attrs("i") + "@interface %s : NSObject {\n    int iv%d;\n}\n" % (n, self.bump())
        impl = "@implementation %s\n" % n
        if r.random() < 0.3:
            impl += "- (BOOL)isEqual:(id)other { return 1; }\n"
        for k, m, a in ms:
            sig = "%s (int)%s" % (k, m) + "".join("%s:(int)arg%d" % (" with%d" % j if j else "", j) for j in range(a))
            s += sig + ";\n"
            sig += self.attrs("m")
            self.vars = ["arg%d" % j for j in range(a)]
            self.fn, self.labels, self.loop = True, None, 0
            keep = self.r
            body = "".join(self.stmt(2, 1) for _ in range(r.choice([0, 1, 2, 3])))
            impl += sig + "\n{\n    struct P *p = 0;\n" + body + "    return %s;\n}\n" % self.expr()
        return s + "@end\n" + impl + "@end\n"

    def prelude(self):
        s = "struct P { int k; };\nint ext(int);\nextern int gv;\nextern int arr[4];\n"
        if self.cpp:
            s += "struct Base { virtual void hook(int a); int b; };\n"
        if self.objc:
            s += ("typedef signed char BOOL;\n@interface NSObject\n- (BOOL)isEqual:(id)other;\n@end\n@interface NSNumber : NSObject\n"
                  "+ (NSNumber *)numberWithInt:(int)v;\n@end\n")
        return s

    def program(self, n=None):
        r = self.r
        out = [self.prelude() if self.lang != "cu" else "#pragma clang force_cuda_host_device begin\n" + self.prelude() + "#pragma clang force_cuda_host_device end\n"]
        for _ in range(n or r.choice([1, 2, 3, 4, 6])):
            x = r.random()
            if self.cpp and x < 0.3:
                out.append(self.klass())
            elif self.objc and x < 0.3:
                out.append(self.iface())
            else:
                out.append(self.function())
        return out


FLAGS = {"c": [], "cpp": ["-fcxx-exceptions", "-fexceptions"], "m": ["-fobjc-exceptions", "-fblocks", "-Wno-objc-root-class"],
         "mm": ["-fobjc-exceptions", "-fcxx-exceptions", "-fexceptions", "-Wno-objc-root-class"],
         "cu": ["-fcxx-exceptions", "-fexceptions", "-nocudainc", "-nocudalib"]}


# ---------------------------------------------------------------- mutations
def mutate(rng, code):
    for _ in range(rng.choice([1, 1, 2, 3])):
        x = rng.random()
        if x < 0.2:
            code = "\n" * rng.choice([1, 2, 5, 30]) + code
        elif x < 0.35:
            m = list(re.finditer(r"\b\d+\b", code))
            if m:
                k = rng.choice(m)
                code = code[:k.start()] + rng.choice(["0", "1", "3", "12"]) + code[k.end():]
        elif x < 0.5:
            m = list(re.finditer(r"[!=]=|&&|\|\|", code))
            if m:
                k = rng.choice(m)
                code = code[:k.start()] + rng.choice({"==": ["!="], "!=": ["=="], "&&": ["||"], "||": ["&&"]}[k.group()]) + code[k.end():]
        elif x < 0.65:
            m = list(re.finditer(r"\{[^{}]*\}", code))
            if m:
                k = rng.choice(m)
                code = code[:k.start()] + rng.choice(["{ }", "{ ; }", "{ { } }"]) + code[k.end():]
        elif x < 0.75:
            m = list(re.finditer(r"[;}] ", code))
            if m:
                k = rng.choice(m)
                code = code[:k.start() + 1] + "\n" + code[k.end():]
        elif x < 0.85:
            m = list(re.finditer(r"\b(int|char|bool|BOOL) ([a-z])\b", code))
            if m:
                k = rng.choice(m)
                code = re.sub(r"\b%s\b" % k.group(2), k.group(2) * rng.choice([2, 4, 25]), code)
        elif x < 0.93:
            l = code.split("\n")
            k = rng.randrange(len(l))
            l[k] += " " * rng.choice([1, 60, 120]) + "// note"
            code = "\n".join(l) if not any(t.endswith("\\") for t in l) else code
        else:
            m = list(re.finditer(r"[;{]\s", code))
            if m:
                k = rng.choice(m)
                code = code[:k.end()] + rng.choice(["int un%d = 0; " % rng.randrange(9), ";", "if (1) { } "]) + code[k.end():]
    return code


def rename(code, tag):
    """every identifier that the text itself introduces gets a tag, so that texts can be joined"""
    skip = set("NULL nil YES NO BOOL id self super main sizeof init alloc dealloc hash isEqual true false nullptr".split())
    names = set(re.findall(r"\b(?:struct|class|enum|union|@interface|@protocol|@class|typedef [\w ]+|int|void|bool|char|float|double|long|BOOL|unsigned|short)[ *&]+([A-Za-z_]\w*)", code))
    names |= set(re.findall(r"#define\s+([A-Za-z_]\w*)", code)) if False else set()
    names = {n for n in names if n not in skip and not re.match(r"(NS|const$|static$|int$|char$|struct$|class$|unsigned$|long$|operator$|virtual$)", n)}
    return re.sub(r"\b[A-Za-z_]\w*\b", lambda m: m.group() + tag if m.group() in names else m.group(), code)


def decorate(rng, lang, code):
    """suppression comments and annotations at random places"""
    l = code.split("\n")
    for _ in range(rng.choice([1, 2, 4])):
        k = rng.randrange(len(l))
        if not l[k].endswith("\\"):
            l[k] += rng.choice([" //!OCLINT", "//!OCLINT", " // note", " //!OCLINT(why)"])
    code = "\n".join(l)
    if rng.random() < 0.6:
        m = list(re.finditer(r"^(?=(?:static |unsigned )?(?:int|void|bool|char) \w+\([^;{]*\)\s*\{)", code, flags=re.M))
        for k in sorted(rng.sample(m, min(len(m), rng.choice([1, 2]))), key=lambda x: -x.start()):
            code = code[:k.start()] + '__attribute__((annotate("oclint:%s"))) ' % rng.choice(["suppress", "suppress", "suppress[short variable name]", "suppress[unused local variable]"]) + code[k.start():]
    return code


def pad(rng, text):
    """bulky declarations between (and in) the others, so that these lie in different blocks of memory"""
    at = [m.end() for m in re.finditer(r"^(?:\};?|@end)[ \t]*\n|\)\s*\{[ \t]*\n", text, flags=re.M)] + [0]
    tag = rng.randrange(10 ** 6)
    for n, k in enumerate(sorted(rng.sample(at, min(len(at), rng.choice([1, 2, 4, 8]))), reverse=True)):
        fields = ", ".join("f%d" % j for j in range(rng.choice([5, 40, 40, 90, 300])))
        text = text[:k] + "struct pad%d_%d { int %s; };\n" % (tag, n, fields) + text[k:]
    return text


def envy(rng):
    """Objective-C classes that use one another a lot"""
    n = rng.choice([3, 4, 6])
    names = rng.sample(["Alpha", "Beta", "Gamma", "Delta", "Eps", "Zeta", "Eta", "Theta"], n)
    out = ["@interface Root\n@end\n"]
    for c in names:
        out.append("@interface %s : Root {\n@public\n    int iv;\n}\n+ (int)tell;\n- (int)ask;\n- (void)setNum:(int)v;\n- (int)num;\n@property (nonatomic) int prop;\n@end\n" % c)
    for c in rng.sample(names, rng.choice([1, 2, n])):
        body = "@implementation %s\n+ (int)tell { return 1; }\n- (int)ask { return 2; }\n- (void)setNum:(int)v { iv = v; }\n- (int)num { return iv; }\n" % c
        for k in range(rng.choice([1, 2])):
            use = []
            for _ in range(rng.choice([2, 4, 8, 12])):
                o = rng.choice(names)
                use.append(rng.choice(["[p%s ask]", "[%s tell]", "p%s->iv", "p%s.prop", "p%s.num", "(p%s.prop = 2)", "[p%s num]"]) % o)
            if rng.random() < 0.5:
                use += rng.choice([["[self ask]"], ["[self ask]", "[self num]"], ["iv", "iv", "[self num]"]])
            body += "- (int)use%d" % k + " ".join("%s:(%s *)p%s" % (("a%d" % j), o, o) for j, o in enumerate(names)) + "\n{\n    return %s;\n}\n" % " + ".join(use)
        out.append(body + "@end\n")
    return "".join(out)


def unit(rng, kind=None):
    """-> (extension, flags, text)"""
    if not kind and rng.random() < 0.15:
        l, f, t = unit(rng, rng.choice(["gen", "envy", "joined", "joined"]))
        return l, f, pad(rng, t)
    kind = kind or rng.choice(["corpus", "corpus", "corpus", "gen", "gen", "mutant", "joined"])
    if kind == "envy":
        return "m", list(FLAGS["m"]) + ["-Wno-incomplete-implementation", "-fobjc-runtime=macosx"], envy(rng)
    if kind == "gen":
        lang = rng.choice(["c", "c", "cpp", "m", "mm", "cu"])
        return lang, list(FLAGS[lang]), "".join(Gen(rng, lang).program())
    n, lang, fl, code = pick(rng)
    fl = list(FLAGS[lang]) + list(fl)
    if kind == "mutant":
        return lang, fl, mutate(rng, code)
    if kind == "joined":
        same = [x for x in corpus() if x[1] == lang and not x[2]]
        picks = [rng.choice(same)[3] for _ in range(rng.choice([2, 3, 5]))]
        picks = [t for k, t in enumerate(picks) if not k or not any(set(re.findall(r"@(?:interface|protocol) \w+", t)) & set(re.findall(r"@(?:interface|protocol) \w+", q)) for q in picks[:k])]
        code = "\n".join(rename(t, "_%d" % k) for k, t in enumerate(picks))
        fl = list(FLAGS[lang])
    return lang, fl, code


TWIN_C = ["for (int idx = 0; idx < 3; idx++) ;", "for (int ab = 0; ab < 3; ab++) ;", "int ab = 0;", "int abc = 0;", "int q = par; return;", "for (int idx = 0, z = 1; z < 3; idx++) ;",
          "for (int z = 0, idx = 1; z < 3; idx++) { }", "if (par) { return; } else { par++; }", "if (par) { par++; } else { return; }", "if (par) ; else if (par > 1) { return; } else return;",
          "if (par) { return; } else if (par > 1) { par++; } else { return; }", "while (par) { int q = 1; break; }", "while (par) { int quux = 1; continue; }", "switch (par) { case 1: break; }",
          "switch (par) { case 1: par++; default: break; }", "switch (par) { default: ; }", "par = 3;", "par == 3;", "goto end; end: ;", "{ { int uu = 1; } }", "int ab = 1; { int ab = 2; (void)ab; }",
          "if ((par)) { }", "if (par) { }", "if (par & 1) { }", "if (!!par) { }", "do { } while (par);", "for (;par;) { }", "return;", "int longlonglonglongname = par;", "if (1) { par++; }",
          "int ab = 0; (void)ab; //!OCLINT", "__attribute__((annotate(\"oclint:suppress\"))) int ab = 0;", "__attribute__((annotate(\"oclint:nothing!\"))) int ab = 0;",
          "if (par != 0 && par % 2 == 1) return; return;", "static int ab = 0;", "extern int ab;", "par ? 1 : 1;", "par ? par : 2;"]
TWIN_CPP = ["try { par++; } catch (int exc) { }", "try { } catch (int e) { par++; }", "int arr[3]; for (int elem : arr) { }", "int arr[3]; for (int e : arr) { par = e; }", "auto lam = [](int a) { return a; };",
            "auto lam = [](int aaa) { return 3; };", "int *ptr = &par; if (ptr) { delete ptr; }", "int *ptr = &par; if (ptr) { ptr = 0; }", "struct in { int a; virtual void f(int z = 1); };", "struct in { int aaa; void fff(int zzz); };"]
TWIN_M = ["@try { par++; } @finally { return; }", "@try { par++; } @finally { par--; }", "@throw (id)0;", "id coll = 0; for (id elem in coll) { }", "id coll = 0; for (id e in coll) { par++; }", "@synchronized ((id)0) { }",
          "if ((id)0 != 0 && par) { }", "@autoreleasepool { int ab = 1; }"]
TWIN_PRE = ["", "", "int ggg;\n", "void other(int aaa);\n", "static int sss(int aaa) { return aaa; }\n", "struct S { int aaa, bbb; };\n", "static void unused(int bb) { }\n", "enum E { E1, E2 };\n", "\n\n", "typedef int TT;\n"]


def twins(rng, n):
    """units of one shape: what is at an address in one of them has a counterpart at the same place of the others"""
    lang = rng.choice(["c", "c", "cpp", "m", "mm"])
    pool = TWIN_C + (TWIN_CPP if lang in ("cpp", "mm") else []) + (TWIN_M if lang in ("m", "mm") else [])
    if rng.random() < 0.7:  # of one kind
        kind = rng.choice([r"\bint \w+ =|for|catch|\[", r"\bint ab|OCLINT|oclint", r"\bif\b|\?", r"for|while|switch|do \{", r"for \(|int (ab|q|uu)\b"])
        pool = [t for t in pool if re.search(kind, t)]
    pre = "".join(dict.fromkeys(rng.choice(TWIN_PRE) for _ in range(rng.choice([0, 1, 2, 3]))))
    mid = [rng.choice(pool)] if rng.random() < 0.3 else []
    out = []
    for _ in range(n):
        body = mid + [rng.choice(pool) for _ in range(rng.choice([1, 1, 1, 2]))]
        body = [("{ %s }" if k + 1 < len(body) and not re.search(r"//|end:", t) else "%s") % t for k, t in enumerate(body)]
        out.append((lang, list(FLAGS[lang]), pre + "void last(int par) {\n    " + "\n    ".join(body) + "\n}\n"))
    return out
