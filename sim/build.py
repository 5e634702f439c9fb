#!/usr/bin/env python3
"""Builds the simulator: the real oclint sources of /repo's working tree plus the
simulated operating system, as one host executable and a set of plugin libraries.

Everything is keyed by content (never by time stamps), so a check rebuilds
exactly what a change to /repo affects and nothing can be stale.
"""
import hashlib, json, os, re, shutil, struct, subprocess, sys, threading, time, fcntl, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
LLVM = "/usr/lib/llvm-20"
LIBDIR = "/usr/lib/x86_64-linux-gnu"
CXX = "/usr/bin/clang++-18"
JOBS = int(os.environ.get("SIM_JOBS", "8"))

COMMON = ["-std=c++17", "-fno-rtti", "-fPIC", "-O0", "-w", "-D_GNU_SOURCE",
          "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS"]


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()


_fh = {}
_fh_lock = threading.Lock()


def file_hash(path):
    """Content hash of a file of this build (cached for the life of the process only)."""
    with _fh_lock:
        if path in _fh:
            return _fh[path]
    try:
        with open(path, "rb") as f:
            v = hashlib.sha256(f.read()).hexdigest()
    except OSError:
        v = "absent"
    with _fh_lock:
        _fh[path] = v
    return v


def run(cmd, what):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
    if p.returncode != 0:
        out = p.stdout.decode("utf8", "replace")
        raise BuildError("%s failed (%d): %s\n%s" % (what, p.returncode, " ".join(cmd)[:400], out[-4000:]))
    return p.stdout


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    tmp = path + ".tmp%d" % os.getpid()
    with open(tmp, "w") as f:
        f.write(text)
    os.replace(tmp, path)


def make_overlay(ov):
    """The repository's driver is written against LLVM 21; the sandbox has LLVM 20.
    Three declarations differ.  The overlay adds the new spellings as thin inline
    forwarders to the old ones; nothing of oclint is changed."""
    d = open(LLVM + "/include/clang/Basic/Diagnostic.h").read()
    anchor = "  DiagnosticsEngine(const DiagnosticsEngine &) = delete;\n"
    if d.count(anchor) != 1:
        raise BuildError("overlay: Diagnostic.h anchor not found")
    d = d.replace(anchor, """  DiagnosticsEngine(IntrusiveRefCntPtr<DiagnosticIDs> SimIDs, DiagnosticOptions &SimOpts,
                    DiagnosticConsumer *SimClient = nullptr, bool SimOwn = true)
      : DiagnosticsEngine(std::move(SimIDs),
                          IntrusiveRefCntPtr<DiagnosticOptions>(new DiagnosticOptions(SimOpts)),
                          SimClient, SimOwn) {}
""" + anchor)
    write_if_changed(ov + "/clang/Basic/Diagnostic.h", d)
    t = open(LLVM + "/include/clang/Basic/TargetInfo.h").read()
    anchor = "  virtual ~TargetInfo();\n"
    if t.count(anchor) != 1:
        raise BuildError("overlay: TargetInfo.h anchor not found")
    t = t.replace(anchor, """  static TargetInfo *CreateTargetInfo(DiagnosticsEngine &SimDiags, TargetOptions &SimOpts) {
    return CreateTargetInfo(SimDiags,
        std::shared_ptr<TargetOptions>(std::shared_ptr<void>(), &SimOpts));
  }
  void adjust(DiagnosticsEngine &SimDiags, LangOptions &SimOpts, const TargetInfo *) {
    adjust(SimDiags, SimOpts);
  }
""" + anchor, 1)
    write_if_changed(ov + "/clang/Basic/TargetInfo.h", t)


def sources():
    """name -> (source path, extra flags) grouped by component, found by looking at the tree."""
    def cpps(d, rec=False):
        d = os.path.join(REPO, d)
        out = []
        for root, dirs, files in os.walk(d):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".cpp", ".cc", ".cxx")):
                    out.append(os.path.join(root, f))
            if not rec:
                break
        return out
    host = []
    for f in cpps("oclint-core/lib", True) + cpps("oclint-driver/lib", True):
        host.append(f)
    for f in cpps("oclint-driver"):
        if os.path.basename(f) != "main_docgen.cpp":
            host.append(f)
    rulelib = cpps("oclint-rules/lib", True) + cpps("oclint-metrics/lib", True)
    rules = [f for f in cpps("oclint-rules/rules", True) if f.endswith("Rule.cpp")]
    extra = [f for f in cpps("oclint-rules/rules", True) if not f.endswith("Rule.cpp")]
    reporters = [f for f in cpps("oclint-reporters/reporters") if f.endswith("Reporter.cpp")]
    repextra = [f for f in cpps("oclint-reporters/reporters") if not f.endswith("Reporter.cpp")]
    return host, rulelib + extra, rules, reporters, repextra


class Builder:
    def __init__(self, log=None):
        self.log = log or (lambda s: None)
        self.obj = os.path.join(BUILD, "obj")
        self.lib = os.path.join(BUILD, "lib")
        self.dep = os.path.join(BUILD, "dep")
        self.ov = os.path.join(BUILD, "overlay")
        for d in (self.obj, self.lib, self.dep):
            os.makedirs(d, exist_ok=True)
        self.compiled = 0
        self.used = set()
        self.ccid = sha(file_hash(os.path.realpath(CXX)), LLVM)
        self.inc = ["-I" + self.ov, "-I" + LLVM + "/include",
                    "-I" + REPO + "/oclint-core/include", "-I" + REPO + "/oclint-metrics/include",
                    "-I" + REPO + "/oclint-rules/include", "-I" + REPO + "/oclint-rules",
                    "-I" + REPO + "/oclint-driver/include"]
        self.rel_inc = [i.replace(REPO, "$R").replace(BUILD, "$B") for i in self.inc]
        self.pch = None

    def compile(self, src, flags=(), pch=False, inputs=()):
        """Compile one file; returns the object path.  Cached by the content of the source
        and of every header it was seen to include."""
        fl = COMMON + list(flags)
        key = sha(self.ccid, src.replace(REPO, "$R").replace(VERIF, "$V"), json.dumps(fl + self.rel_inc),
                  "pch" if pch else "", self.pch_key if pch else "")
        man = os.path.join(self.dep, key[:40] + ".json")
        entries = []
        try:
            with open(man) as f:
                entries = json.load(f)
        except (OSError, ValueError):
            entries = []
        for e in entries:
            if os.path.exists(os.path.join(self.obj, e["obj"])) and \
               all(file_hash(p.replace("$R", REPO).replace("$V", VERIF)) == h for p, h in e["deps"]):
                return self.use(os.path.join(self.obj, e["obj"]))
        tmp = os.path.join(self.obj, "t%d_%s" % (os.getpid(), key[:24]))
        cmd = [CXX] + fl + self.inc
        if pch:
            cmd += ["-include-pch", self.pch, "-Xclang", "-fno-validate-pch"]
        cmd += ["-c", src, "-o", tmp + ".o", "-MD", "-MF", tmp + ".d"]
        run(cmd, "compiling " + src)
        with open(tmp + ".d") as f:
            toks = re.findall(r"(?:\\ |[^\s\\])+", f.read().replace("\\\n", " "))
        deps = []
        for t in toks[1:]:
            p = os.path.normpath(t.replace("\\ ", " "))
            if p.endswith(".o:"):
                continue
            if p.startswith(REPO + "/") or p.startswith(VERIF + "/sim/"):
                deps.append(p)
        os.unlink(tmp + ".d")
        deps = sorted(set(deps) | {src})
        dl = [[p.replace(REPO, "$R").replace(VERIF, "$V"), file_hash(p)] for p in deps]
        name = sha(key, json.dumps(dl))[:40] + ".o"
        os.replace(tmp + ".o", os.path.join(self.obj, name))
        entries = ([{"deps": dl, "obj": name}] + entries)[:8]
        t2 = man + ".tmp%d" % os.getpid() + str(threading.get_ident())
        with open(t2, "w") as f:
            json.dump(entries, f)
        os.replace(t2, man)
        self.compiled += 1
        return self.use(os.path.join(self.obj, name))

    def use(self, p):
        """note that p belongs to this build (it is not pruned), and when it was last needed"""
        self.used.add(p)
        try:
            os.utime(p)
        except OSError:
            pass
        return p

    def make_pch(self):
        text = "".join('#include <%s>\n' % h for h in [
            "string", "vector", "map", "set", "unordered_map", "memory", "algorithm", "iostream",
            "regex", "sstream",
            "clang/AST/AST.h", "clang/AST/Attr.h", "clang/AST/RecursiveASTVisitor.h",
            "clang/AST/ParentMapContext.h", "clang/Basic/SourceManager.h",
            "clang/ASTMatchers/ASTMatchFinder.h", "clang/ASTMatchers/ASTMatchers.h"])
        # llvm headers come from the installed packages: identified by size and version header
        ident = file_hash(LLVM + "/include/llvm/Config/llvm-config.h") + \
            str(os.path.getsize(LLVM + "/include/clang/AST/RecursiveASTVisitor.h"))
        self.pch_key = sha(self.ccid, text, json.dumps(COMMON), ident,
                           file_hash(self.ov + "/clang/Basic/Diagnostic.h"),
                           file_hash(self.ov + "/clang/Basic/TargetInfo.h"))
        self.pch = os.path.join(BUILD, "pch_%s.pch" % self.pch_key[:24])
        if not os.path.exists(self.pch):
            h = os.path.join(BUILD, "simpch.h")
            write_if_changed(h, text)
            run([CXX] + COMMON + ["-I" + self.ov, "-I" + LLVM + "/include", "-x", "c++-header", h,
                 "-Xclang", "-fno-pch-timestamp", "-o", self.pch + ".tmp"], "precompiling headers")
            os.replace(self.pch + ".tmp", self.pch)

    def link(self, name, objs, args, post=None):
        key = sha(self.ccid, name, json.dumps(args), "v4",
                  *[os.path.basename(o) for o in objs])
        out = os.path.join(self.lib, "%s-%s" % (key[:24], name))
        if not os.path.exists(out):
            tmp = out + ".tmp%d" % os.getpid()
            run([CXX] + objs + args + ["-o", tmp], "linking " + name)
            if post:
                write_if_changed(out + ".init", post(tmp))
            os.replace(tmp, out)
        return self.use(out)


def defer_init(path):
    """Take DT_INIT_ARRAY out of a plugin so that its static initializers do not run when the
    host maps it, and note where the array is: the simulated dlopen runs it in each simulated
    process, at the moment oclint loads the plugin."""
    with open(path, "rb") as f:
        data = bytearray(f.read())
    assert data[:4] == b"\x7fELF" and data[4] == 2
    phoff, = struct.unpack_from("<Q", data, 32)
    phentsize, phnum = struct.unpack_from("<HH", data, 54)
    dyn = None
    for i in range(phnum):
        p_type, p_flags, p_off, p_vaddr, p_paddr, p_filesz, p_memsz, p_align = \
            struct.unpack_from("<IIQQQQQQ", data, phoff + i * phentsize)
        if p_type == 2:
            dyn = (p_off, p_filesz)
    addr = size = 0
    for o in range(dyn[0], dyn[0] + dyn[1], 16):
        tag, val = struct.unpack_from("<qQ", data, o)
        if tag == 25:
            addr = val
        elif tag == 27:
            size = val
            struct.pack_into("<qQ", data, o, 27, 0)
        elif tag == 28:  # fini array: never run, processes are thrown away
            struct.pack_into("<qQ", data, o, 28, 0)
    with open(path, "wb") as f:
        f.write(data)
    return "%d %d\n" % (addr, size)


def build(log=None, want_rules=True, docgen=False):
    """Returns dict with the host executable and plugin paths.  docgen: the host executable is
    the documentation generator instead of oclint."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build(log, want_rules, docgen)


def _build(log, want_rules, docgen):
    t0 = time.time()
    b = Builder(log)
    make_overlay(b.ov)
    host, rulelib, rules, reporters, repextra = sources()
    if docgen:
        d = REPO + "/oclint-driver/"
        host = [f for f in host if os.path.dirname(f) + "/" != d or os.path.basename(f).startswith("rules_")] + [d + "main_docgen.cpp"]
        reporters = repextra = []
    dg = ["-DDOCGEN"] if docgen else []
    b.make_pch()
    simsrc = sorted(os.path.join(HERE, "src", f) for f in os.listdir(HERE + "/src") if f.endswith(".cpp"))
    jobs = {}
    with ThreadPoolExecutor(JOBS) as ex:
        for f in host:
            fl = (["-Dmain=oclint_main"] if os.path.basename(f) in ("main.cpp", "main_docgen.cpp") else []) + dg
            jobs[("host", f)] = ex.submit(b.compile, f, fl)
        for f in simsrc:
            jobs[("sim", f)] = ex.submit(b.compile, f, ["-O1", "-fno-builtin", "-U__OPTIMIZE__"] if "alloc" in f or "simos" in f else dg if "plugins" in f else [])
        for f in reporters + repextra:
            jobs[("rep", f)] = ex.submit(b.compile, f, [])
        if want_rules:
            for f in rulelib:
                jobs[("rlib", f)] = ex.submit(b.compile, f, [], True)
            for f in rules:
                jobs[("rule", f)] = ex.submit(b.compile, f, [], True)
        errs = []
        for k, j in jobs.items():
            try:
                j.result()
            except BuildError as e:
                errs.append(str(e))
        if errs:
            raise BuildError("\n".join(errs[:3]))
        objs = lambda kind: [j.result() for k, j in jobs.items() if k[0] == kind]
        core = [jobs[("host", f)].result() for f in host if "/oclint-core/" in f]
        res = {"rules": {}, "reporters": {}}
        hostobjs = objs("host") + objs("sim")
        lk = {}
        lk["host"] = ex.submit(b.link, "simdocgen" if docgen else "simhost", hostobjs,
             ["-fuse-ld=lld", "-rdynamic", "-no-pie", "-L" + LIBDIR, LIBDIR + "/libclang-cpp.so.20.1",
              LIBDIR + "/libLLVM.so.20.1", "-ldl", "-lpthread", "-Wl,--export-dynamic"])
        shargs = ["-shared", "-fuse-ld=lld", "-Wl,-z,now", "-Wl,--allow-shlib-undefined",
                  "-Wl,-z,undefs", "-Wl,--gc-sections", "-Wl,--strip-all"]
        repcommon = [jobs[("rep", f)].result() for f in repextra]

        def mk(name, objs_, libobjs):
            # static library semantics for the shared parts: only what is needed is taken
            ar = None
            if libobjs:
                k = sha("ar2", *[os.path.basename(o) for o in libobjs])[:24]
                ar = os.path.join(b.lib, "lib%s.a" % k)
                if not os.path.exists(ar):
                    t = ar + ".tmp" + name
                    run(["ar", "rcD", t] + libobjs, "archiving")
                    os.replace(t, ar)
                b.use(ar)
            args = shargs + ([ar] if ar else [])
            out = b.link(name, objs_, [a if a != ar else "$AR" for a in shargs] + ([ar] if ar else []),
                         post=defer_init)
            return out

        def fin(name, objs_, libobjs):
            out = mk(name, objs_, libobjs)
            if not os.path.exists(out + ".init"):
                raise BuildError("no init info for " + out)
            return out
        for f in reporters:
            n = os.path.basename(f)[:-4]
            lk[("rep", n)] = ex.submit(fin, n, [jobs[("rep", f)].result()] + repcommon, core)
        if want_rules:
            rl = objs("rlib")
            for f in rules:
                n = os.path.basename(f)[:-4]
                lk[("rule", n)] = ex.submit(fin, n, [jobs[("rule", f)].result()], rl + core)
        errs = []
        for k, j in lk.items():
            try:
                p = j.result()
            except BuildError as e:
                errs.append(str(e))
                continue
            if k == "host":
                res["host"] = p
            else:
                res["rules" if k[0] == "rule" else "reporters"][k[1]] = p
        if errs:
            raise BuildError("\n".join(errs[:3]))
    res["compiled"] = b.compiled
    res["seconds"] = time.time() - t0
    prune(b)
    return res


def prune(b, limit=3 << 30):
    """Keep the build folder bounded: drop the oldest objects and libraries."""
    ents = []
    for d in (b.obj, b.lib):
        for f in os.listdir(d):
            try:
                st = os.stat(os.path.join(d, f))
                ents.append((st.st_atime if st.st_atime > st.st_mtime else st.st_mtime, st.st_size, os.path.join(d, f)))
            except OSError:
                pass
    tot = sum(e[1] for e in ents)
    if tot <= limit:
        return
    ents.sort()
    for _, s, p in ents:
        if tot <= limit * 0.7:
            break
        if p.endswith(".init") or p in b.used:
            continue
        try:
            os.unlink(p)
            tot -= s
        except OSError:
            pass


if __name__ == "__main__":
    try:
        d = build(log=print, want_rules=False, docgen=True)
        r = build(log=print)
    except BuildError as e:
        print("BUILD FAILED\n" + str(e))
        sys.exit(2)
    print("built: host=%s rules=%d reporters=%d compiled=%d in %.1fs" % (
        r["host"], len(r["rules"]), len(r["reporters"]), r["compiled"], r["seconds"]))
