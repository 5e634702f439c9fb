"""C13: every compile command is analyzed exactly once, as written."""
import collections, json, posixpath, random
import engine as E
import scen
import simrun as S
import world as W

DIRS = ["/w", "/w/src", "/w/src/deep", "/w/b d", "/w/bld", "/w/o'x", "/srv/p\u00e9"]
CCS = ["cc", "gcc", "clang", "/usr/bin/cc", "c++", "g++", "clang++", "/opt/x/bin/g++", "x86_64-linux-gnu-gcc", "ccc"]
CSTD = {"c89": None, "ansi": None, "gnu89": None, "c99": 199901, "gnu99": 199901, "c11": 201112, "gnu11": 201112, "c17": 201710, "gnu17": 201710}
XSTD = {"c++98": 199711, "c++11": 201103, "c++14": 201402, "gnu++14": 201402, "c++17": 201703, "c++20": 202002, "gnu++20": 202002}
# flags that select outputs or code generation and say nothing about the program
OUT = ["-o|x.o", "-ox.o", "-c", "-S", "-g", "-gmodules|-g", "-MD", "-MMD", "-MD|-MF|dep.d", "-MMD|-MFdep.d", "-MD|-MT|tgt", "-MD|-MQ|t$t", "-MP|-MD", "-MJ|cc.json",
       "-MJcc.json", "-save-temps", "-save-temps=obj", "-pipe", "-emit-llvm", "-flto", "-ftime-trace", "-gsplit-dwarf", "--coverage", "-ftest-coverage",
       "-fprofile-instr-generate", "--serialize-diagnostics|d.dia", "-serialize-diagnostics|d.dia", "-fcolor-diagnostics", "-fstack-usage", "-shared|-fPIC", "-lfoo",
       "-rdynamic", "-fsave-optimization-record", "-foptimization-record-file=o.yaml", "-pg", "-fsyntax-only", "-Wl,-Map,m.map", "-Wp,-MD,wp.d", "-fdiagnostics-show-option",
       "-fmodules", "-fmodules|-fmodules-cache-path=mc", "-dependency-file|q.d", "-fno-color-diagnostics", "-v", "-H", "-fcrash-diagnostics-dir=cr",
       "-Wa,-al=x.lst", "-frecord-command-line", "--analyze", "-emit-ast", "-march=native", "-fdebug-prefix-map=/w=.", "-Xclang|-dependency-file|-Xclang|q2.d",
       "-fdiagnostics-color=always", "-fno-caret-diagnostics", "-static", "-pthread", "-L/lib|-lm", "-Xlinker|-x", "-fverbose-asm", "-ffunction-sections", "-O0"]

OUTCU = ["-o|x.o", "-ox.o", "-c", "-g", "-MD", "-MMD", "-MD|-MF|dep.d", "-MD|-MT|tgt", "-MP|-MD", "-MJ|cc.json", "-pipe", "-fcolor-diagnostics", "-O0", "-fPIC", "-S", "-save-temps"]


# flags that change the program, and what shows it
SEM = {"-funsigned-char": "defined(__CHAR_UNSIGNED__)", "-fshort-wchar": "__SIZEOF_WCHAR_T__ == 2", "-ffreestanding": "!__STDC_HOSTED__", "-ffast-math": "defined(__FAST_MATH__)",
       "-mxop": "defined(__XOP__)", "-m32": "defined(__i386__)", "-fblocks": "defined(__BLOCKS__)", "-fstack-protector-all": "defined(__SSP_ALL__)",
       "-fstack-protector-strong": "defined(__SSP_STRONG__)", "-fno-exceptions": "defined(__cplusplus) && !defined(__cpp_exceptions)", "-fno-rtti": "defined(__cplusplus) && !defined(__cpp_rtti)",
       "-fopenmp": "defined(_OPENMP)", "-mlong-double-64": "__LDBL_MANT_DIG__ == 53"}


def source(k, variant):
    """variant: which probes; every declaration tells something about how the unit was compiled"""
    if variant:  # (preprocessed)
        return "int file_%d;\nint fn_%d(void) { int uv%d; return 0; }\n" % (k, k, k), 2, 0, 0
    s = ["int file_%d;" % k, "#ifdef __OCLINT__", "int oc;", "#else", "int no_oc;", "#endif"]
    for m in range(3):
        s += ["#ifdef M%d" % m, "#if M%d == 1" % m, "int m%d_1;" % m, "#elif M%d == 2" % m, "int m%d_2;" % m, "#else", "int m%d_x;" % m, "#endif", "#endif"]
    s += ["#ifdef XTRA", "int xtra[XTRA];", "#endif", "#ifdef XTRB", "int xtrb;", "#endif"]
    s += ["#ifdef __CUDA_ARCH__", "int for_a_device;", "#endif"]
    s += ["#ifdef STR", "int str_[sizeof(STR)];", "#endif"]
    s += ["#ifdef INCQ", '#include "cfg.h"', "#endif", "#ifdef INCA", "#include <cfg.h>", "#endif"]
    s += ["#ifdef __OPTIMIZE__", "int opt;", "#endif"]
    s += ["#ifdef __cplusplus"]
    for n, v in sorted(set((v, v) for v in XSTD.values())):
        s += ["#if __cplusplus == %dL" % v, "int cxx_%d;" % v, "#endif"]
    s += ["#else", "#ifndef __STDC_VERSION__", "int c_None;", "#endif"]
    for v in sorted(set(v for v in CSTD.values() if v)):
        s += ["#if defined(__STDC_VERSION__) && __STDC_VERSION__ == %dL" % v, "int c_%d;" % v, "#endif"]
    s += ["#endif"]
    for n, (fl, cond) in enumerate(SEM.items()):
        s += ["#if %s" % cond, "int sem_%d;" % n, "#endif"]
    ln = len(s) + 1
    s += ["int fn_%d(void) { int uv%d; return 0; }" % (k, k)]
    bl = len(s) + 2
    s += ["#ifdef BUG", "int bug_%d(void) { int *p = 0; return *p; }" % k, "#endif"]
    wl = len(s) + 2
    s += ["#ifdef HASH", "#warning hash%d" % k, "#endif"]
    return "\n".join(s) + "\n", ln, bl, wl


def quote(a, rng):
    if a and all(ch.isalnum() or ch in "-_=/.,+%@:" for ch in a):
        return a
    if "'" not in a and rng.random() < 0.4:
        return "'" + a + "'"
    if rng.random() < 0.5:
        return '"' + a.replace("\\", "\\\\").replace('"', '\\"') + '"'
    return "".join(ch if ch.isalnum() or ch in "-_=/.,+%@:" or ord(ch) > 126 else "\\" + ch for ch in a)


class P(E.Prop):
    ID = "C13"
    COUNT = {"quick": 14000, "thorough": 100000}
    RULE = ("Seeded cases: compilation databases (argument arrays, shell-quoted command strings, response files, flag files, flags after --) with "
            "1-8 commands for 1-4 files over directories with unusual names, several commands per file, commands of files that are not "
            "requested, defines, include paths of every kind, forced includes, language and standard flags, warning flags, and a random "
            "selection of about seventy output, code generation and dependency flags at random positions; with and without global analysis and static "
            "analyzer; slow and interrupted I/O, failing chdir.  Probe declarations tell how each unit was compiled.")
    PROBES = ["global", "analyzer", "many_per_file", "unrequested", "command_string", "rsp", "dashdash", "fixed_db", "flags_txt", "xlang", "cxx_driver", "forced_include", "incq", "inca",
              "optimize", "outflags", "odd_dir", "warn", "nowarn", "bugs", "inferred", "fault:chdir", "io_short", "dup_allowed", "c89", "twin_commands", "cuda", "extra_arg"]
    STUB = E.Prop.STUB + ["rules and reporter (scripted probes through oclint's real interface)"]

    def command(self, rng, c, k, unit, std, ext):
        d = rng.choice(c["cmddirs"])
        flags, names = [], ["file_%d" % k, "oc"]
        pre = []
        # language
        cc = rng.choice(CCS)
        cxx = ext not in ("c", "i") or cc.rstrip("0123456789").endswith("++")
        xl = None
        if ext == "cu":
            flags.append(["-nocudainc"])
            flags.append(["-nocudalib"])
            flags += rng.choice([[], [], [["--cuda-host-only"]], [["--cuda-gpu-arch=sm_70"]], [["--offload-arch=sm_60"], ["--offload-arch=sm_80"]], [["--no-offload-new-driver"]]])
        if rng.random() < 0.15 and ext not in ("i", "ii", "cu"):
            xl = rng.choice(["c", "c++"])
            cxx = xl == "c++"
        table = XSTD if cxx else CSTD
        v = 201703 if cxx else 201710
        if rng.random() < 0.4:
            st = rng.choice(sorted(table))
            v = table[st]
            flags.append(["-ansi"] if st == "ansi" else [rng.choice(["-std=", "--std="]) + st])
        # defines
        vals = {}
        for m in range(3):
            for _ in range(rng.choice([0, 0, 1, 1, 2])):
                x = rng.random()
                if x < 0.2:
                    flags.append(["-UM%d" % m] if rng.random() < 0.5 else ["-U", "M%d" % m])
                    vals[m] = None
                else:
                    t = rng.choice(["", "=1", "=2", "=3"])
                    if vals.get(m) is not None:
                        flags.append(["-UM%d" % m])
                    flags.append(["-DM%d%s" % (m, t)] if rng.random() < 0.7 else ["-D", "M%d%s" % (m, t)])
                    vals[m] = t
        for m in range(3):
            if vals.get(m) is not None:
                names.append("m%d_%s" % (m, {"": "1", "=1": "1", "=2": "2", "=3": "x"}[vals[m]]))
        if rng.random() < 0.25:
            t = rng.choice(["a b", 'q"q', "it's", "x\\\\y", "$HOME", "a;b", "#", ""])
            flags.append(["-DSTR=\"%s\"" % t.replace('"', '\\"')])
            names.append("str_")
        # includes
        if rng.random() < 0.4:
            where = collections.defaultdict(list)
            for _ in range(rng.choice([1, 1, 2, 3])):
                kind = rng.choice(["-I", "-I", "-isystem", "-iquote", "-idirafter"])
                t = rng.choice(["inc1", "inc2", "../inc3", "/srv/inc4", "none", ".", "i n c"])
                flags.append([kind + t] if kind == "-I" and rng.random() < 0.6 else [kind, t])
                where[kind].append(t)
            for inc in rng.sample(["INCQ", "INCA"], 1):
                order = (where["-iquote"] if inc == "INCQ" else []) + where["-I"] + where["-isystem"] + where["-idirafter"]
                hit = None
                # a quoted include looks next to the including file first: there is no cfg.h there
                # directories given twice are searched at the system position if one of them is a system directory
                if len({self.norm(d, t) for t in order}) != len(order):
                    continue
                for t in order:
                    p = self.norm(d, t) + "/cfg.h"
                    if p in c["files"]:
                        hit = p
                        break
                if hit:
                    flags.append(["-D" + inc])
                    names.append("^" + c["hdr"][hit])
        if rng.random() < 0.15:
            hits = [h for h in ("pre.h", "p/pre.h", "/srv/pre.h") if self.norm(d, h) in c["files"]]
            if hits:
                h = rng.choice(hits)
                flags.append(["-include", h])
                pre.append("^" + c["hdr"][self.norm(d, h)])
        o = False
        if rng.random() < 0.3:
            for x in [rng.choice(["-O2", "-O0", "-Os", "-O1", "-O3"]) for _ in range(rng.choice([1, 1, 2]))]:
                flags.append([x])
        bug = rng.random() < 0.4
        if bug:
            flags.append(["-DBUG"])
        hsh = rng.random() < 0.2
        if hsh:
            flags.append(["-DHASH"])
        sem = rng.sample(sorted(SEM), rng.choice([1, 1, 2, 3])) if rng.random() < 0.3 and ext != "cu" else []
        if len([x for x in sem if x.startswith("-fstack")]) > 1:
            sem = []
        flags += [[x] for x in sem]
        wf = []
        for _ in range(rng.choice([0, 1, 1, 2])):
            wf.append(rng.choice(["-Wall", "-Wunused-variable", "-Wno-unused-variable", "-Wall", "-Wextra", "-Wno-#warnings", "-w", "-Wno-cpp"]))
        flags += [[x] for x in wf]
        outf = []
        for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
            outf.append(rng.choice(OUT if ext != "cu" else OUTCU).split("|"))
        # the order among language, define, include and warning flags stays; output flags go anywhere
        seq = list(flags)
        xo = [f for f in outf]
        dd = rng.random() < 0.12
        items = [("f", x) for x in seq]
        for x in xo:
            items.insert(rng.randrange(len(items) + 1), ("o", x))
        fa = rng.choice([unit, posixpath.relpath(unit, d), unit, posixpath.relpath(unit, d)])
        if rng.random() < 0.1 and not fa.startswith(("/", ".")):
            fa = "./" + fa
        at = len(items) if dd else rng.randrange(len(items) + 1)
        arg = [cc]
        for i, (t, x) in enumerate(items + [("end", [])]):
            if i == at:
                arg += (["-x", xl] if xl else []) + (["--"] if dd else []) + [fa]
            arg += x
        for t, x in items:
            if x[0].startswith("-O"):
                o = x[0] != "-O0"
        if o:
            names.append("opt")
        names.append("%s_%s" % ("cxx" if cxx else "c", v))
        names += ["sem_%d" % n for n, x in enumerate(SEM) if x in sem and (cxx or x not in ("-fno-exceptions", "-fno-rtti"))]
        names.append("fn_%d" % k)
        if bug:
            names.append("bug_%d" % k)
        # warning state: the last word of each group counts
        uv = False
        for x in wf:
            if x in ("-Wall", "-Wunused-variable"):
                uv = True
            elif x == "-Wno-unused-variable":
                uv = False
        ws = []
        hw = hsh and not ("-Wno-#warnings" in wf or "-Wno-cpp" in wf)
        if "-w" not in wf:
            ws = (["uv"] if uv else []) + (["hash"] if hw else [])
        if ext in ("i", "ii"):
            pre, names, bug, ws = [], ["file_%d" % k, "fn_%d" % k], False, [x for x in ws if x == "uv"]
        return dict(sem=sem, dir=d, args=arg, fa=fa, unit=unit, k=k, names=pre + names, ws=ws, wf=wf, bug=bug, feat=[x[0] for x in outf] + (["--"] if dd else []) + (["-x"] if xl else []) + (["++"] if cc.endswith("++") else []))

    def norm(self, d, t):
        return posixpath.normpath(posixpath.join(d, t))

    def cases(self, rng, ctx, tier, i):
        c = dict(files={}, dirs=list(DIRS), hdr={}, heap=scen.rand_heap(rng), rules=[["", "probe", "c", 3, [scen.act("*", "tu")]]], io=[0, 0], faults=[])
        c["cmddirs"] = rng.sample(DIRS, rng.choice([1, 2, 3]))
        for j, d in enumerate(DIRS):
            for sub in ("inc1", "inc2", "i n c", "."):
                if rng.random() < 0.3 and not (sub == "." and d in ("/w", "/w/src")):
                    p = posixpath.normpath(d + "/" + sub + "/cfg.h")
                    c["files"][p] = None
            for h in ("pre.h", "p/pre.h"):
                if rng.random() < 0.5:
                    c["files"][d + "/" + h] = None
        c["files"]["/srv/inc4/cfg.h"] = None
        c["files"]["/inc3/cfg.h"] = None
        c["files"]["/w/inc3/cfg.h"] = None
        c["files"]["/srv/pre.h"] = None
        for n, p in enumerate(sorted(c["files"])):
            c["hdr"][p] = "h_%d" % n
            c["files"][p] = "extern int h_%d;\n" % n
        # units never sit next to a cfg.h
        places = [d for d in ("/w", "/w/src", "/srv/u", "/w/un it") if d + "/cfg.h" not in c["files"]]
        units, info = [], {}
        for k in range(rng.choice([1, 2, 2, 3, 4])):
            ext = rng.choice(["c", "c", "c", "cpp", "cc"] * 3 + ["C", "cxx", "c++", "CPP", "i", "ii", "cu", "cu"])
            u = "%s/%s%d.%s" % (rng.choice(places), rng.choice(["a", "a", "m x", "z-"]), k, ext)
            text, ln, bl, wl = source(k, ext in ("i", "ii"))
            c["files"][u] = text
            units.append((k, u, ext))
            info[k] = (ln, bl, wl)
        c["info"] = [list(info[k]) for k in sorted(info)]
        glob = rng.random() < 0.35
        ana = rng.random() < 0.4
        dup = rng.random() < 0.5
        c.update(glob=glob, ana=ana, dup=dup)
        if not glob:
            c["rules"][0][4].append(scen.act("*", "cwd", sl=2))
        argv = ["oclint", "-report-type", "sim"]
        argv += [x for x, b in (("-enable-global-analysis", glob), ("-enable-clang-static-analyzer", ana), ("-allow-duplicated-violations", dup)) if b]
        mode = rng.choice(["json"] * 8 + ["fixed", "flags"])
        c["mode"] = mode
        req = [u for _, u, _ in units]
        rng.shuffle(req)
        if mode == "json" and len(req) > 1 and rng.random() < 0.4:
            req = req[:-1]
        cmds = []
        if mode == "json":
            for k, u, ext in units:
                if rng.random() < 0.15:
                    # the same arguments given in several directories (or twice in one)
                    s = rng.random()
                    for d in [rng.choice(DIRS) for _ in range(rng.choice([2, 2, 3]))]:
                        cmds.append(self.command(random.Random(s), dict(c, cmddirs=[d]), k, u, None, ext))
                    if cmds[-1]["args"] == cmds[-2]["args"]:
                        c["twins"] = 2 if cmds[-1]["dir"] == cmds[-2]["dir"] else 1
                    continue
                for _ in range(rng.choice([1, 1, 1, 2, 3])):
                    cmds.append(self.command(rng, c, k, u, None, ext))
            if rng.random() < 0.7:
                rng.shuffle(cmds)
            db = []
            for n, m in enumerate(cmds):
                e = {"directory": m["dir"], "file": m["unit"] if rng.random() < 0.6 else posixpath.relpath(m["unit"], m["dir"]) if not m["dir"].count("..") else m["unit"]}
                if e["file"].startswith(".."):
                    e["file"] = m["unit"]
                args = list(m["args"])
                if rng.random() < 0.1 and not any("\\" in a or '"' in a or "'" in a or " " in a or "#" in a or "$" in a or a == "" for a in args):
                    i0 = rng.randrange(1, len(args))
                    if "--" not in args:
                        rf = "%s/args%d.rsp" % (m["dir"], n)
                        c["files"][rf] = rng.choice([" ", "\n"]).join(args[i0:]) + "\n"
                        args = args[:i0] + ["@" + rng.choice([rf, "args%d.rsp" % n])]
                        m["rsp"] = True
                if rng.random() < 0.4:
                    e["command"] = " ".join(quote(a, rng) for a in args)
                    m["str"] = True
                else:
                    e["arguments"] = args
                if rng.random() < 0.3:
                    e["output"] = "x.o"
                db.append(e)
            x = rng.random()
            if x < 0.5:
                c["files"]["/w/compile_commands.json"] = json.dumps(db, ensure_ascii=rng.random() < 0.5, indent=rng.choice([None, 1]))
                argv += rng.choice([["-p", "/w"], ["-p=/w"], ["-p", "."], ["-p", "/w/src"]])
            else:
                c["files"]["/w/bld/compile_commands.json"] = json.dumps(db)
                argv += rng.choice([["-p", "/w/bld"], ["-p", "bld"], ["-p=bld/"]])
            if rng.random() < 0.08:
                text, ln, bl, wl = source(len(units), 0)
                c["files"]["/w/src/extra.c"] = text
                c["extra"] = len(units)
                req.append("/w/src/extra.c")
        elif mode == "fixed":
            c["cmddirs"] = ["/w"]
            m0 = self.command(rng, c, 0, units[0][1], None, "c")
            m0["args"] = [a for a in m0["args"]]
            fl = self.fixed_flags(m0)
            if fl is None:
                mode = None
            else:
                c["tail"] = ["--"] + fl
                cmds = [dict(m0, unit=u, k=k, fa=u, dir="/w") for k, u, e in units]
                c["fixedk"] = m0["k"]
        else:
            c["cmddirs"] = ["/w/bld"]
            m0 = self.command(rng, c, 0, units[0][1], None, "c")
            fl = self.fixed_flags(m0)
            if fl is None or any("\n" in a for a in fl):
                mode = None
            else:
                c["files"]["/w/bld/compile_flags.txt"] = "\n".join(fl) + "\n"
                argv += ["-p", "bld"]
                cmds = [dict(m0, unit=u, k=k, fa=u, dir="/w/bld") for k, u, e in units]
        if mode is None:
            return
        if mode != "json":
            # one set of flags for every file: only C files with the C default language
            if any(e != "c" for _, _, e in units) or "-x" in m0["feat"] or m0["names"] == []:
                return
            out = []
            for m in cmds:
                names = [n.replace("_0", "_%d" % m["k"]) if n in ("file_0", "fn_0", "bug_0") else n for n in m["names"]]
                names = ["c_" + n.split("_")[1] if n.startswith("cxx_") else n for n in names]
                out.append(dict(m, names=names))
            cmds = out
            if "++" in m0["feat"]:
                return  # the language of the flags is that of their compiler, which is not part of them
        xa = []
        if rng.random() < 0.15:
            xa = rng.sample([["-extra-arg=-DXTRA=3", "xtra"], ["-extra-arg-before=-DXTRB", "xtrb"]], rng.choice([1, 1, 2]))
            if len(xa) == 1 and xa[0][1] == "xtra" and rng.random() < 0.3:
                xa = [["-extra-arg=-D", None], ["-extra-arg=XTRA=2", "xtra"]]
            c["xarg"] = True
            argv += [x for x, _ in xa]
            add = [n for n in ("xtra", "xtrb") if n in [y for _, y in xa]]
            new = []
            for m in cmds:
                n = list(m["names"])
                if not m["unit"].endswith((".i", ".ii")):
                    # behind the last probe of the kind that precedes it in the text
                    at = max([q for q, x in enumerate(n) if x in ("oc",) or (x[0] == "m" and x[1:2].isdigit())]) + 1
                    n[at:at] = add
                new.append(dict(m, names=n))
            cmds = new
        c["cmds"] = cmds
        reqs = []
        for u in req:
            x = rng.random()
            if mode != "json" and not u.startswith("/w/"):
                x = 0  # these databases keep the name as given
            reqs.append(u if x < 0.6 else posixpath.relpath(u, "/w") if x < 0.8 else "./" + posixpath.relpath(u, "/w") if not posixpath.relpath(u, "/w").startswith("..") else u)
        c["req"] = req
        c["argv"] = argv + reqs + c.get("tail", [])
        if rng.random() < 0.25:
            c["io"] = [rng.choice([1, 2, 3]), rng.choice([0, 2, 9])]
        elif rng.random() < 0.12 and mode == "json":
            rd = [m["dir"] for m in cmds if m["unit"] in req]
            dd = rng.choice(rd)
            n = rd.count(dd) * (2 if ana else 1)
            c["faults"] = [dict(op="chdir", path=dd, nth=rng.randrange(1, n + 1) * rng.choice([1, 1, -1]), kind=rng.choice(["EACCES", "ENOENT", "EIO", "ENOTDIR"]), arg=0)]
        yield c

    def fixed_flags(self, m):
        a = m["args"][1:]
        if "--" in a or any(x == "-x" for x in a):
            return None
        a = [x for x in a if x != m["fa"]]
        # what the flag parser of the tooling library takes for inputs, or strips by itself
        bad = ("-save-temps", "-v", "-H", "--analyze", "-emit-ast", "-fsyntax-only", "-c", "-S")
        if any(x in bad or x.startswith("-MJ") for x in a):  # (libclang itself writes -MJ files while it parses flags after --)
            return None
        return a

    def execute(self, c, ctx):
        run, fs = scen.build_world(self.built, c)
        r = ctx.run(run, fs, trace=True)
        ex = r.exit()
        d = W.Dump(r.out)
        byreq = []
        for u in c["req"]:
            for m in c["cmds"]:
                if m["unit"] == u:
                    byreq.append(m)
        self.count(c, ctx, r, byreq)
        if r.fired and r.fired[0][0] == "chdir":
            if ex != 3 or b"Cannot change" not in r.err:
                return [E.Viol("chdir-status", "changing into a command's directory failed, the run ended with %s %r" % (ex, r.err[-200:]))]
            return []
        if ex not in (0, 5) or not d.ok:
            return [E.Viol("status", "status %s: errors %s %r" % (ex, [W.show(x) for x in d.e[:3]], r.err[-400:]))]
        V = []
        touched = sorted({p for k, p in (r.touched or [])})
        if touched:
            V.append(E.Viol("files-written", "besides the report the run changed %s (flags %s)" % (touched[:6], [m["args"] for m in byreq][:4])))
        extra = c.get("extra")
        got = [(v.path, v.msg) for v in d.v]
        if extra is not None:
            ek = "file_%d" % extra
            n = sum(1 for p, m in got if m.startswith("TU ") and ek in m.split(" ")[-1].replace("^", "").split(","))
            ne = [e for e in d.e if "extra.c" in e.path]
            if n != 1:
                V.append(E.Viol("inferred", "the file without a compile command of its own was analyzed %d times" % n))
            keep, skip = [], False
            for p, m in got:
                if m.startswith("TU "):
                    skip = p.endswith("extra.c")
                if not skip:
                    keep.append((p, m))
            got = keep
        exp = []
        for m in byreq:
            exp.append((m["fa"], "TU %s %s" % (m["fa"], ",".join(m["names"]))))
            if not c["glob"]:
                exp.append((m["fa"], "CWD " + m["dir"]))
        expw, expb = [], []
        for m in byreq:
            ln, bl, wl = c["info"][m["k"]]
            for x in m["ws"]:
                expw.append((m["fa"], ln if x == "uv" else wl, ("unused variable 'uv%d'" if x == "uv" else "hash%d") % m["k"]))
            if c["ana"] and m["bug"]:
                expb.append((m["fa"], bl, "Dereference of null pointer (loaded from variable 'p') [core.NullDereference]"))
        gotw = [(w.path, w.sl, w.msg) for w in d.w if not (extra is not None and w.path.endswith("extra.c"))]
        gotb = [(w.path, w.sl, w.msg) for w in d.b if not (extra is not None and w.path.endswith("extra.c"))]
        if not c["dup"]:
            exp, expw, expb = list(dict.fromkeys(exp)), list(dict.fromkeys(expw)), list(dict.fromkeys(expb))
        # within one unit the preprocessor's warning comes before that of the function's end or after it
        key = lambda l: sorted(l)
        if got != exp:
            cls = "order" if sorted(got) == sorted(exp) else "unit"
            V.append(E.Viol(cls, "units analyzed differ from the compile commands:\n" + W.diff_text(*W.msdiff([str(x) for x in got], [str(x) for x in exp]), "the run", "the commands") +
                            ("\norder %s\nexpected %s" % (got, exp) if cls == "order" else "") + "\ncommands %s" % [(m["dir"], m["args"]) for m in byreq]))
        if key(gotw) != key(expw):
            V.append(E.Viol("warnings", "warnings differ: %s, expected %s (flags %s)" % (gotw, expw, [m["wf"] for m in byreq])))
        if key(gotb) != key(expb):
            V.append(E.Viol("analyzer", "static analyzer findings differ: %s, expected %s\n%s" % (gotb, expb, [m["args"] for m in byreq])))
        if d.e:
            V.append(E.Viol("errors", "errors in error-free code: %s" % [W.show(e) for e in d.e]))
        return V

    def count(self, c, ctx, r, byreq):
        if c.get("xarg"):
            ctx.probe("extra_arg")
        if c.get("twins"):
            ctx.probe("twin_commands")
        for k in ("glob", "ana", "dup"):
            if c[k]:
                ctx.probe({"glob": "global", "ana": "analyzer", "dup": "dup_allowed"}[k])
        if len({m["unit"] for m in byreq}) < len(byreq):
            ctx.probe("many_per_file")
        if {m["unit"] for m in c["cmds"]} - set(c["req"]):
            ctx.probe("unrequested")
        if c["mode"] != "json":
            ctx.probe("fixed_db" if c["mode"] == "fixed" else "flags_txt")
        if "extra" in c:
            ctx.probe("inferred")
        if c["io"] != [0, 0]:
            ctx.probe("io_short")
        if r.fired:
            ctx.probe("fault:chdir")
        for m in byreq:
            for k, p in (("str", "command_string"), ("rsp", "rsp")):
                if m.get(k):
                    ctx.probe(p)
            f = m["feat"]
            for t, p in (("--", "dashdash"), ("-x", "xlang"), ("++", "cxx_driver")):
                if t in f:
                    ctx.probe(p)
            if [x for x in f if x not in ("--", "-x", "++")]:
                ctx.probe("outflags")
            if m["unit"].endswith(".cu"):
                ctx.probe("cuda")
            a = m["args"]
            for t, p in (("-include", "forced_include"), ("-DINCQ", "incq"), ("-DINCA", "inca")):
                if t in a:
                    ctx.probe(p)
            if "opt" in m["names"]:
                ctx.probe("optimize")
            if "c_None" in m["names"]:
                ctx.probe("c89")
            if m["dir"] in ("/w/b d", "/w/o'x", "/srv/p\u00e9"):
                ctx.probe("odd_dir")
            ctx.probe("warn" if m["ws"] else "nowarn")
            if m["bug"] and c["ana"]:
                ctx.probe("bugs")

    def shrink(self, c):
        for x in scen.shrink_common(c):
            if x["rules"] == c["rules"]:
                yield x
        for u in c["req"]:
            if len(c["req"]) > 1:
                av = [a for a in c["argv"] if not (a == u or a.endswith("/" + u.rsplit("/", 1)[1]) or a == u.rsplit("/", 1)[1])]
                if len(av) == len(c["argv"]) - 1:
                    yield dict(c, req=[x for x in c["req"] if x != u], argv=av)
        if c["mode"] == "json":
            dbp = [p for p in c["files"] if p.endswith("compile_commands.json")][0]
            db = json.loads(c["files"][dbp])
            if len(db) == len(c["cmds"]):
                for i in range(len(db)):
                    if len(db) > 1:
                        cm = c["cmds"][:i] + c["cmds"][i + 1:]
                        if {m["unit"] for m in cm} >= set(c["req"]) - {"/w/src/extra.c"}:
                            f = dict(c["files"])
                            f[dbp] = json.dumps(db[:i] + db[i + 1:])
                            yield dict(c, cmds=cm, files=f)
                    if "arguments" in db[i]:
                        for o in OUT:
                            o = o.split("|")
                            a = db[i]["arguments"]
                            for j in range(1, len(a) - len(o) + 1):
                                if a[j:j + len(o)] == o and not o[0].startswith("-O"):
                                    f = dict(c["files"])
                                    db2 = [dict(e) for e in db]
                                    db2[i]["arguments"] = a[:j] + a[j + len(o):]
                                    f[dbp] = json.dumps(db2)
                                    yield dict(c, files=f)
                                    break
