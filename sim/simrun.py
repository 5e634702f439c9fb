"""Client of the simulated oclint: worlds (file systems), runs, hosts."""
import os, struct, subprocess, copy, json, hashlib, threading, signal, sys, base64
import build as B

EXE = "/opt/oclint/bin/oclint"
RULES = "/opt/oclint/lib/oclint/rules"
REPORTERS = "/opt/oclint/lib/oclint/reporters"


class HarnessError(Exception):
    """The simulator itself failed: no verdict."""


def b(x):
    return x if isinstance(x, bytes) else str(x).encode("utf8", "surrogateescape")


def rec(tag, *fields):
    out = [tag.encode(), struct.pack("<I", len(fields))]
    for f in fields:
        f = b(f)
        out.append(struct.pack("<I", len(f)))
        out.append(f)
    return b"".join(out)


class FS:
    """The durable state of a world: path -> node."""

    def __init__(self):
        self.nodes = {}   # path -> dict(type, data, mode, mtime, ino)
        self.next = 1000
        self.orders = {}

    def clone(self):
        f = FS()
        f.nodes = {p: dict(n) for p, n in self.nodes.items()}
        f.next = self.next
        f.orders = {p: list(o) for p, o in self.orders.items()}
        return f

    def add(self, path, data=b"", mode=0o644, type="f", mtime=1600000000, ino=None):
        if ino is None:
            ino = self.next
            self.next += 1
        self.nodes[path] = dict(type=type, data=b(data), mode=mode, mtime=mtime, ino=ino)
        return self

    def dir(self, path, mode=0o755):
        return self.add(path, b"", mode, "d")

    def link(self, path, target):
        return self.add(path, target, 0o777, "l")

    def read(self, path):
        n = self.nodes.get(path)
        return None if n is None or n["type"] != "f" else n["data"]

    def remove(self, path):
        self.nodes.pop(path, None)

    def listing(self):
        return {p: (n["type"], n["data"], n["mode"]) for p, n in self.nodes.items()}

    def pack(self):
        out = []
        for p in sorted(self.nodes):
            n = self.nodes[p]
            if n["type"] == "f":
                out.append(rec("F", p, n["ino"], "%o" % n["mode"], n["mtime"], n["data"]))
            elif n["type"] == "d":
                out.append(rec("D", p, n["ino"], "%o" % n["mode"], n["mtime"]))
            else:
                out.append(rec("L", p, n["ino"], n["data"]))
        for p in sorted(self.orders):
            out.append(rec("O", p, *self.orders[p]))
        return b"".join(out)

    def apply(self, journal):
        """Apply a run's journal; returns the set of paths it touched."""
        touched = []
        byino = {n["ino"]: p for p, n in self.nodes.items()}
        bufs = {}

        def buf(ino):
            if ino not in bufs:
                bufs[ino] = bytearray(self.nodes[byino[ino]]["data"])
            return bufs[ino]
        i = 0
        while i < len(journal):
            t = journal[i:i + 1]
            ino, a, pl = struct.unpack_from("<QQI", journal, i + 1)
            i += 21
            path = journal[i:i + pl].decode("utf8", "surrogateescape")
            i += pl
            n, = struct.unpack_from("<I", journal, i)
            i += 4
            data = journal[i:i + n]
            i += n
            if t in b"CDL":
                self.nodes[path] = dict(type={b"C": "f", b"D": "d", b"L": "l"}[t], data=data if t == b"L" else b"",
                                        mode=a or 0o777, mtime=1600000000, ino=ino)
                byino[ino] = path
                bufs.pop(ino, None)
                touched.append(("create", path))
            elif t == b"W":
                bb = buf(ino)
                if len(bb) < a:
                    bb.extend(b"\0" * (a - len(bb)))
                bb[a:a + n] = data
                touched.append(("write", byino.get(ino, "?")))
            elif t == b"T":
                bb = buf(ino)
                if len(bb) > a:
                    del bb[a:]
                else:
                    bb.extend(b"\0" * (a - len(bb)))
                touched.append(("truncate", byino.get(ino, "?")))
            elif t == b"U":
                self.nodes.pop(path, None)
                touched.append(("unlink", path))
            elif t == b"R":
                old = data.decode("utf8", "surrogateescape")
                nd = self.nodes.pop(old, None)
                if nd is not None:
                    self.nodes[path] = nd
                for q in [q for q in self.nodes if q.startswith(old + "/")]:
                    self.nodes[path + q[len(old):]] = self.nodes.pop(q)
                byino = {x["ino"]: p for p, x in self.nodes.items()}
                touched.append(("rename", path))
            elif t == b"M":
                if ino in byino and byino[ino] in self.nodes:
                    self.nodes[byino[ino]]["mode"] = a
                    touched.append(("chmod", byino[ino]))
        for ino, bb in bufs.items():
            p = byino.get(ino)
            if p in self.nodes:
                self.nodes[p]["data"] = bytes(bb)
        # inode numbers the run gave out must not be given out again
        self.next = max([self.next] + [n["ino"] + 1 for n in self.nodes.values()])
        return touched


class Run:
    """One simulated process execution."""

    def __init__(self, **kw):
        self.argv = ["oclint"]
        self.env = {"PATH": "/usr/bin:/opt/oclint/bin", "HOME": "/home/u", "TZ": "UTC0"}
        self.cwd = "/w"
        self.exe = EXE
        self.plugins = {}      # path -> (kind, arg)
        self.scripts = []      # (plugin, name, category, priority, [actions of 8])
        self.faults = []       # dict(op, path, nth, kind, arg)
        self.heap = (0, 0, 0, 0, 0, 0, 1)
        self.clock = 1700000000 * 10**9
        self.tick = 1000
        self.jumps = []
        self.io = (0, 0)
        self.stack = 0
        self.budget = 3000000
        self.cpu = 30
        self.limits = (0, 0)   # bytes of heap, descriptors
        for k, v in kw.items():
            assert hasattr(self, k), k
            setattr(self, k, v)

    def clone(self, **kw):
        r = copy.copy(self)
        r.argv = list(self.argv)
        r.env = dict(self.env)
        r.plugins = dict(self.plugins)
        r.scripts = list(self.scripts)
        r.faults = [dict(f) for f in self.faults]
        r.jumps = list(self.jumps)
        for k, v in kw.items():
            assert hasattr(r, k), k
            setattr(r, k, v)
        return r

    def pack(self, fs, trace):
        o = [rec("A", *self.argv), rec("E", *["%s=%s" % kv for kv in sorted(self.env.items())]), rec("C", self.cwd),
             rec("Q", self.exe)]
        o.append(fs.pack())
        o.append(rec("L", "/proc/self/exe", 3, self.exe))
        for p in sorted(self.plugins):
            k = self.plugins[p]
            o.append(rec("P", p, k[0], k[1]))
        for s in self.scripts:
            fl = [s[0], s[1], s[2], s[3]]
            for a in s[4]:
                fl.extend(a)
            o.append(rec("R", *fl))
        for f in self.faults:
            o.append(rec("X", f["op"], f["path"], f["nth"], f["kind"], f.get("arg", 0)))
        o.append(rec("H", *self.heap))
        o.append(rec("T", self.clock, self.tick))
        for j in self.jumps:
            o.append(rec("J", *j))
        o.append(rec("I", *self.io))
        o.append(rec("W", int(trace), self.budget, self.cpu, *self.limits))
        o.append(rec("S", self.stack))
        return b"".join(o)


class Result:
    __slots__ = ("status", "sig", "hash", "ops", "sim_ns", "allocs", "frees", "reused", "oom", "nfaults", "returned", "rc", "note",
                 "trace", "out", "err", "misc", "touched", "fs", "fired", "lost")

    def exit(self):
        """exit status as an int, or 'signal N'"""
        return "signal %d" % self.sig if self.sig else self.status

    def key(self):
        return (self.exit(), self.hash)

    def brief(self):
        return "exit=%s ops=%d faults=%s err=%r" % (self.exit(), self.ops, self.fired, self.err[-300:])


def parse_trace(t):
    out = []
    for line in t.decode("utf8", "surrogateescape").split("\n"):
        if line:
            out.append(line.split("\t"))
    return out


class Host:
    """One host process (see zygote.cpp)."""

    def __init__(self, built, layout=0):
        self.built = built
        self.layout = layout      # which fixed placement of libraries and stack
        key = hashlib.sha256(json.dumps(sorted(list(built["rules"].values()) + list(built["reporters"].values()))).encode()).hexdigest()[:16]
        lst = os.path.join(B.BUILD, "plugins-%s.txt" % key)
        if not os.path.exists(lst):
            tmp = lst + ".%d" % os.getpid()
            with open(tmp, "w") as f:
                for n, p in sorted(list(built["rules"].items()) + list(built["reporters"].items())):
                    with open(p + ".init") as g:
                        f.write("%s %s %s" % (n, p, g.read()))
            os.replace(tmp, lst)
        self.lst = lst
        self.p = None
        self.runs = 0

    def start(self):
        self.p = subprocess.Popen([self.built["host"], self.lst], stdin=subprocess.PIPE, stdout=subprocess.PIPE, bufsize=0,
                                  env={"PATH": "/usr/bin:/bin", "SIM_LAYOUT": str(self.layout)})
        hello = self._read(16)
        m, n = struct.unpack("<QQ", hello)
        if m != 0x600D600D:
            raise HarnessError("host did not start")

    def _read(self, n):
        out = bytearray()
        while len(out) < n:
            c = self.p.stdout.read(min(n - len(out), 1 << 20))
            if not c:
                rc = self.p.wait()
                self.p = None
                raise HarnessError("host ended with %s" % rc)
            out += c
        return bytes(out)

    def close(self):
        if self.p:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:
                self.p.kill()
            self.p.stdout.close()
            self.p = None

    def run(self, run, fs, trace=False, keep_fs=True):
        if self.p is None:
            self.start()
        msg = run.pack(fs, trace)
        mv = memoryview(struct.pack("<Q", len(msg)) + msg)
        while mv:
            k = self.p.stdin.write(mv)
            mv = mv[k:]
        h = struct.unpack("<24Q", self._read(192))
        if h[0] != 0x51B0C2:
            raise HarnessError("protocol error")
        r = Result()
        st = h[1]
        r.sig = st & 0x7f
        r.status = (st >> 8) & 0xff
        (r.hash, r.ops, r.sim_ns, r.allocs, r.frees, r.reused, r.oom, r.nfaults, r.returned, r.rc, r.note) = h[2:13]
        if r.rc >= 1 << 63:
            r.rc -= 1 << 64
        r.trace = self._read(h[13])
        r.out = self._read(h[14])
        r.err = self._read(h[15])
        j = self._read(h[16])
        r.misc = self._read(h[17])
        r.lost = sum(h[18:23])
        r.trace = parse_trace(r.trace) if trace else None
        r.fired = [l.split("\t")[1:] for l in r.misc.decode("utf8", "surrogateescape").split("\n") if l.startswith("F\t")]
        self.runs += 1
        if r.sig == 31:
            raise HarnessError("the run attempted a real system call outside the simulation (SIGSYS)")
        if r.note & 12:
            raise HarnessError("the run attempted something the simulation does not model: %r" % r.misc[:300])
        if r.lost and not (h[18] == r.lost):
            raise HarnessError("result area overflow")
        if keep_fs:
            r.fs = fs.clone()
            r.touched = r.fs.apply(j)
        else:
            r.fs = None
            r.touched = None
        return r


def base_fs(plugins):
    """A world with the tool installed under /opt/oclint and an empty project in /w."""
    fs = FS()
    for d in ("/w", "/home/u", "/opt/oclint/bin", RULES, REPORTERS, "/opt/oclint/etc", "/usr/bin", "/tmp"):
        fs.dir(d)
    fs.add(EXE, b"\x7fELF", 0o755)
    for p in plugins:
        fs.add(p, b"\x7fELF plugin", 0o755)
    return fs
