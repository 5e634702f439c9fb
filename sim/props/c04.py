"""C04: a run that claims to have reported has delivered the complete report."""
import engine as E
import scen
import simrun as S
import world as W
import reports as R

WERR = ["ENOSPC", "EIO", "EDQUOT", "EFBIG", "EPIPE", "EBADF", "EROFS", "ESTALE"]
OERR = ["EACCES", "ENOENT", "ENOSPC", "EROFS", "EMFILE", "ENFILE", "EISDIR", "EDQUOT", "EIO", "ELOOP", "ENAMETOOLONG"]
CERR = ["EIO", "ENOSPC", "EDQUOT", "ESTALE"]
SOFT = ("EINTR", "short")


class P(E.Prop):
    ID = "C04"
    COUNT = {"quick": 900, "thorough": 20000}
    RULE = ("Seeded cases: a project with scripted findings, a format, a report destination (file with earlier content, new file, "
            "standard output), then 1-2 faults placed on operations the fault-free run performed, most of them inside the report "
            "write (failing/short/torn/interrupted writes, failing open/close, disk full from there on, kill), some anywhere "
            "before; afterwards the run is repeated without faults on the disk that was left.")
    PROBES = ["write_error", "open_error", "close_error", "kill_in_report", "kill_before_report", "prior_content", "stdout_error",
              "exit4", "short_ok", "recovered", "big_report", "oom"]
    REAL = E.Prop.REAL + ["the six real reporters"]
    STUB = E.Prop.STUB + ["rules (scripted)"]

    def cases(self, rng, ctx, tier, i):
        fmt = rng.choice(sorted(W.REP_NAMES))
        files, units, kinds = scen.small_project(rng)
        acts = []
        for u in units:
            for _ in range(rng.choice([0, 1, 3, 20])):
                acts.append(scen.act(u, "v", "", rng.randrange(1, 99), rng.randrange(1, 80), 5, 6, "m%d" % rng.randrange(1000)))
        if rng.random() < 0.3:
            acts.append(scen.act("*", "many", "", 1, rng.choice([60, 300, 1200]), 9, 9, "a longer message number "))
        rules = [["", "scripted rule", "cat", rng.choice([1, 2, 3]), acts]]
        dest = rng.choice(["out.rep", "/w/out.rep", "sub/out.rep", "/tmp/r.xml", "", "", "-"])
        argv = ["oclint", "-report-type", fmt]
        if dest:
            argv += ["-o", dest]
        x = rng.random()
        if x < 0.4:
            argv += ["-max-priority-1=99999", "-max-priority-2=99999", "-max-priority-3=99999"]
        if rng.random() < 0.2:
            argv.append("-list-enabled-rules")
        if rng.random() < 0.15:
            argv.append("-enable-global-analysis")
        argv += units + ["--"]
        base = dict(files=files, rules=rules, argv=argv, dirs=["/w/sub"], dest=dest, fmt=fmt, io=[0, rng.choice([0, 0, 0, 3, 64, 1000])],
                    heap=scen.rand_heap(rng), prior=rng.choice([None, None, "", "old", "OLD REPORT\n" * 40, "x" * 300000]), faults=[])
        path = self.dpath(base)
        if path is None:
            base["prior"] = None
        ref = self.one(base, ctx, trace=True)
        if ref.exit() not in scen.CLAIMS:
            yield base
            return
        occ = scen.occurrences(ref.trace)
        dops = [o for o in occ if o[1] == (path or "<stdout>") and o[0] in ("openw", "write", "closew", "ftruncate")]
        rest = [o for o in occ if o[1] != (path or "<stdout>")]
        yield base
        for _ in range(3):
            fl = []
            y = rng.random()
            if dops and y < 0.72:
                op, p, nth, _, _ = rng.choice(dops if rng.random() < 0.6 else dops[-3:] + dops[:2])
                if op == "openw":
                    kind = rng.choice(OERR + ["kill"])
                elif op == "closew":
                    if path is None:
                        continue
                    kind = rng.choice(CERR + ["kill"])
                else:
                    kind = rng.choice(WERR * 2 + ["EINTR", "short", "torn", "kill"])
                arg = rng.choice([0, 1, 2, 10, 100, 1000])
                per = rng.random() < 0.5 and kind not in ("kill",)
                fl.append(dict(op=op, path=p, nth=-nth if per and kind not in ("EINTR", "short") else nth, kind=kind, arg=arg))
                if kind in SOFT and rng.random() < 0.5:
                    fl.append(dict(op="write", path=p, nth=nth + rng.randrange(1, 4), kind=rng.choice(WERR + ["EINTR"]), arg=0))
            elif y < 0.9 and rest:
                op, p, nth, _, _ = rng.choice(rest)
                kind = "kill" if rng.random() < 0.4 else rng.choice(["EIO", "EACCES", "ENOENT", "ENOMEM", "EMFILE"])
                fl.append(dict(op=op, path=p, nth=nth, kind=kind, arg=0))
            else:
                h = list(base["heap"])
                h[5] = rng.randrange(1, max(2, ref.allocs)) if rng.random() < 0.5 else max(1, ref.allocs - rng.randrange(200))
                h[6] = 1 << 30  # memory that is exhausted stays exhausted
                yield dict(base, heap=h)
                continue
            yield dict(base, faults=fl)

    def dpath(self, case):
        d = case["dest"]
        return None if d in ("", "-") else d if d.startswith("/") else "/w/" + d

    def one(self, case, ctx, faults=None, fs=None, trace=False, prior=True, heap=None):
        run, f = scen.build_world(self.built, case)
        if faults is not None:
            run.faults = [dict(x) for x in faults]
        if heap is not None:
            run.heap = tuple(heap)
        if fs is not None:
            f = fs
        p = self.dpath(case)
        if prior and fs is None and p and case["prior"] is not None:
            f.add(p, case["prior"])
        return ctx.run(run, f, trace=trace)

    def output(self, case, r):
        p = self.dpath(case)
        return r.out if p is None else r.fs.read(p)

    def execute(self, case, ctx):
        h0 = list(case["heap"])
        h0[5] = 0
        path = self.dpath(case)
        V = []
        ref = self.one(case, ctx, faults=[], prior=False, heap=h0)
        if ref.exit() not in scen.CLAIMS:
            return [E.Viol("fault-free-status", "the fault-free run ended with %s: %r" % (ref.exit(), ref.err[-300:]))]
        D = self.output(case, ref)
        if D is None:
            return [E.Viol("fault-free-missing", "the fault-free run exited %s without a report" % ref.exit())]
        if len(D) > 50000:
            ctx.probe("big_report")
        if case["fmt"] in R.READERS:
            try:
                R.READERS[case["fmt"]](self.strip(case, D))
            except Exception as e:
                V.append(E.Viol("fault-free-incomplete", "the fault-free report is not complete: %s" % e))
        elif case["fmt"] == "text":
            try:
                R.read_text(D)
            except R.Bad as e:
                V.append(E.Viol("fault-free-incomplete", str(e)))
        r = self.one(case, ctx, trace=True)
        out = self.output(case, r)
        ex = r.exit()
        prior = None if case["prior"] is None else case["prior"].encode()
        if prior is not None:
            ctx.probe("prior_content")
        dname = path or "<stdout>"
        hard = [f for f in r.fired if f[1] == dname and f[0] in ("openw", "write", "closew", "ftruncate") and f[2] not in SOFT and f[2] not in ("kill", "torn")]
        soft = [f for f in r.fired if f[1] == dname and f[2] in SOFT]
        opened = any(t[0] == "openw" and t[1] == path for t in r.trace) if path else None
        for f in hard:
            ctx.probe({"write": "write_error", "openw": "open_error", "closew": "close_error"}.get(f[0], "other_error") if path else "stdout_error")
        oom = case["heap"][5] != 0
        torn = any(f[2] in ("torn", "kill") for f in r.fired)
        if oom:
            ctx.probe("oom")
        if soft and not hard and ex in scen.CLAIMS:
            ctx.probe("short_ok")
        foreign = [f for f in r.fired if f[1] != dname and f[2] != "kill"] + ([["malloc", "", "fail"]] if oom else [])
        if ex in scen.CLAIMS:
            if out is None:
                V.append(E.Viol("claimed-missing", "exit status %s but there is no report at the destination; faults %s" % (ex, r.fired)))
            elif hard:
                V.append(E.Viol("fault-unreported", "exit status %s although writing the report failed (%s); %d of %d bytes delivered"
                                % (ex, hard[:3], len(out), len(D))))
            elif not foreign and out != D:
                V.append(E.Viol("claimed-incomplete", "exit status %s but the destination holds %d bytes instead of the %d of the report "
                                "(first difference at %d); faults %s" % (ex, len(out), len(D), self.fd(out, D), r.fired)))
            elif foreign and not self.complete(case, out):
                V.append(E.Viol("claimed-incomplete", "exit status %s but the report is not complete: %r; faults %s" % (ex, out[-200:], r.fired)))
            if not foreign and not hard and not V and ex != ref.exit():
                V.append(E.Viol("status-changed", "exit status %s instead of %s; faults %s" % (ex, ref.exit(), r.fired)))
        else:
            if ex == 4:
                ctx.probe("exit4")
            if hard and ex != 4 and not torn and not oom:
                V.append(E.Viol("wrong-status", "the report could not be written (%s), the run ended with %s instead of 4" % (hard[:3], ex)))
            if not r.fired and not oom:
                V.append(E.Viol("status-changed", "exit status %s with earlier destination content, %s without" % (ex, ref.exit())))
            if path:
                if not opened or (ex == 4 and any(f[0] == "openw" for f in hard)):
                    ctx.probe("kill_before_report")
                    if out != prior:
                        V.append(E.Viol("earlier-report-touched", "the run ended with %s before reporting, but the destination changed from %r to %r"
                                        % (ex, prior and prior[:80], out and out[:80])))
                elif ex == "signal 9":
                    ctx.probe("kill_in_report")
                if ex in (1, 2, 3, 7) and out != prior:
                    V.append(E.Viol("earlier-report-touched", "status %s, but the destination changed" % ex))
        if path is not None:
            others = sorted({p for k, p in r.touched if p != path})
            if others:
                V.append(E.Viol("other-files", "the run changed %s" % others))
        # afterwards, on the disk that was left, a run without faults must deliver exactly the report
        if path and (r.fired or oom) and not V:
            again = self.one(case, ctx, faults=[], fs=r.fs, heap=h0)
            o2 = self.output(case, again)
            if again.exit() != ref.exit() or o2 != D:
                V.append(E.Viol("not-recovered", "a later run over what a %s run left ended with %s and %s bytes instead of %s and %d"
                                % (ex, again.exit(), None if o2 is None else len(o2), ref.exit(), len(D))))
            else:
                ctx.probe("recovered")
        return V

    def fd(self, a, b):
        n = min(len(a), len(b))
        for i in range(n):
            if a[i] != b[i]:
                return i
        return n

    def strip(self, case, data):
        if self.dpath(case) is None and "-list-enabled-rules" in case["argv"]:
            i = data.find(b"\n\n")
            return data[i + 2:]
        return data

    def complete(self, case, data):
        try:
            if case["fmt"] in R.READERS:
                R.READERS[case["fmt"]](self.strip(case, data))
            elif case["fmt"] == "text":
                R.read_text(data)
            return True
        except Exception:
            return False

    def shrink(self, case):
        yield from scen.shrink_common(case)
        if case["prior"]:
            yield dict(case, prior="old")
            yield dict(case, prior=None)
        units = [a for a in case["argv"] if a.startswith("/w/u")]
        for u in units if len(units) > 1 else []:
            yield dict(case, argv=[a for a in case["argv"] if a != u])
        for o in ("-list-enabled-rules", "-enable-global-analysis"):
            if o in case["argv"]:
                yield dict(case, argv=[a for a in case["argv"] if a != o])
        for i, r in enumerate(case["rules"]):
            for j, a in enumerate(r[4]):
                if a[1] == "many" and a[4] > 5:
                    na = a[:4] + [a[4] // 2] + a[5:]
                    yield dict(case, rules=case["rules"][:i] + [r[:4] + [r[4][:j] + [na] + r[4][j + 1:]]] + case["rules"][i + 1:])
