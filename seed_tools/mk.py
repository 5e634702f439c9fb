#!/usr/bin/env python3
"""Writes a planted bug: patch.diff, demo.sh, meta.json (and mkoclint.sh when the demo builds
the program) under /verif/seeded/ID.  Used from the shell or from other scripts here."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
WT = "/tmp/seedwt"

PRE = """#!/bin/bash
# exit 0: the behaviour is as it should be; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d)
trap 'rm -rf "$D"' EXIT
fail() { echo "BROKEN: $*"; exit 1; }
"""
INST = """bash "$here/mkoclint.sh" "$D/inst" %s >"$D/log" 2>&1 || { tail -20 "$D/log"; exit 3; }
O="$D/inst/bin/oclint"
mkdir "$D/w" "$D/home"
cd "$D/w"
export HOME="$D/home"
"""


def make(ident, prop, edits, demo, needs, breaks, rules=None):
    if not os.path.exists(WT):
        subprocess.check_call(["git", "clone", "-q", "/repo", WT])
    head = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"]).decode().strip()
    subprocess.check_call(["git", "-C", WT, "fetch", "-q", "origin"])
    subprocess.check_call(["git", "-C", WT, "checkout", "-q", "-f", head])
    for f, old, new in edits:
        p = os.path.join(WT, f)
        s = open(p).read()
        if s.count(old) != 1:
            raise SystemExit("%s: %s: text occurs %d times: %r" % (ident, f, s.count(old), old))
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", WT, "diff"])
    d = "/verif/seeded/" + ident
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "wb").write(diff)
    text = PRE
    if rules is not None:
        text += INST % " ".join(rules)
        shutil.copy(HERE + "/mkoclint.sh", d)
    open(d + "/demo.sh", "w").write(text + demo)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    subprocess.check_call(["git", "-C", WT, "checkout", "-q", "-f", "."])
