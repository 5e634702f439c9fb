#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--seed N] [--count N] | check.py --replay FILE"""
import argparse, importlib, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def load(pid):
    m = importlib.import_module("props." + pid.lower())
    return m.P()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--count", type=int)
    ap.add_argument("--deadline", type=int)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--replay")
    a = ap.parse_args()
    import engine
    if a.replay:
        with open(a.replay) as f:
            pid = json.load(f)["property"]
        return engine.replay(load(pid), a.replay)
    return engine.run_check(load(a.id), a.seed, a.tier, workers=a.workers, count=a.count, deadline=a.deadline)


if __name__ == "__main__":
    sys.exit(main())
