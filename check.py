#!/usr/bin/env python3
"""Run one check:  check.py Cxx [--tier quick|thorough] [--facet NAME] [--scale X] [--replay FILE]
or --selftest / --all."""
import argparse
import importlib
import os
import sys

sys.dont_write_bytecode = True
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from vlib import engine


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--facet", action="append")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--replay")
    ap.add_argument("--selftest", action="store_true")
    a = ap.parse_args()
    if a.selftest:
        import hypothesis
        import coral
        names = sorted(n[:-3] for n in os.listdir(os.path.join(V, "checks")) if n.startswith("c") and n.endswith(".py"))
        for n in names:
            m = importlib.import_module("checks." + n)
            assert m.FACETS
        print("hypothesis {}, {} checks importable".format(hypothesis.__version__, len(names)))
        return 0
    pid = a.property.upper()
    module = importlib.import_module("checks." + pid.lower())
    if a.replay:
        return engine.run_replay(pid, module, a.replay)
    return engine.run_check(pid, module, a.tier, a.seed, only=a.facet, scale=a.scale)


if __name__ == "__main__":
    sys.exit(main())
