#!/usr/bin/env python3
"""Decides one property: every suite which has inputs for it is run, and all verdicts count.

usage: check.py PROPERTY   (VERIF_SEED, VERIF_TIER)        check.py --replay FILE
"""
import importlib, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib, runs

SUITES = ["check_seq", "check_multi", "check_reg", "check_log", "check_conc", "check_disp", "check_loop", "check_gen", "check_var"]


def check(prop):
    c = lib.Check(prop, "model_checking")
    for name in SUITES:
        mod = importlib.import_module(name)
        if prop in mod.PRESETS:
            getattr(mod, "decide", lambda c, prop: runs.sequential(c, prop, mod))(c, prop)
            c.assumptions.append(mod.ASSUME)
            if hasattr(mod, "extra"):
                mod.extra(c, prop, lib.TIER)
    return c.finish()


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        lib.main(lambda: runs.replay(sys.argv[2]))
    lib.main(lambda: check(sys.argv[1]))
