#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import importlib, sys
sys.path.insert(0, V + "/tools")
import check
SUITE = dict(
    check_seq="Hsm.tla: exhaustive TLC exploration of small machines (HsmMC) and TLC trace validation (HsmTrace) of random machines and scripts executed on the real engine",
    check_reg="HsmReg.tla (folding of registration calls) and Hsm.tla: TLC validation of random registrations and of the resulting machine's behaviour on the real engine",
    check_log="Hsm.tla with the records of the debug log: TLC trace validation of callbacks and of the log file read back after every observation",
    check_disp="DispConc.tla (handlers, events, actions, timers, stopping): TLC validation of executions of the real std dispatcher under a scheduler which controls all interleavings",
    check_loop="DispConc.tla for the GLib, GLibmm and Qt dispatchers with a thread which runs the event loop: TLC validation of executions under the same scheduler",
    check_multi="HsmMulti.tla (several machines, dispatcher queues, timers, release): TLC trace validation of random scripts executed on the real engine and dispatcher base",
    check_gen="Scxml.tla (what a document means as a machine of Hsm.tla and as a diagram): TLC trace validation of generated, compiled and executed classes, and TLC comparison of exported diagrams, for random documents",
    check_var="Variant.tla: laws of equality and order checked exhaustively by TLC (VariantMC), and TLC trace validation (VarTrace) of random scripts of operations executed on the real class",
    check_conc="HsmConc.tla (client threads, timers, interrupts): TLC validation of executions recorded under a scheduler which controls all interleavings of the real dispatcher and engine")
NOTE = "the specification is explored by TLC within bounds; the code is bound by validating recorded runs, sampled by VERIF_SEED"
CHECKS = {}
for name in check.SUITES:
    for p in importlib.import_module(name).PRESETS:
        CHECKS.setdefault(p, []).append(SUITE[name])
CHECKS = {p: ("python3 tools/check.py " + p, "TLA+ specification " + "; and ".join(t), "model_checking", NOTE) for p, t in CHECKS.items()}
NA = {}
NOTYET = "check not built yet"
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = dict(version=1, setup_cmd="true", checks=[], not_applicable=[])
for p in props:
    if p in CHECKS:
        cmd, tech, level, note = CHECKS[p]
        m["checks"].append(dict(property=p, quick_cmd=cmd, thorough_cmd="VERIF_TIER=thorough " + cmd, technique=tech, level=level, level_note=note))
    else:
        m["not_applicable"].append(dict(property=p, reason=NA.get(p, NOTYET)))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
