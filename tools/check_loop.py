"""The dispatchers which use the event loop of a framework (GLib, GLibmm, Qt): as check_disp, with a thread which runs the
loop. Handlers, actions and timers of these dispatchers are executed by that one thread."""
import check_disp
from check_disp import gen, encode, parse, to_tla, refresh, HARNESS, SPEC

LOOPS = {"GLib": 1, "GLibmm": 2, "Qt": 3}
BUILDS = {n: dict(dispatchers=("Base", n), only_repo_flags=["-fsanitize=thread"], libs=["-rdynamic"], harness_flags=["-DWHICH_LOOP=%d" % k]) for n, k in LOOPS.items()}
PRESETS = {}
for p, fs in check_disp.PRESETS.items():
    PRESETS[p] = [dict(f, loop=LOOPS[n], exe=n) for f in fs for n in LOOPS]
COUNT = dict(quick=300, thorough=5000)
BATCH = 100
ASSUME = "1-4 client threads with up to 9 operations each on the GLib, GLibmm and Qt dispatchers; schedules sampled by VERIF_SEED; the frameworks' own locks are not schedule points"
