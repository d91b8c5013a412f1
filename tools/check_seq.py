"""Sequential engine properties: random machines and scripts run on the real engine, every run validated by TLC
against Hsm.tla (HsmTrace), plus exhaustive exploration of small machines (HsmMC)."""
import hsmgen, mc

ALLOPS = dict(t=10, d=12, tc=2, p=3, irq=2, env=3, fire=1)
POSTS = dict(t=12, d=10, tc=1, p=0, irq=1, env=2, fire=0)
# every property: feature sets of the generator it is decided on (rotated); the machines of one property are not
# restricted to the feature in question - guarantees have to hold whatever else the machine uses
PRESETS = {
    "C01": [dict(block=0.12, hist=0.2, final=0.2), dict(free=0.4, block=0.1, hist=0.2), dict(nmax=14, depth=4, final=0.2, react=0.3)],
    "C02": [dict(react=0.9, deliver=0.3, w=POSTS), dict(react=0.7, hist=0.3, final=0.3, deliver=0.2, w=ALLOPS, acts=0.2),
            dict(deliver=0.15, final=0.4, par_entry=0.5, w=POSTS, react=0.4)],
    "C03": [dict(cond=0.6, par_tr=0.35, args=0.7, selfs=0.2), dict(cond=0.5, nmax=14, depth=4, par_entry=0.5, selfs=0.25, args=0.7),
            dict(cond=0.5, free=0.3)],
    "C04": [dict(cb=1.0, acts=0.3, args=0.9, nmax=12, depth=4), dict(cb=0.8, args=0.9, hist=0.3, final=0.3, par_tr=0.3), dict(cb=0.6, args=0.9, selfs=0.3, par_entry=0.5)],
    "C05": [dict(block=0.3, cb=0.95, nmax=12, depth=4, par_entry=0.5), dict(block=0.25, hist=0.4, par_tr=0.3), dict(block=0.2, free=0.3, final=0.2, acts=0.2, selfs=0.3)],
    "C06": [dict(par_entry=0.6, cond=0.5, entry_ev=0.3, p_comp=0.7, depth=4, nmax=12), dict(par_entry=0.5, entry_ev=0.2, react=0.6, w=dict(t=10, d=12, tc=4, p=0, irq=1, env=3, fire=0)),
            dict(par_entry=0.5, par_tr=0.4, cond=0.4, p_comp=0.7, block=0.08, hist=0.2)],
    "C07": [dict(hist=0.7, p_comp=0.6, par_entry=0.4, hist_w=5), dict(hist=0.6, depth=4, nmax=13, par_entry=0.6, hist_w=5, deliver=0.8),
            dict(hist=0.5, block=0.15, react=0.3, w=ALLOPS, hist_w=5), dict(hist=0.6, free=0.25, final=0.3, hist_w=5)],
    "C08": [dict(final=0.5, p_comp=0.6, par_entry=0.6), dict(final=0.4, par_entry=0.6, args=0.9, deliver=0.3, w=POSTS, react=0.3),
            dict(final=0.4, depth=4, nmax=14, par_entry=0.5, block=0.1, hist=0.2)],
    "C09": [dict(acts=0.7, block=0.15), dict(acts=0.6, hist=0.3, final=0.2, par_entry=0.5, selfs=0.3, args=0.9),
            dict(acts=0.5, timers=1, w=dict(t=10, d=12, tc=1, p=1, irq=0, env=2, fire=3, ts=1, tp=1, tr=1))],
    "C10": [dict(fcb=1.0, block=0.25, cond=0.5), dict(fcb=1.0, par_entry=0.6, p_comp=0.7, par_tr=0.3, block=0.1, hist=0.3), dict(fcb=1.0, selfs=0.4, cond=0.5, react=0.3)],
    "C11": [dict(cond=0.5, args=0.7, deliver=0.2, w=dict(t=8, d=6, tc=1, p=20, irq=0, env=3, fire=0)), dict(cond=0.4, hist=0.2, final=0.2, deliver=0.3, w=dict(t=10, d=10, tc=1, p=20, irq=1, env=3, fire=0)),
            dict(cond=0.3, depth=4, nmax=13, par_entry=0.5, react=0.5, w=dict(t=8, d=10, tc=1, p=20, irq=0, env=3, fire=0))],
    "C14": [dict(deliver=0.25, fcb=1.0, w=dict(t=12, d=6, tc=5, p=0, irq=1, env=2, fire=1), par_entry=0.5, hist=0.3),
            dict(deliver=0.3, final=0.4, par_entry=0.5, react=0.7, w=dict(t=12, d=6, tc=4, p=0, irq=0, env=2, fire=0)),
            dict(deliver=0.2, hist=0.5, depth=4, nmax=12, react=0.9, w=dict(t=10, d=7, tc=5, p=0, irq=2, env=2, fire=1))],
}
SPEC = "HsmTrace"
HARNESS = ["hsm_run.cpp"]
COUNT = dict(quick=2250, thorough=30000)       # runs per worker process
BATCH = 750
ASSUME = "machines up to 18 states, scripts up to ~60 operations, sampled by VERIF_SEED; one dispatcher turn at a time"


MIX = dict(block=(0.08, 0.25), hist=(0.3, 0.6), final=(0.2, 0.5), par_entry=(0.5, 0.7), cond=(0.2, 0.6), selfs=(0.3, 0.5), free=(0.2, 0.4), react=(0.3, 0.8),
           par_tr=(0.3, 0.5), acts=(0.2, 0.4), entry_ev=(0.0, 0.4), deliver=(0.2, 0.9), cb=(0.5, 1.0), args=(0.2, 0.9), p_comp=(0.3, 0.7), nmax=(6, 14), ne=(2, 6))


def gen(r, feat):
    if r.random() < 0.25:   # guarantees have to hold for unusual combinations of features too
        feat = dict(feat, **{k: r.choice(MIX[k]) for k in r.sample(sorted(MIX), r.randint(2, 4))})
    m = hsmgen.gen_machine(r, feat)
    return m, hsmgen.gen_script(r, m)


def encode(rid, x):
    return hsmgen.enc_run(rid, [x[0]], x[1])


def to_tla(rid, x, res):
    return hsmgen.tla_run(rid, x[0], x[1], res)


def refresh(run, res):
    ops = []
    for j, o in enumerate(run["ops"], 1):
        o = dict(o, obs=[dict(k=b["k"], s=b["s"], args=b["args"], act=b["act"]) for b in res["obs"].get(j, [])])
        if o["op"] == "d":
            o["had"] = res["had"].get(j, -1)
        ops.append(o)
    return dict(run, ops=ops)


def extra(c, prop, tier):
    mc.explore(c, prop, PRESETS[prop], dict(quick=150, thorough=2500)[tier])
