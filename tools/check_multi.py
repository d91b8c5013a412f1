"""System-level runs: several machines on the repository's dispatcher base (queue of interrupt-safe events, timers,
release), every recorded run validated by TLC against HsmMulti."""
import random
import hsmgen

W = dict(t=12, d=14, tc=1, p=1, irq=3, env=2, fire=0, ts=0, tp=0, tr=0)
PRESETS = {
    "C23": [dict(nm=3, cb=0.95, xreact=0.5, nmax=6), dict(nm=2, cb=0.95, acts=0.4, hist=0.3, final=0.2, xreact=0.3, timers=1, w=dict(W, fire=3, ts=2, tp=1, tr=1)),
            dict(nm=3, xrel=0.5, rel=0.6, xreact=0.3, w=dict(W, irq=6), nmax=6), dict(nm=2, same=1, xreact=0.4, block=0.1)],
    "C18": [dict(nm=2, acts=0.5, timers=1, block=0.1, w=dict(W, fire=10, ts=8, tp=4, tr=3), nmax=6, rel=0.3),
            dict(nm=1, acts=0.3, timers=1, hist=0.3, final=0.2, selfs=0.3, w=dict(W, fire=10, ts=6, tp=3, tr=3), react=0.7)],
    "C16": [dict(nm=2, w=dict(W, irq=25, d=10), deliver=0.3, nmax=6, react=0.6), dict(nm=3, w=dict(W, irq=25, d=8, t=4), deliver=0.15, nmax=5, rel=0.3, xrel=0.2),
            dict(nm=1, w=dict(W, irq=30, d=8, t=4), deliver=0.1, react=0.9)],
    "C15": [dict(nm=2, rel=0.9, xrel=0.3, nmax=6, acts=0.3, timers=1, w=dict(W, fire=3, ts=3)), dict(nm=1, rel=0.7, selfrel=0.8, hist=0.3, final=0.3, par_entry=0.5, deliver=0.3),
            dict(nm=1, selfrel=1.0, par_tr=0.3, block=0.15, acts=0.3), dict(nm=2, rel=0.5, selfrel=0.5, w=dict(W, irq=8), xreact=0.4)],
}


def gen(r, feat):
    f = dict(w=W, rel=0.0, xrel=0.0, xreact=0.0, selfrel=0.0, same=0, nm=2, ops=(14, 30))
    f.update(feat)
    nm = r.randint(1 if f["nm"] < 2 else 2, f["nm"])
    ms = []
    for k in range(nm):
        m = ms[0] if f["same"] and k else hsmgen.gen_machine(r, f)
        if f["same"] and k:
            import copy
            m = copy.deepcopy(m)
        ms.append(m)
    # equal numbers on all machines, timers of their own
    cap = r.randint(1, 5)
    for k, m in enumerate(ms):
        big = max(ms, key=lambda x: x.n)
        bige = max(ms, key=lambda x: x.ne)
        m.ids, m.evs, m.cap = big.ids[:m.n], bige.evs[:m.ne], cap
        sh = lambda i: i + 10 * k
        m.tm = [dict(t, id=sh(t["id"])) for t in m.tm]
        m.acts = [dict(a, args=[sh(a["args"][0])] + a["args"][1:]) if a["a"] != "post" else a for a in m.acts]
        m.react = [dict(x, ops=[shifted(o, k) for o in x["ops"]]) for x in m.react]
    for k, m in enumerate(ms):
        for key, ops in (("xreact", ("t", "t", "tc")), ("xrel", ("rel", "del")), ("selfrel", ("rel",))):
            if r.random() >= f[key] or (key != "selfrel" and nm == 1):
                continue
            # another machine is released only after start-up: a machine can't be initialized after release
            kind = r.choice(["tr", "fl"] if key == "xrel" else ["en", "ex", "st", "st", "tr", "fl"])
            s = r.choice(m.plain) if kind in ("en", "ex", "st") else r.randint(1, len(m.trans)) if kind == "tr" and m.trans else r.randint(1, m.ne)
            if kind == "tr" and not m.trans:
                kind = "fl"
            x = r.choice(ops)
            if key == "selfrel":
                o = hsmgen.mkop(x)
            else:
                to = r.choice([n for n in range(nm) if n != k])
                o = hsmgen.mkop(x, hsmgen.rnd_event(r, ms[to]) if x[0] == "t" else 0, hsmgen.rnd_args(r, ms[to].f) if x[0] == "t" else ())
                o["m"] = to + 1
            m.react.append(dict(k=kind, s=s, n=r.randint(1, 2), ops=[o] + ([hsmgen.mkop("t", hsmgen.rnd_event(r, m))] if r.random() < 0.3 else [])))
    ops = []
    order = list(range(1, nm + 1))
    r.shuffle(order)
    for k in order:
        ops.append(dict(hsmgen.mkop("init"), m=k))
    n = r.randint(*f["ops"])
    gone = set()
    while len(ops) < n:
        k = r.randint(1, nm)
        if r.random() < f["rel"] / n:
            ops.append(dict(hsmgen.mkop(r.choice(["rel", "del", "rel"])), m=k))
            continue
        o = hsmgen.rnd_op(r, ms[k - 1])
        o = shifted(o, k - 1)
        if o["op"] == "ts" and r.random() < 0.1:
            o["args"][1] = 0
        o["m"] = k
        if o["op"] in ("fire", "d"):
            o["m"] = 0
        ops.append(o)
        if o["op"] in ("t", "tc", "irq", "fire") and r.random() < ms[k - 1].f["deliver"]:
            ops += [dict(hsmgen.mkop("d"), m=0)] * r.choice([1, 1, 2, 3])
    if r.random() < 0.3:
        ops += [dict(hsmgen.mkop("isup"), m=k) for k in range(1, nm + 1)]
    ops += [dict(hsmgen.mkop("d"), m=0)] * r.randint(6, 14)
    return ms, ops, cap


def shifted(o, k):
    o = dict(o)
    if o["op"] in ("ts", "tp", "tr"):
        o["args"] = [o["args"][0] + 10 * k] + o["args"][1:]
    elif o["op"] == "fire":
        o["e"] += 10 * k
    return o


def encode(rid, x):
    ms, ops, cap = x
    return hsmgen.enc_run(rid, ms, ops, disp=1)


def observed(o, res, j):
    y = dict(o)
    obs = res["obs"].get(j, [])
    y["obs"] = [dict(m=b["m"], k=b["k"], s=b["s"], args=b["args"], act=b["act"]) for b in obs if b["k"] != "tms"]
    t = [b["args"] for b in obs if b["k"] == "tms"]
    t = t[0] if t else []
    y["tms"] = [dict(id=t[n], iv=t[n + 1], ss=t[n + 2]) for n in range(0, len(t) - 2, 3)]
    if len(t) % 3:
        y["tms"].append(dict(id=-1, iv=0, ss=0))
    if o["op"] == "d":
        y["had"] = res["had"].get(j, -1)
    return y


def to_tla(rid, x, res):
    ms, ops, cap = x
    out = [observed(o, res, j) for j, o in enumerate(ops, 1)]
    return dict(id=rid, ms=[hsmgen.tla_machine(m) for m in ms], envs=[m.env for m in ms], cap=cap, ops=out)


def refresh(run, res):
    """The stored run with what was observed on the current tree."""
    run = dict(run, ops=[observed(o, res, j) for j, o in enumerate(run["ops"], 1)])
    return run


HARNESS = ["hsm_run.cpp"]
SPEC = "HsmMulti"
COUNT = dict(quick=600, thorough=10000)
ASSUME = "2-3 machines, scripts of up to ~60 operations, sampled by VERIF_SEED; one thread drives dispatcher and clients"
