"""Concurrency: client threads, timers and interrupts against real machines on the std-thread dispatcher (C24: also GLib,
GLibmm and Qt), under a scheduler which controls every interleaving; every recorded execution is validated by TLC against HsmConc."""
import hsmgen

W0 = dict(t=10, tc=0, s=0, sc=0, irq=0, ts=0, tp=0, tr=0, tq=0, sleep=3)
M0 = dict(nmin=3, nmax=6, ne=3, cond=0.15, cb=1.0, fcb=0.9, args=0.4, ids=0.2, par_tr=0.1, react=0.0)
PRESETS = {
    "C12": [dict(w=dict(W0, s=12, t=4), hist=0.5, par_entry=0.5, block=0.1), dict(w=dict(W0, s=10, sc=3, tc=3, t=6), par_entry=0.4),
            dict(w=dict(W0, s=14, t=6), final=0.4, to=0.6), dict(w=dict(W0, s=8, sc=4, t=4), to=0.5, cbsleep=0.5, rel=0.4)],
    "C13": [dict(w=dict(W0, t=14, s=2), nth=(2, 3), react=0.6), dict(w=dict(W0, t=10, irq=6), react=0.5, hist=0.3), dict(w=dict(W0, t=10, ts=5), nt=2, react=0.4, final=0.3),
            dict(w=dict(W0, t=12), late=1, react=0.9, par_entry=0.5)],
    "C14": [dict(w=dict(W0, t=12, tc=6), hist=0.4, par_entry=0.6, react=0.3), dict(w=dict(W0, s=8, tc=5, sc=3, t=4), par_entry=0.5, hist=0.4)],
    "C15": [dict(w=dict(W0, t=10, s=5), rel=1.0, nm=2), dict(w=dict(W0, t=8, ts=8, tp=2), rel=1.0, acts=0.3, nt=2), dict(w=dict(W0, t=6, irq=8), rel=1.0, nm=2),
            dict(w=dict(W0, t=10, s=4), selfrel=1.0, hist=0.3, react=0.4)],
    "C16": [dict(w=dict(W0, irq=14, t=2, sleep=2), nth=(2, 3)), dict(w=dict(W0, irq=12, t=2), nm=2, react=0.4)],
    "C18": [dict(w=dict(W0, ts=8, tp=4, tr=4, tq=4, t=3, sleep=8), acts=0.4, nt=2), dict(w=dict(W0, ts=8, tp=4, tr=5, tq=4, t=1, sleep=10), nt=3, nm=2)],
}

LOOPS = {"GLib": 1, "GLibmm": 2, "Qt": 3}
BUILDS = {n: dict(dispatchers=("Base", n), only_repo_flags=["-fsanitize=thread"], libs=["-rdynamic"], harness_flags=["-DWHICH_LOOP=%d" % k]) for n, k in LOOPS.items()}
ANY = [dict(w=dict(W0, t=10, tc=2, s=4), nt=1, hist=0.4, par_entry=0.4, react=0.4, final=0.3), dict(w=dict(W0, t=6, ts=6, tp=2, tr=2, tq=2, irq=4, sleep=6), nt=2, nm=2, acts=0.3, react=0.3),
       dict(w=dict(W0, t=6, irq=4, ts=4, s=3), nt=1, nm=2, rel=0.6, late=1)]
PRESETS["C24"] = [dict(f, loop=LOOPS[n], exe=n) if n else f for f in ANY for n in (None, "GLib", "GLibmm", "Qt")]


def op(kind, r, m, f, tags):
    if kind in ("t", "tc", "s", "sc"):
        o = hsmgen.mkop(kind, hsmgen.rnd_event(r, m), hsmgen.rnd_args(r, m.f))
        if kind[0] == "s":
            tags[0] += 1
            o["tag"] = tags[0]
            o["args"] = [r.choice([1, 20, 60, 100, 150]) if r.random() < f["to"] else 0] + o["args"]
        return o
    if kind == "irq":
        return hsmgen.mkop("irq", hsmgen.rnd_event(r, m))
    if kind == "ts":
        return hsmgen.mkop("ts", 0, [r.choice(m.tids), r.choice([10, 20, 30, 50, 50, 70, 100, 130]), r.randint(0, 1)])
    if kind in ("tp", "tr", "tq"):
        return hsmgen.mkop(kind, 0, [r.choice(m.tids)])
    if kind == "sleep":
        return hsmgen.mkop("sleep", r.choice([1, 5, 10, 20, 30, 50, 60, 100]))
    return hsmgen.mkop(kind)


def gen(r, feat):
    f = dict(w=W0, nth=(1, 3), nops=(3, 8), nm=1, rel=0.0, selfrel=0.0, late=0, react=0.0, acts=0.0, nt=1, to=0.15, cbsleep=0.0, loop=0)
    f.update(feat)
    ms, tags = [], [0]
    nm = r.randint(1, f["nm"])
    cap = r.choice([1, 2, 3, 8])
    for k in range(nm):
        mf = dict(M0)
        mf.update({x: f[x] for x in ("hist", "final", "par_entry", "block") if x in f})
        mf["react"] = 0.0
        mf["fcb"] = 1.0
        m = hsmgen.gen_machine(r, mf)
        m.cap = cap
        m.loop = f["loop"]
        m.tids = [10 * k + n for n in range(1, f["nt"] + 1)]
        m.tm = [dict(id=i, e=r.randint(1, m.ne)) for i in m.tids if r.random() < 0.9]
        m.acts = []
        for s in m.plain:
            if r.random() < f["acts"]:
                a = r.choice(["start", "start", "stop", "restart"])
                m.acts.append(dict(s=s, tr=r.choice(["en", "ex"]), a=a, args=[r.choice(m.tids)] + ([r.choice([10, 30, 50]), r.randint(0, 1)] if a == "start" else [])))
        ms.append(m)
    big, bige = max(ms, key=lambda x: x.n), max(ms, key=lambda x: x.ne)
    for m in ms:
        m.ids, m.evs = big.ids[:m.n], bige.evs[:m.ne]
    kinds = [k for k in f["w"] if f["w"][k] > 0]
    weights = [f["w"][k] for k in kinds]

    def place(m):
        k = r.choice(["en", "ex", "st", "st", "tr", "tr", "fl"])
        if k == "tr" and not m.trans:
            k = "st"
        return k, r.randint(1, len(m.trans)) if k == "tr" else r.randint(1, m.ne) if k == "fl" else r.choice(m.plain)

    for k, m in enumerate(ms):
        m.react = []
        while r.random() < f["react"] and len(m.react) < 4:
            kk, s = place(m)
            to = r.randint(0, nm - 1)
            ops = []
            for _ in range(r.randint(1, 2)):
                o = op(r.choices([x for x in kinds if x not in ("s", "sc", "sleep")], [f["w"][x] for x in kinds if x not in ("s", "sc", "sleep")])[0], r, ms[to], f, tags)
                o["m"] = to + 1
                ops.append(o)
            m.react.append(dict(k=kk, s=s, n=r.randint(1, 3), ops=ops))
        if r.random() < f["cbsleep"]:
            kk, s = place(m)
            m.react.append(dict(k=kk, s=s, n=1, ops=[hsmgen.mkop("sleep", r.choice([10, 50, 120]))]))
        if r.random() < f["selfrel"]:
            kk, s = place(m)
            m.react.append(dict(k=kk, s=s, n=1, ops=[dict(hsmgen.mkop("rel"), m=k + 1)]))
    nth = r.randint(*f["nth"])
    threads = {}
    for t in range(1, nth + 1):
        ops = []
        for _ in range(r.randint(*f["nops"])):
            k = r.randint(1, nm)
            o = op(r.choices(kinds, weights)[0], r, ms[k - 1], f, tags)
            o["m"] = k
            ops.append(o)
        threads[t] = ops
    inits = [dict(hsmgen.mkop("init"), m=k) for k in range(1, nm + 1)]
    if f["late"] and r.random() < 0.6:
        threads[1] = inits + threads[1]
        threads[0] = []
    else:
        threads[0] = inits
    if r.random() < f["rel"] and nth > 0:
        t = r.randint(1, nth) if threads[0] else 1
        k = r.randint(1, nm)
        at = r.randint(nm if threads[0] == [] and t == 1 else 0, len(threads[t]))
        threads[t].insert(at, dict(hsmgen.mkop("rel"), m=k))
    threads[99] = [hsmgen.mkop("sleep", r.choice([200, 300, 400]))]
    if f["selfrel"] == 0 and r.random() < 0.5:
        for k in range(1, nm + 1):
            threads[99].append(dict(hsmgen.mkop("rel"), m=k))
        threads[99].append(hsmgen.mkop("sleep", 150))
    mode = r.choice([0, 1, 1, 2, 2, 2])
    length = int(10 ** r.uniform(2.0, 4.3))
    cfg = "%d:%d:%d:%d:%d:%d:%d" % (r.randint(1, 10 ** 9), mode, r.choice([5, 20, 60, 200]), r.choice([1, 2, 3, 5]), length,
                                    r.choice([0, 0, 2, 10]) if mode != 2 else 0, r.choice([0, 0, 0, 5]))
    return ms, threads, cfg


def encode(rid, x):
    ms, threads, cfg = x
    ops = []
    for t in sorted(threads):
        ops.append(hsmgen.mkop("thr", t))
        ops += [o if "m" in o else dict(o, m=1) for o in threads[t]]
    return hsmgen.enc_run(rid, ms, ops, disp=0, log=cfg)


def parse(text):
    res, cur = {}, None
    for l in text.split("\n"):
        t = l.split()
        if not t:
            continue
        c = t[0]
        if c == "RUN":
            cur = dict(end=None, tr=[], obs={}, points=0, why=None)
            res[int(t[1])] = cur
        elif c == "C":
            na = int(t[6])
            cur["tr"].append(dict(l="call", t=int(t[1]), m=int(t[2]), op=t[3], e=int(t[4]), tag=int(t[5]), args=[int(x) for x in t[7:7 + na]]))
        elif c == "R":
            cur["tr"].append(dict(l="ret", t=int(t[1]), v=int(t[2])))
        elif c == "B":
            na = int(t[5])
            cur["tr"].append(dict(l="cb", t=int(t[1]), m=int(t[2]), k=t[3], s=int(t[4]), args=[int(x) for x in t[6:6 + na]], act=[int(x) for x in t[7 + na:]]))
        elif c == "E":
            cur["tr"].append(dict(l="ce", t=int(t[1]), m=int(t[2])))
        elif c == "I":
            cur["tr"].append(dict(l="idle", now=int(t[1])))
        elif c == "T":
            cur["tr"].append(dict(l="time", now=int(t[1])))
        elif c == "P":
            cur["points"] = int(t[1])
        elif c == "X":
            cur["why"] = l
        elif c == "END":
            cur["end"] = int(t[1])
    for v in res.values():
        v["obs"] = {1: [dict(m=x.get("m", 0), k=x.get("k") or x.get("op"), s=x.get("s", 0)) for x in v["tr"] if x["l"] in ("cb", "call")]}
    return res


def to_tla(rid, x, res):
    ms, threads, cfg = x
    return dict(id=rid, ms=[dict(hsmgen.tla_machine(m), react=[]) for m in ms], envs=[m.env for m in ms], tr=res["tr"], cfg=cfg, loop=ms[0].loop)


def refresh(run, res):
    return dict(run, tr=res["tr"])


HARNESS = ["conc_run.cpp", "sched.cpp"]
BUILD = dict(dispatchers=("Base", "STD"), only_repo_flags=["-fsanitize=thread"], libs=["-rdynamic"])
SPEC = "HsmConc"
COUNT = dict(quick=400, thorough=8000)
BATCH = 250
ASSUME = "1-3 client threads with up to 8 operations each; schedules sampled (random and priority-based) by VERIF_SEED"
