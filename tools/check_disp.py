"""The dispatcher itself: handlers, interrupt-safe events, actions, timers and stopping from several threads, under a
scheduler which controls every interleaving; every recorded execution is validated by TLC against DispConc."""

W0 = dict(reg=1, unreg=1, em=10, enq=0, act=0, ts=0, tp=0, tr=0, tq=0, start=0, stop=0, sleep=3)
PRESETS = {
    "C16": [dict(w=dict(W0, enq=14, em=2), kinds=("enq", "enq", "ev"), inv=0.3), dict(w=dict(W0, enq=16, em=3, unreg=2), kinds=("enq", "ev"), react=0.8)],
    "C17": [dict(w=dict(W0, em=14, unreg=2, reg=2), kinds=("ev", "ev", "ev"), inv=0.4), dict(w=dict(W0, em=10, enq=6, unreg=3, reg=3), kinds=("ev", "enq"), react=0.9, inv=0.3),
            dict(w=dict(W0, em=12, act=4, unreg=2, start=1), kinds=("ev", "ev", "tm"), react=0.6, stop=0.5), dict(w=dict(W0, em=8, enq=6, act=3, unreg=2), kinds=("ev", "enq"), inv=0.6, hsleep=0.4, restart=0.3)],
    "C18": [dict(w=dict(W0, em=2, unreg=0, ts=8, tp=4, tr=4, tq=4, sleep=8), kinds=("tm", "ev"), nt=2), dict(w=dict(W0, em=1, unreg=1, ts=8, tp=3, tr=6, tq=4, sleep=10), kinds=("tm", "tm"), nt=3, react=0.6)],
    "C19": [dict(w=dict(W0, em=4, ts=8, tp=4, tr=4, tq=4, unreg=1, sleep=5), kinds=("tm", "ev", "tm"), nt=3, react=0.8, nth=(2, 4)),
            dict(w=dict(W0, em=4, ts=8, tp=4, tr=3, tq=2, unreg=1, sleep=5), kinds=("tm", "ev"), nt=2, react=0.5, stop=1.0, nth=(2, 3)),
            dict(w=dict(W0, em=4, enq=3, act=3, ts=8, tp=2, tr=4, unreg=1, sleep=5), kinds=("tm", "ev", "enq"), nt=2, react=0.6, hsleep=0.6)],
    "C25": [dict(w=dict(W0, act=14, em=3, sleep=6), kinds=("ev",), react=0.8), dict(w=dict(W0, act=12, em=3, ts=3, enq=3), kinds=("ev", "tm", "enq"), react=0.9, nt=1, hsleep=0.3),
            dict(w=dict(W0, act=14, em=2, start=1), kinds=("ev",), react=0.5, stop=0.5)],
}
PRESETS["C24"] = [PRESETS["C17"][2], PRESETS["C17"][3], PRESETS["C25"][2], dict(w=dict(W0, em=6, act=3, enq=3, ts=4, start=2, stop=2), kinds=("ev", "enq", "tm"), nt=2, react=0.4, restart=0.7)]


def op(r, f, slots, acts):
    kinds = [k for k in f["w"] if f["w"][k] > 0]
    while True:
        k = r.choices(kinds, [f["w"][x] for x in kinds])[0]
        of = lambda kind: [s for s, x in enumerate(slots, 1) if x == kind]
        if k in ("reg", "unreg"):
            return (k, r.randint(1, len(slots)), [])
        if k == "em" and of("ev"):
            return (k, r.choice(of("ev")), [])
        if k == "enq" and of("enq"):
            return (k, r.choice(of("enq")), [r.randint(1, 3)])
        if k == "act":
            acts[0] += 1
            return (k, 0, [acts[0]])
        if k == "ts" and of("tm"):
            return (k, r.choice(of("tm")), [r.randint(1, f["nt"]), r.choice([10, 20, 30, 50, 70, 100]), r.randint(0, 1)])
        if k in ("tp", "tr", "tq"):
            return (k, 0, [r.randint(1, f["nt"])])
        if k in ("start", "stop"):
            return (k, 0, [])
        if k == "sleep":
            return (k, 0, [r.choice([1, 5, 10, 20, 30, 50, 60, 100])])


def gen(r, feat):
    f = dict(w=W0, kinds=("ev",), nth=(1, 3), nops=(3, 9), inv=0.0, react=0.3, hsleep=0.0, stop=0.0, restart=0.0, nt=1, loop=0)
    f.update(feat)
    slots = []
    for k in f["kinds"]:
        slots += [k] * r.randint(1, 2)
    late = [r.choice(f["kinds"]) for _ in range(r.randint(0, 3))]
    pre = len(slots)
    slots += late
    acts = [0]
    th = {0: [("start", 0, [])] + [("reg", s, []) for s in range(1, pre + 1)], 99: []}
    if r.random() < 0.3:
        r.shuffle(th[0])
    for t in range(1, r.randint(*f["nth"]) + 1):
        th[t] = [op(r, f, slots, acts) for _ in range(r.randint(*f["nops"]))]
    reacts, seen = [], set()

    def inner():
        ops = [x for x in (op(r, f, slots, acts) for _ in range(r.randint(1, 2))) if x[0] != "sleep"]
        if r.random() < f["hsleep"]:
            ops.append(("sleep", 0, [r.choice([10, 50, 120])]))
        return ops

    def add(act, s, n, valid, ops):
        if (act, s, n) not in seen:
            seen.add((act, s, n))
            reacts.append((act, s, n, valid, ops))

    for s in range(1, len(slots) + 1):
        if r.random() < f["inv"]:
            add(0, s, r.randint(1, 3), 0, inner() if r.random() < f["react"] else [])
        while r.random() < f["react"] * 0.6:
            add(0, s, r.randint(1, 4), 1, inner())
        if r.random() < f["hsleep"]:
            add(0, s, 1, r.randint(0, 1), [("sleep", 0, [r.choice([10, 50, 120])])])
    for a in range(1, min(acts[0], 8) + 1):
        if r.random() < f["react"] * 0.4:
            add(1, a, 1, 1, inner())
    end = [("sleep", 0, [r.choice([200, 300])])]
    if r.random() < f["stop"]:
        if r.random() < 0.5:
            t = r.choice([x for x in th if x not in (0, 99)])
            th[t].insert(r.randint(0, len(th[t])), ("stop", 0, []))
        elif reacts:
            r.choice(reacts)[4].append(("stop", 0, []))
    join = [] if f["loop"] else [("join", 0, [])]
    end += [("stop", 0, [])] + join
    if r.random() < f["restart"] and "tm" not in slots:
        end.append(("start", 0, []))
        for k in ("ev", "enq"):
            slots.append(k)
            end.append(("reg", len(slots), []))
            end += [("em" if k == "ev" else "enq", len(slots), [] if k == "ev" else [1])] * r.randint(1, 2)
        acts[0] += 1
        end += [("act", 0, [acts[0]]), ("sleep", 0, [200]), ("stop", 0, [])] + join
    th[99] = end
    mode = r.choice([0, 1, 1, 2, 2, 2])
    length = int(10 ** r.uniform(2.0, 4.0))
    cfg = "%d:%d:%d:%d:%d:%d:%d" % (r.randint(1, 10 ** 9), mode, r.choice([5, 20, 60, 200]), r.choice([1, 2, 3, 5]), length,
                                    r.choice([0, 0, 2, 10]) if mode != 2 else 0, r.choice([0, 0, 0, 5]))
    return dict(loop=f["loop"], slots=slots, cap=r.choice([1, 2, 3, 8]), th=th, reacts=reacts, cfg=cfg)


def enc_ops(ops):
    return " ".join([str(len(ops))] + ["%s %d %d %s" % (o, s, len(a), " ".join(map(str, a))) for o, s, a in ops])


def encode(rid, x):
    out = ["RUN %d %d %s %d %s" % (rid, x["cap"], x["cfg"], len(x["slots"]), " ".join(x["slots"])), str(len(x["reacts"]))]
    for act, s, n, v, ops in x["reacts"]:
        out.append("%d %d %d %d %s" % (act, s, n, v, enc_ops(ops)))
    out.append(str(len(x["th"])))
    for t in sorted(x["th"]):
        out.append("%d %s" % (t, enc_ops(x["th"][t])))
    return "\n".join(out) + "\n"


def parse(text):
    res, cur = {}, None
    for l in text.split("\n"):
        t = l.split()
        if not t:
            continue
        c = t[0]
        if c == "RUN":
            cur = dict(end=None, tr=[], obs={}, points=0, why=None)
            res[int(t[1])] = cur
        elif c == "C":
            cur["tr"].append(dict(l="call", t=int(t[1]), op=t[2], s=int(t[3]), a=[int(x) for x in t[5:]]))
        elif c == "R":
            cur["tr"].append(dict(l="ret", t=int(t[1]), v=int(t[2])))
        elif c == "H":
            cur["tr"].append(dict(l="run", t=int(t[1]), k=t[2], s=int(t[3]), x=int(t[4])))
        elif c == "Z":
            cur["tr"].append(dict(l="end", t=int(t[1]), k=t[2], v=int(t[3])))
        elif c == "I":
            cur["tr"].append(dict(l="idle", now=int(t[1])))
        elif c == "T":
            cur["tr"].append(dict(l="time", now=int(t[1])))
        elif c == "P":
            cur["points"] = int(t[1])
        elif c == "X":
            cur["why"] = l
        elif c == "END":
            cur["end"] = int(t[1])
    for v in res.values():
        v["obs"] = {1: [dict(k=x.get("k") or x.get("op"), s=x["s"]) for x in v["tr"] if x["l"] in ("run", "call")]}
    return res


def to_tla(rid, x, res):
    return dict(id=rid, loop=x["loop"], slots=len(x["slots"]), kinds=x["slots"], cap=x["cap"], tr=res["tr"], cfg=x["cfg"])


def refresh(run, res):
    return dict(run, tr=res["tr"])


HARNESS = ["disp_run.cpp", "sched.cpp"]
BUILD = dict(dispatchers=("Base", "STD"), only_repo_flags=["-fsanitize=thread"], libs=["-rdynamic"])
SPEC = "DispConc"
COUNT = dict(quick=500, thorough=8000)
ASSUME = "1-4 client threads with up to 9 operations each on the std-thread dispatcher; schedules sampled (random and priority-based) by VERIF_SEED"
