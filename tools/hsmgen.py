"""Random state machines and scripts, their encoding for the harness and for TLA+."""
import random

MAXARGS = 2
DEFAULT = dict(nmin=3, nmax=9, depth=3, p_comp=0.45, ne=5, cond=0.3, par_entry=0.3, entry_ev=0.15, hist=0.0, final=0.0, acts=0.0, selfs=0.15,
               react=0.0, block=0.0, free=0.0, cb=0.85, fcb=0.7, ops=(12, 26), w=dict(t=10, d=12, tc=0, p=0, irq=0, env=2, fire=0),
               par_tr=0.15, args=0.5, timers=0, ids=0.3, hist_w=3, late_init=0.05, deliver=0.6)


def rnd_args(r, f):
    return [r.randint(0, 3) for _ in range(r.randint(1, MAXARGS))] if r.random() < f["args"] else []


class Machine:
    pass


def gen_machine(r, feat):
    f = dict(DEFAULT)
    f.update(feat)
    m = Machine()
    m.f = f
    m.ne = r.randint(2, f["ne"])
    nc = 3 if f["cond"] else 0
    m.nc = nc
    m.ca = [r.random() < 0.3 for _ in range(nc)]
    target = r.randint(f["nmin"], f["nmax"])
    parent = [0]          # 1-based
    level = [0]
    kids = {0: []}

    def add(p):
        parent.append(p)
        level.append(0 if p == 0 else level[p] + 1)
        s = len(parent) - 1
        kids[s] = []
        kids[p].append(s)
        return s

    for _ in range(r.randint(2, 3)):
        add(0)
    while len(parent) - 1 < target:
        cands = [s for s in range(1, len(parent)) if level[s] + 1 < f["depth"]]
        comp = [s for s in cands if kids[s]]
        if cands and r.random() < f["p_comp"]:
            add(r.choice(cands))
        elif comp and r.random() < 0.7:
            add(r.choice(comp))
        elif r.random() < 0.4:
            add(0)
        elif cands:
            add(r.choice(cands))
    plain = list(range(1, len(parent)))
    comps = [s for s in plain if kids[s]]
    m.fin = [0] + [-1] * len(plain)
    # final states: leaves with a parent (rarely top-level ones)
    for s in plain:
        if not kids[s] and r.random() < f["final"] and (parent[s] or r.random() < 0.2) and s != 1:
            sib = [x for x in kids[parent[s]] if m.fin[x] == -1 and x != s]
            if sib:
                m.fin[s] = r.choice([0, r.randint(1, m.ne), r.randint(1, m.ne)])
    # history states
    m.ht = [0] * len(parent)
    m.hdef = [0] * len(parent)
    m.hpar = [0] * len(parent)
    m.hcb = [False] * len(parent)
    hists = []
    for c in comps:
        for _ in range(2):
            if r.random() < f["hist"]:
                parent.append(0)
                level.append(0)
                h = len(parent) - 1
                kids[h] = []
                hists.append(h)
                m.fin.append(-1)
                m.ht.append(r.choice([1, 2, 2]))
                desc = [x for x in plain if x != c and is_sub(parent, c, x)]
                dd = [x for x in kids[c] if m.fin[x] == -1]
                m.hdef.append(r.choice(dd) if dd and r.random() < 0.6 else 0)
                m.hpar.append(c)
                m.hcb.append(r.random() < 0.7)
    n = len(parent) - 1
    m.n, m.parent, m.level, m.kids = n, parent, level, kids
    m.plain, m.comps, m.hists = plain, comps, hists

    def cond(p):
        if nc and r.random() < p:
            return r.randint(1, nc), r.random() < 0.65
        return 0, True

    m.entries = [[] for _ in range(n + 1)]
    for c in comps:
        ch = [x for x in kids[c]]
        nf = [x for x in ch if m.fin[x] == -1] or ch
        k = 1
        while r.random() < f["par_entry"] and k < len(nf):
            k += 1
        chosen = r.sample(nf, k)
        for x in chosen:
            cc, cx = cond(f["cond"] * 0.6)
            ev = r.randint(1, m.ne) if r.random() < f["entry_ev"] else 0
            m.entries[c].append(dict(to=x, ev=ev, c=cc, x=cx))
            if r.random() < 0.15 and (cc or ev):     # a second condition for the same substate
                c2, x2 = cond(0.8)
                m.entries[c].append(dict(to=x, ev=r.randint(1, m.ne) if r.random() < f["entry_ev"] * 2 else 0, c=c2, x=x2))
        if f["cond"] and r.random() < 0.3:
            extra = [x for x in nf if x not in chosen]
            if extra:
                cc, cx = cond(1.0)
                m.entries[c].append(dict(to=extra[0], ev=0, c=cc, x=cx))
    # initial state: mostly one with substates
    tops = [s for s in kids[0] if m.fin[s] == -1]
    ctops = [s for s in tops if kids[s]]
    m.init = r.choice(ctops) if ctops and r.random() < 0.5 else r.choice(tops)
    # transitions
    m.trans = []

    def addt(s, t, e, internal=False):
        c, x = cond(f["cond"])
        m.trans.append(dict(f=s, e=e, t=t, int=internal, c=c, x=x, cb=r.random() < f["cb"]))

    for s in plain:
        if m.fin[s] != -1:
            continue
        sib = [x for x in kids[parent[s]] if x != s]
        hsib = [h for h in hists if parent[m.hpar[h]] == parent[s] and (m.hpar[h] != s or r.random() < 0.3)]
        for _ in range(r.choice([0, 1, 1, 2, 2, 3])):
            e = r.randint(1, m.ne)
            if hsib and r.random() < 0.15 * f["hist_w"]:
                addt(s, r.choice(hsib), e)
            elif r.random() < f["selfs"]:
                addt(s, s, e, r.random() < 0.5)
            elif r.random() < f["free"]:
                addt(s, r.choice(plain + hists), e)
            elif sib:
                fs = [x for x in sib if m.fin[x] != -1]
                t = r.choice(fs) if fs and r.random() < 0.35 else r.choice(sib)
                addt(s, t, e)
                if r.random() < f["par_tr"] and len(sib) > 1:
                    addt(s, r.choice([x for x in sib if x != t]), e)
    # final states are useless if the parent can't react
    for s in plain:
        if m.fin[s] > 0 and parent[s] and r.random() < 0.7:
            p = parent[s]
            sib = [x for x in kids[parent[p]] if x != p]
            if sib and m.fin[p] == -1:
                addt(p, r.choice(sib), m.fin[s])
    m.cbs = [None]
    for s in range(1, n + 1):
        q = f["cb"] if s in plain else 0.25
        m.cbs.append(dict(en=r.random() < q, ex=r.random() < q, st=r.random() < q))
    m.acts = []
    m.tm = []
    if f["timers"] or f["acts"]:
        ids = r.sample(range(1, 9), 3)
        for i in ids[:2]:
            m.tm.append(dict(id=i, e=r.randint(1, m.ne)))
        for s in plain:
            while r.random() < f["acts"]:
                tr = r.choice(["en", "ex"])
                k = r.choice(["start", "stop", "restart", "post", "post"])
                if k == "start":
                    a = [r.choice(ids), r.randint(1, 500), r.randint(0, 1)]
                elif k == "post":
                    a = [r.randint(1, m.ne)] + rnd_args(r, f)
                else:
                    a = [r.choice(ids)]
                m.acts.append(dict(s=s, tr=tr, a=k, args=a))
    m.fcb = r.random() < f["fcb"]
    m.cap = r.randint(1, 4)
    # ids used with the C++ API
    pool = list(range(0, 40))
    if r.random() < f["ids"]:
        pool = [-1, 0, -5, 2147483647, -2147483648, 1000, -999, 77] + list(range(1, 30))
    r.shuffle(pool)
    if r.random() < 0.5:
        m.ids = list(range(0, n))
    else:
        m.ids = pool[:n]
    pool2 = list(pool)
    r.shuffle(pool2)
    m.evs = pool2[:m.ne]
    m.react = []
    if r.random() < f["react"]:
        for _ in range(r.randint(1, 4)):
            k = r.choice(["en", "ex", "st", "st", "tr", "tr", "fl", "hd"])
            if k == "tr":
                if not m.trans:
                    continue
                s = r.randint(1, len(m.trans))
            elif k == "fl":
                s = r.randint(1, m.ne)
            elif k == "hd":
                if not hists:
                    continue
                s = r.choice(hists)
            else:
                s = r.choice(plain)
            m.react.append(dict(k=k, s=s, n=r.randint(1, 2), ops=[rnd_op(r, m, inside=True) for _ in range(r.randint(1, 2))]))
    m.env = rnd_env(r, m, start=True)
    return m


def is_sub(parent, p, c):
    while parent[c]:
        c = parent[c]
        if c == p:
            return True
    return False


def rnd_env(r, m, start=False):
    f = m.f
    b = 0.0 if start and r.random() < 0.5 else f["block"]
    if r.random() < 0.5:
        b = 0.0
    return dict(cond=[r.random() < 0.6 for _ in range(m.nc)], bx=[r.random() < b for _ in range(m.n)], be=[r.random() < b for _ in range(m.n)])


def mkop(op, e=0, args=(), tag=0, env=None):
    o = dict(op=op, e=e, tag=tag, args=list(args))
    if op == "env":
        o["env"] = env
    return o


def rnd_event(r, m):
    return r.choice(m.trans)["e"] if m.trans and r.random() < 0.7 else r.randint(1, m.ne)


def rnd_op(r, m, inside=False):
    f = m.f
    w = dict(f["w"])
    if inside:
        w["d"] = 0
        w["fire"] = 0
        w["env"] = w["env"] * 0.5
    ks = [k for k in w if w[k] > 0]
    k = r.choices(ks, [w[x] for x in ks])[0]
    if k in ("t", "tc", "p"):
        return mkop(k, rnd_event(r, m), rnd_args(r, f))
    if k == "irq":
        return mkop(k, rnd_event(r, m))
    if k == "env":
        return mkop("env", env=rnd_env(r, m))
    if k == "fire":
        return mkop("fire", r.choice(m.tm)["id"] if m.tm and r.random() < 0.8 else r.randint(1, 9))
    if k == "ts":
        return mkop("ts", 0, [r.randint(1, 9), r.randint(1, 500), r.randint(0, 1)])
    if k in ("tp", "tr"):
        return mkop(k, 0, [r.randint(1, 9)])
    return mkop(k)


def gen_script(r, m):
    f = m.f
    ops = []
    if r.random() < f["late_init"]:
        ops.append(mkop("t", 1))
        ops.append(mkop("p", 1))
        ops.append(mkop("isup"))
    ops.append(mkop("init"))
    if r.random() < f["late_init"]:
        ops.append(mkop("init"))
        ops.append(mkop("isup"))
    n = r.randint(*f["ops"])
    while len(ops) < n:
        o = rnd_op(r, m)
        ops.append(o)
        # mostly let the dispatcher work after a post, so that the machine moves
        if o["op"] in ("t", "tc", "irq", "fire") and r.random() < f["deliver"]:
            ops += [mkop("d")] * r.choice([1, 1, 2, 3])
    ops += [mkop("d")] * r.randint(4, 10)
    return ops


# ----------------------------------------------------------------------------------------------------- encodings
def commands(m, k=1, order=None):
    """Registration commands (for the harness), machine number k."""
    c = []
    for s in range(1, m.n + 1):
        cb = m.cbs[s]
        if s in m.plain or cb["en"] or cb["ex"] or cb["st"]:
            if m.fin[s] != -1:
                c.append(("final", [s, m.fin[s], int(cb["en"]), int(cb["ex"]), int(cb["st"])]))
            elif cb["en"] or cb["ex"] or cb["st"] or s % 2:
                c.append(("state", [s, int(cb["en"]), int(cb["ex"]), int(cb["st"])]))
    for s in m.plain:
        for en in m.entries[s]:
            c.append(("entry", [s, en["to"], en["ev"], en["c"], int(en["x"])]))
        for x in m.kids[s]:
            if not any(en["to"] == x for en in m.entries[s]):
                c.append(("sub", [s, x]))
    for h in m.hists:
        c.append(("hist", [m.hpar[h], h, m.ht[h], m.hdef[h], int(m.hcb[h])]))
    for i, t in enumerate(m.trans):
        if t["f"] == t["t"]:
            c.append(("self", [t["f"], t["e"], int(t["int"]), t["c"], int(t["x"]), int(t["cb"]), i + 1]))
        else:
            c.append(("trans", [t["f"], t["e"], t["t"], t["c"], int(t["x"]), int(t["cb"]), i + 1]))
    code = dict(start=0, stop=1, restart=2, post=3)
    for a in m.acts:
        kinds = {"start": "iib", "stop": "i", "restart": "i", "post": "e" + "i" * (len(a["args"]) - 1)}[a["a"]]
        c.append(("act", [a["s"], int(a["tr"] == "ex"), code[a["a"]]] + a["args"], kinds))
    for t in m.tm:
        c.append(("timer", [t["id"], t["e"]]))
    return [(x[0], k, x[1]) + tuple(x[2:]) for x in c]


def iv(v):
    return "%d %s" % (len(v), " ".join(str(int(x)) for x in v)) if v else "0"


def enc_op(o, k):
    mm = o.get("m", k)
    if o["op"] == "env":
        e = o["env"]
        return "env %d %s %s %s" % (mm, iv(e["cond"]), iv(e["bx"]), iv(e["be"]))
    return "%s %d %d %d %s" % (o["op"], mm, o["e"], o["tag"], iv(o["args"]))


def enc_run(rid, machines, ops, disp=0, log="-", cmds=None):
    o = ["RUN", str(rid), str(disp), log, str(len(machines))]
    for k, m in enumerate(machines, 1):
        o += [str(m.n), str(m.ne), str(m.init), str(int(m.fcb)), str(m.cap), iv(m.ids), iv(m.evs), iv(m.ca),
              iv(m.env["cond"]), iv(m.env["bx"]), iv(m.env["be"]), str(len(m.react))]
        for re in m.react:
            o += [re["k"], str(re["s"]), str(re["n"]), str(len(re["ops"]))] + [enc_op(x, k) for x in re["ops"]]
    if cmds is None:
        cmds = []
        for k, m in enumerate(machines, 1):
            cmds += commands(m, k)
    o.append(str(len(cmds)))
    for c in cmds:
        if c[0] == "act":
            o.append("act %d %s %s" % (c[1], c[3] or "-", iv(c[2])))
        else:
            o.append("%s %d %s" % (c[0], c[1], iv(c[2])))
    o.append(str(len(ops)))
    o += [enc_op(x, 1) for x in ops]
    return "\n".join(o) + "\n"


def tla_machine(m):
    return dict(n=m.n, init=m.init, cap=m.cap, fcb=m.fcb, parent=m.parent[1:], entries=m.entries[1:], trans=m.trans, fin=m.fin[1:],
                ht=m.ht[1:], hdef=m.hdef[1:], hpar=m.hpar[1:], hcb=m.hcb[1:], acts=m.acts, cb=m.cbs[1:], tm=m.tm, ca=m.ca, react=m.react)


def parse_out(text):
    """Harness output -> {run id: dict(end, ops: {op: [obs]}, had: {op: 0/1}, reg: [..], log: {op: size}, order)}"""
    runs, cur = {}, None
    for l in text.split("\n"):
        t = l.split()
        if not t:
            continue
        if t[0] == "RUN":
            cur = dict(end=None, obs={}, had={}, reg=[], log={})
            runs[int(t[1])] = cur
        elif t[0] == "O":
            na = int(t[5])
            args = [int(x) for x in t[6:6 + na]]
            act = [int(x) for x in t[7 + na:]]
            cur["obs"].setdefault(int(t[1]), []).append(dict(m=int(t[2]), k=t[3], s=int(t[4]), args=args, act=act))
        elif t[0] == "T":
            cur["had"][int(t[1])] = int(t[2])
        elif t[0] == "R":
            cur["reg"].append(int(t[1]))
        elif t[0] == "G":
            cur["log"][int(t[1])] = int(t[2])
        elif t[0] == "END":
            cur["end"] = int(t[1])
    return runs


def tla_run(rid, m, ops, res, k=1):
    """One recorded run as seen by machine k."""
    out = []
    for j, o in enumerate(ops, 1):
        x = dict(o)
        x["obs"] = [dict(k=b["k"], s=b["s"], args=b["args"], act=b["act"]) for b in res["obs"].get(j, []) if b["m"] == k or b["m"] == 0]
        if o["op"] == "d":
            x["had"] = res["had"].get(j, -1)
        out.append(x)
    return dict(id=rid, m=tla_machine(m), env=m.env, ops=out)
