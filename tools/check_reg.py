"""Registration: machines are described to the engine in random order, mixed with calls that have to be refused (and ones
that are odd but fine). TLC folds the calls (HsmReg), compares what they returned, and validates the behaviour of the
resulting machine against Hsm.tla."""
import hsmgen
from check_seq import SPEC, HARNESS

PRESETS = {
    "C26": [dict(p_comp=0.6, depth=4, where=0.0, extra=6), dict(p_comp=0.5, cond=0.5, par_entry=0.6, entry_ev=0.3, where=0.3, extra=4),
            dict(hist=0.3, final=0.3, acts=0.3, where=0.0, extra=5, timers=1), dict(p_comp=0.7, depth=5, nmax=14, where=0.6, extra=8)],
    "C09": [dict(acts=0.6, where=0.0, extra=1, badacts=6, timers=1)],
}
COUNT = dict(quick=900, thorough=15000)
BATCH = 450
ASSUME = "up to 14 states; up to 8 registrations of substates and entry points between arbitrary states mixed in"


def extra_cmd(r, m, m_init):
    p, c = r.choice(m.plain), r.choice(m.plain)
    if r.random() < 0.25:                      # an ancestor as substate
        anc = [x for x in m.plain if hsmgen.is_sub(m.parent, x, p)]
        c = r.choice(anc) if anc else c
    elif r.random() < 0.3:                     # a further entry point
        kids = [x for x in m.plain if m.parent[x]]
        if kids:
            c = r.choice(kids)
            p = m.parent[c]
    if c == m_init and p != c and not hsmgen.is_sub(m.parent, c, p):
        return None
    if r.random() < 0.5:
        return ("sub", 1, [p, c])
    cond = r.randint(1, m.nc) if m.nc and r.random() < 0.4 else 0
    return ("entry", 1, [p, c, r.choice([0, 0, r.randint(1, m.ne)]), cond, r.randint(0, 1)])


def bad_act(r, m):
    a = r.randint(0, 3)
    good = {0: "iib", 1: "i", 2: "i", 3: "e"}[a]
    kinds = list(good)
    for _ in range(r.randint(0, 2)):
        w = r.random()
        if w < 0.35 and kinds:
            kinds.pop(r.randrange(len(kinds)))
        elif w < 0.65 and len(kinds) < 4:
            kinds.insert(r.randint(0, len(kinds)), r.choice("iulsb"))
        elif kinds:
            kinds[r.randrange(len(kinds))] = r.choice("iulsbd")
    ids = [t["id"] for t in m.tm] or [3]
    v = []
    kinds = kinds[:1] + ["i" if k == "e" else k for k in kinds[1:]]
    for n, k in enumerate(kinds):
        if a == 3 and n == 0:
            v.append(r.randint(1, m.ne))
            kinds[0] = "e" if k in "iuld" else k
        elif n == 0:
            v.append(r.choice(ids))
        elif k == "b":
            v.append(r.randint(0, 1))
        else:
            v.append(r.randint(1, 300) if a == 0 else r.randint(0, 3))
    return ("act", 1, [r.choice(m.plain), r.randint(0, 1), a] + v, "".join(kinds))


def gen(r, feat):
    m = hsmgen.gen_machine(r, feat)
    f = m.f
    cmds = hsmgen.commands(m)
    r.shuffle(cmds)
    order = {}                                  # number of the transition -> place in the order of registration
    for k in range(len(cmds)):
        c = cmds[k]
        if c[0] in ("trans", "self"):
            order[c[2][6]] = len(order) + 1
            cmds[k] = (c[0], c[1], c[2][:6] + [order[c[2][6]]]) + c[3:]
    for x in m.react:
        if x["k"] == "tr":
            x["s"] = order[x["s"]]
    for _ in range(r.randint(1, f["extra"])):
        c = extra_cmd(r, m, m.init)
        if c:
            cmds.insert(r.randint(0, len(cmds)) if r.random() < f["where"] else len(cmds), c)
    for _ in range(r.randint(0, f.get("badacts", 1))):
        cmds.insert(r.randint(0, len(cmds)), bad_act(r, m))
    return m, hsmgen.gen_script(r, m), cmds


def encode(rid, x):
    return hsmgen.enc_run(rid, [x[0]], x[1], cmds=x[2])


def tla_cmds(cmds, reg):
    return [dict(c=c[0], v=c[2], kinds=list(c[3]) if len(c) > 3 else [], res=reg[k]) for k, c in enumerate(cmds)]


def to_tla(rid, x, res):
    return dict(hsmgen.tla_run(rid, x[0], x[1], res), cmds=tla_cmds(x[2], res["reg"]))


def refresh(run, res):
    from check_seq import refresh as rf
    return dict(rf(run, res), cmds=[dict(c, res=res["reg"][k]) for k, c in enumerate(run["cmds"])])
