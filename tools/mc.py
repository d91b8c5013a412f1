"""Exhaustive exploration of Hsm.tla on small machines (HsmMC): the declarative properties hold for the specification."""
import json, os, random
import hsmgen, lib


def wellformed(m):
    for t in m.trans:
        p = m.parent[t["f"]]
        if t["f"] == t["t"]:
            continue
        if m.ht[t["t"]]:
            h = m.hpar[t["t"]]
            if m.parent[h] != p:
                return False
        elif m.parent[t["t"]] != p:
            return False
    return True


def machine(r, feat):
    f = dict(feat)
    f.update(nmin=3, nmax=min(6, f.get("nmax", 6)), ne=3, react=0.0)
    if f.get("depth", 3) > 3:
        f["depth"] = 3
    m = hsmgen.gen_machine(r, f)
    envs = [dict(cond=[True] * m.nc, bx=[False] * m.n, be=[False] * m.n)]
    if m.nc:
        envs.append(dict(cond=[r.random() < 0.5 for _ in range(m.nc)], bx=[False] * m.n, be=[False] * m.n))
    if f.get("block"):
        for _ in range(2):
            e = dict(cond=[True] * m.nc, bx=[False] * m.n, be=[False] * m.n)
            e[r.choice(["bx", "be"])][r.randrange(m.n)] = True
            envs.append(e)
    return dict(m=hsmgen.tla_machine(m), envs=envs, wf=wellformed(m), ne=m.ne, maxq=2)


def explore(c, prop, presets, n):
    """n machines, the same on every run in the quick tier: this checks the specification, not the code."""
    f = os.path.join(c.dir, "machines.ndjson")
    r = random.Random("mc-%s-%s" % (prop, lib.SEED if lib.TIER == "thorough" else 0))
    with open(f, "w") as fh:
        for k in range(n):
            fh.write(json.dumps(machine(r, presets[k % len(presets)])) + "\n")
    x = lib.tlc("HsmMC", env=dict(MACHINES=f), work=c.dir, heap="8g")
    if not x["ok"]:
        raise lib.CheckError("the specification violates %s:\n%s" % (x["violated"], x["out"][-12000:]))
    c.cov["mc_machines"], c.cov["mc_states"], c.cov["mc_transitions"] = n, x["distinct"], x["states"]
