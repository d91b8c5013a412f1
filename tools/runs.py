"""Common driver: generate runs, execute them on the real code, validate every recorded run with TLC."""
import importlib, json, multiprocessing, os, random, re, shutil, subprocess, sys
import lib, hsmgen

BATCH = 500


END = {14: "hang", 15: "no progress", 16: "endless loop or misuse of a mutex", 17: "memory misuse"}


def execute(exe, txt, parse=hsmgen.parse_out, timeout=700):
    p = subprocess.run([exe, "10"], input=txt, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout)
    return parse(p.stdout)


def validate(spec, lines, compare, work, workers=1):
    f = os.path.join(work, "runs.ndjson")
    with open(f, "w") as fh:
        for l in lines:
            fh.write(json.dumps(l) + "\n")
    return lib.tlc(spec, env=dict(RUNS=f, COMPARE=compare), workers=workers, work=work, heap="2g")


def failed_run(out):
    ids = re.findall(r"run \|-> (\d+)|/\\ run = (\d+)", out)
    return int([a or b for a, b in ids][-1]) if ids else None


def batch(job):
    modname, exe, work, seed, feat, n, compare = job
    mod = importlib.import_module(modname)
    spec, parse = mod.SPEC, getattr(mod, "parse", hsmgen.parse_out)
    r = random.Random(seed)
    os.makedirs(work, exist_ok=True)
    gens = {i: mod.gen(r, feat) for i in range(1, n + 1)}
    txt = {i: mod.encode(i, x) for i, x in gens.items()}
    res = execute(exe, "".join(txt[i] for i in sorted(txt)), parse)
    st = dict(runs=n, obs=0, states=0, gen=0, viol=[], kinds={}, shapes=set(), sample=None, gaveup=0)
    good = []
    for i in sorted(gens):
        if i not in res or res[i]["end"] != 0:
            again = execute(exe, txt[i], parse)
            if i not in again or again[i]["end"] != 0:
                end = again[i]["end"] if i in again else None
                st["viol"].append(dict(kind=END.get(end, "crash"), end=end, why=again.get(i, {}).get("why"), compare=compare, text=txt[i], seed=seed, feat=feat))
                continue
            res[i] = again[i]
        good.append(i)
        ks = []
        for l in res[i]["obs"].values():
            st["obs"] += len(l)
            for o in l:
                st["kinds"][o["k"]] = st["kinds"].get(o["k"], 0) + 1
                ks.append((o.get("m", 0), o["k"], o["s"]))
        st["shapes"].add(hash(tuple(ks)))
    if good:
        x = validate(spec, [mod.to_tla(i, gens[i], res[i]) for i in good], compare, work)
        st["states"], st["gen"] = x["distinct"], x["states"]
        if not x["ok"]:
            rid = failed_run(x["out"])
            if rid:
                again = execute(exe, txt[rid], parse)
                y = validate(spec, [mod.to_tla(rid, gens[rid], again[rid])], compare, work) if rid in again and again[rid]["end"] == 0 else x
            else:
                y = x
            if not y["ok"]:
                st["viol"].append(dict(kind="divergence", compare=compare, invariant=y["violated"], text=txt.get(rid), seed=seed, feat=feat, tlc=y["out"][-6000:],
                                       run=mod.to_tla(rid, gens[rid], res[rid]) if rid else None))
        st["gaveup"] = x["out"].count("gave up")
        one = mod.to_tla(good[0], gens[good[0]], res[good[0]])
        st["sample"] = dict(feat=feat, run=(one.get("ops") or one.get("tr"))[:8])
    shutil.rmtree(work, ignore_errors=True)
    return st


def build(mod, d, name=None):
    """name: which of the module's harnesses (BUILDS), chosen by exe of the feature set."""
    b = dict(mod.BUILDS[name] if name else getattr(mod, "BUILD", {}))
    b.setdefault("flags", ["-O1"])
    return lib.build(d + (name or ""), [lib.VERIF + "/harness/" + h for h in mod.HARNESS], **b)


def sequential(c, prop, mod):
    name = mod.__name__
    exes = {x: build(mod, os.path.join(c.dir, "build_" + name), x) for x in {f.get("exe") for f in mod.PRESETS[prop]}}
    jobs, k, left = [], 0, mod.COUNT[lib.TIER] * lib.NCPU
    presets = mod.PRESETS[prop]
    while left > 0:
        n = min(getattr(mod, "BATCH", BATCH), left)
        exe = exes[presets[k % len(presets)].get("exe")]
        jobs.append((name, exe, os.path.join(c.dir, "%s%d" % (name, k)), "%s-%s-%d-%d" % (name, prop, lib.SEED, k), presets[k % len(presets)], n, prop))
        left -= n
        k += 1
    tot = dict(runs=0, obs=0, states=0, gen=0, gaveup=0)
    kinds, shapes, viol, samples = {}, set(), [], []
    with multiprocessing.Pool(lib.NCPU) as pool:
        for st in pool.imap(batch, jobs):
            for x in tot:
                tot[x] += st[x]
            for x, v in st["kinds"].items():
                kinds[x] = kinds.get(x, 0) + v
            shapes |= st["shapes"]
            viol += st["viol"]
            if len(samples) < 2 and st["sample"]:
                samples.append(st["sample"])
    for n, v in enumerate(viol[:3]):
        v["script"] = name
        c.violation("%s%d" % (name, n), v)
    add = dict(states=tot["states"], transitions=tot["gen"] - tot["runs"], traces_validated_against_impl=tot["runs"] - tot["gaveup"], observations=tot["obs"],
               distinct_nontrivial=len(shapes))
    if tot["gaveup"]:
        add["runs_not_judged_to_the_end"] = tot["gaveup"]
    for x, v in add.items():
        c.cov[x] = c.cov.get(x, 0) + v
    c.cov["runs_" + mod.SPEC] = tot["runs"]
    c.cov["observations_by_kind_" + mod.SPEC] = kinds
    c.cov.setdefault("rule", "distinct: the sequences of observed callbacks (with machine and state) differ")
    c.cov.setdefault("samples", [])
    c.cov["samples"] += samples
    return viol


def replay(path):
    """Executes the stored input again on the current tree; exit 1 if it is still rejected."""
    v = json.load(open(path))
    mod = importlib.import_module(v["script"])
    if hasattr(mod, "replay"):
        return mod.replay(v)
    d = lib.scratch("replay")
    exe = build(mod, d + "/b", v["feat"].get("exe"))
    res = execute(exe, v["text"], getattr(mod, "parse", hsmgen.parse_out))
    print(json.dumps({k: (x["end"], x.get("why")) for k, x in res.items()}))
    rid = list(res)[0]
    bad = res[rid]["end"] != 0
    if not bad and v.get("run"):
        x = validate(mod.SPEC, [mod.refresh(v["run"], res[rid])], v["compare"], d)
        print(x["out"][-4000:])
        bad = not x["ok"]
    shutil.rmtree(d, ignore_errors=True)
    return 1 if bad else 0
