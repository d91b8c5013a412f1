"""scxml2gen: random documents; the generated classes are compiled and executed, and judged by what the documents mean
(Scxml.tla, Hsm.tla); exported diagrams are read and compared with what the documents describe (Diagram.tla)."""
import json, multiprocessing, os, random, re, shutil, subprocess
import hsmgen, lib, runs, scxmlgen

PRESETS = {
    "C20": [dict(), dict(hist=0.6, final=0.3, include=0.5), dict(acts=0.5, text=0.5, nmax=7), dict(cond=0.6, par_entry=0.5, entry_ev=0.3, parallel=0.5, share=0.3), dict(nmax=16, depth=5, include=0.6)],
    "C27": [dict(), dict(hist=0.6, final=0.4, free=0.5), dict(nmax=16, depth=5, include=0.6, free=0.3), dict(cond=0.6, par_entry=0.5, entry_ev=0.3, parallel=0.5)],
}
ASSUME = "documents up to 16 elements in up to 3 files, sampled by VERIF_SEED; identifiers, layout and order of elements vary"
DOCS = dict(C20=dict(quick=25, thorough=25), C27=dict(quick=300, thorough=400))        # per job
JOBS = dict(C20=dict(quick=16, thorough=160), C27=dict(quick=8, thorough=80))
SCRIPTS = 24
TOOL = "tools/scxml2gen/"


def tool(*args):
    return lib.run(["python3", os.path.join(lib.REPO, TOOL, "scxml2gen.py")] + list(args), env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))


# ------------------------------------------------------------------------------------------------- generated code
def subclass(d, cls, base):
    m = d.m
    o = ["class %s : public %s, public GenMachine {" % (cls, base), "public:", "    %s() {" % cls]
    name = cls
    for s in range(1, m.n + 1):
        o.append('        states.emplace_back("%s", %sStates::%s);' % (d.name[s], name, d.name[s]))
    for e in range(1, m.ne + 1):
        if e in d.mentioned:
            o.append('        events.emplace_back("%s", %sEvents::%s);' % (d.ename[e], name, d.ename[e]))
        else:
            o.append('        events.emplace_back("", 10000 + %d);' % e)
    for t in d.tname[1:]:
        o.append('        timers.push_back(%sTimers::%s);' % (name, t))
    o.append("    }")
    o.append("    HierarchicalStateMachine& hsm() override { return *this; }")
    o.append("    std::string nameOfState(const StateID_t s) const override { return getStateName(s); }")
    o.append("    std::string nameOfEvent(const EventID_t e) const override { return getEventName(e); }")
    o.append("    void onTransitionFailed(const std::list<StateID_t>& st, const EventID_t e, const VariantVector_t& a) override { failed(st, e, a); }")
    body = dict(v="    void %s(const VariantVector_t& a) override { fv(%d, a); }", b="    bool %s(const VariantVector_t& a) override { return fb(%d, a); }",
                x="    bool %s() override { return fx(%d); }")
    for k, (n, sig) in enumerate(d.fn, 1):
        o.append(body[sig] % (n, k))
    for c in sorted({t["c"] for t in m.trans} | {e["c"] for es in m.entries for e in es} - {0}):
        if c:
            o.append("    bool %s(const VariantVector_t& a) override { return cond(%d, a); }" % (d.cname[c - 1], c))
    o.append("};")
    return "\n".join(o)


def write(files, where):
    for n, t in files.items():
        with open(os.path.join(where, n), "w") as f:
            f.write(t)


def generate(k, d, r, work):
    """Writes the document and calls the generator; -> (files, header, error)."""
    base = "doc%d" % k
    files = scxmlgen.emit(d, r, base)
    write(files, work)
    cls, suffix = "M%d" % k, r.choice(["Base", "Base", "_gen", "Impl"])
    a = ["-code", "-s", os.path.join(work, base + ".scxml"), "-c", cls, "-thpp", os.path.join(lib.REPO, TOOL, "template.hpp"), "-tcpp", os.path.join(lib.REPO, TOOL, "template.cpp")]
    if suffix != "Base":
        a += ["-cs", suffix]
    if r.random() < 0.5:
        a += ["-d", work]
    else:
        a += ["-dhpp", os.path.join(work, cls + suffix + ".hpp"), "-dcpp", os.path.join(work, cls + suffix + ".cpp")]
    p = tool(*a)
    err = p.stdout if p.returncode != 0 else None
    if err is None and not all(os.path.exists(os.path.join(work, cls + suffix + x)) for x in (".hpp", ".cpp")):
        err = "no files: " + p.stdout
    return files, (cls, suffix), err


def cxx(work, src, out, extra=()):
    return lib.run(["g++", "-std=c++11", "-O0", "-w", "-DGENERATED", "-I" + lib.REPO + "/include", "-I" + lib.VERIF + "/harness", "-I" + work] + lib.DEFS + list(extra) + [src, "-o", out])


def source(ds, tags):
    o = ['#include "hsm_run.cpp"']
    for k, d in ds.items():
        cls, suffix = tags[k]
        o += ['#include "%s%s.hpp"' % (cls, suffix), '#include "%s%s.cpp"' % (cls, suffix)]
        o.append(subclass(d, cls, cls + suffix).replace("class %s :" % cls, "class %s_ :" % cls).replace("    %s() {" % cls, "    %s_() {" % cls))
    o.append("std::vector<std::function<std::shared_ptr<GenMachine>()>> gMakers = {")
    for k in ds:
        o.append("    []() -> std::shared_ptr<GenMachine> { return std::make_shared<M%d_>(); }," % k)
    o.append("};")
    return "\n".join(o) + "\n"


def per_function(d, env):
    """What callbacks return, by function: those which share a function return the same."""
    be, bx = [False] * len(d.fn), [False] * len(d.fn)
    e = dict(env, be=list(env["be"]), bx=list(env["bx"]))
    for s in range(1, d.m.n + 1):
        if d.en[s]:
            be[d.en[s] - 1] = be[d.en[s] - 1] or env["be"][s - 1]
        if d.ex[s]:
            bx[d.ex[s] - 1] = bx[d.ex[s] - 1] or env["bx"][s - 1]
    for s in range(1, d.m.n + 1):
        e["be"][s - 1] = bool(d.en[s]) and be[d.en[s] - 1]
        e["bx"][s - 1] = bool(d.ex[s]) and bx[d.ex[s] - 1]
    return e, dict(cond=env["cond"], be=be, bx=bx)


def script(r, d):
    """-> (initial conditions, operations): for the specification (by state) and for the harness (by function)"""
    m = d.m
    env, fenv = per_function(d, hsmgen.rnd_env(r, m, start=True))
    spec, har = [], []
    for o in hsmgen.gen_script(r, m):
        h = o
        if o["op"] == "fire":
            if not m.tm:
                continue
            o = h = dict(o, e=r.choice(m.tm)["id"])
        if o["op"] == "env":
            e, f = per_function(d, o["env"])
            o, h = dict(o, env=e), dict(o, env=f)
        spec.append(o)
        har.append(h)
    return env, fenv, spec, har


class Enc:
    pass


def encode(rid, d, cls, fenv, har):
    x = Enc()
    x.n = x.ne = x.init = 1
    x.fcb, x.cap, x.ids, x.evs, x.ca, x.env, x.react = False, d.m.cap, [], [], d.m.ca, fenv, []
    return hsmgen.enc_run(rid, [x], har, disp=cls, cmds=[])


def job(a):
    prop, lib_objs, work, seed, feat, n = a
    r = random.Random(seed)
    os.makedirs(work, exist_ok=True)
    st = dict(docs=0, runs=0, obs=0, states=0, gen=0, viol=[], kinds={}, shapes=set(), sample=None)
    if prop == "C20":
        code(r, lib_objs, work, seed, feat, n, st)
    else:
        diagrams(r, work, seed, feat, n, st)
    shutil.rmtree(work, ignore_errors=True)
    return st


def count_elements(d, st):
    for x in d.kind[1:]:
        st["kinds"][x] = st["kinds"].get(x, 0) + 1
    for k, v in dict(transitions=len(d.m.trans), files=1 + len(d.inc), actions=len(d.m.acts), timers=len(d.m.tm), functions=len(d.fn)).items():
        st["kinds"][k] = st["kinds"].get(k, 0) + v


def code(r, lib_objs, work, seed, feat, n, st):
    ds, tags, files = {}, {}, {}
    for k in range(n):
        d = scxmlgen.gen_doc(r, feat)
        st["docs"] += 1
        count_elements(d, st)
        f, tag, err = generate(k, d, r, work)
        if err:
            st["viol"].append(dict(kind="generator failed", why=err[-1500:], files=f, seed=seed, feat=feat))
            continue
        ds[k], tags[k], files[k] = d, tag, f
    src, exe = os.path.join(work, "all.cpp"), os.path.join(work, "all")
    while ds:
        with open(src, "w") as f:
            f.write(source(ds, tags))
        p = cxx(work, src, exe, lib_objs + ["-lpthread", "-ldl"])
        if p.returncode == 0:
            break
        # which of them does not compile?
        bad = []
        for k in list(ds):
            one = os.path.join(work, "one%d.cpp" % k)
            with open(one, "w") as f:
                f.write(source({k: ds[k]}, tags))
            q = cxx(work, one, os.path.join(work, "one.o"), ["-c"])
            if q.returncode != 0:
                bad.append(k)
                st["viol"].append(dict(kind="generated class does not compile", why="\n".join(l for l in q.stdout.split("\n") if "error" in l)[:1500], files=files[k], seed=seed, feat=feat))
                ds.pop(k)
                if len(bad) >= 3:
                    return
        if not bad:
            raise lib.CheckError("harness does not compile:\n" + p.stdout[-3000:])
    if not ds:
        return
    order = {k: i for i, k in enumerate(ds)}
    txt, meta, rid = {}, {}, 0
    for k, d in ds.items():
        for _ in range(SCRIPTS):
            rid += 1
            env, fenv, spec, har = script(r, d)
            txt[rid] = encode(rid, d, order[k], fenv, har)
            meta[rid] = (k, env, spec)
    res = runs.execute(exe, "".join(txt.values()))
    st["runs"] = len(txt)

    def to_tla(i, res):
        k, env, spec = meta[i]
        ops = []
        for j, o in enumerate(spec, 1):
            x = dict(o)
            x["obs"] = [dict(k=b["k"], s=b["s"], args=b["args"], act=b["act"]) for b in res["obs"].get(j, [])]
            if o["op"] == "d":
                x["had"] = res["had"].get(j, -1)
            ops.append(x)
        return dict(id=i, doc=ds[k].doc, env=env, ops=ops)

    good = []
    for i in txt:
        if i not in res or res[i]["end"] != 0:
            st["viol"].append(dict(kind="crash", end=res.get(i, {}).get("end"), files=files[meta[i][0]], text=txt[i], seed=seed, feat=feat))
            continue
        good.append(i)
        ks = []
        for l in res[i]["obs"].values():
            st["obs"] += len(l)
            ks += [(o["k"], o["s"]) for o in l]
        st["shapes"].add(hash((meta[i][0], tuple(ks))))
    if good:
        x = runs.validate("HsmTrace", [to_tla(i, res[i]) for i in good], "C20", work)
        st["states"], st["gen"] = x["distinct"], x["states"]
        if not x["ok"]:
            i = runs.failed_run(x["out"])
            k = meta[i][0] if i else None
            st["viol"].append(dict(kind="divergence", invariant=x["violated"], files=files.get(k), text=txt.get(i), names=ds[k].name if i else None, functions=ds[k].fn if i else None,
                                   seed=seed, feat=feat, tlc=x["out"][-6000:], run=to_tla(i, res[i]) if i else None))
        one = to_tla(good[0], res[good[0]])
        st["sample"] = dict(feat=feat, run=one["ops"][:8])


# ------------------------------------------------------------------------------------------------------- diagrams
def parse_diagram(d, text):
    """Lines of the diagram as data for Diagram.tla; what isn't understood becomes a bad line."""
    sid = {n: s for s, n in enumerate(d.name) if n}
    eid = {n: e for e, n in enumerate(d.ename) if n}
    fid = {}
    for k, (n, sig) in enumerate(d.fn, 1):
        if sig == "v":
            fid[n] = k
    mark = {"[*]": -1, "[H]": -2, "[H*]": -3}
    L = lambda t, **kw: dict(dict(t=t, id=0, e=0, c=0, x=True, fn=0, **{"from": 0, "to": 0}), **kw)
    out, lines = [], text.strip().split("\n")
    if lines[0].strip() != "@startuml" or lines[-1].strip() != "@enduml":
        return [L("bad")]
    num = lambda n: mark[n] if n in mark else sid.get(n, 9000)
    for l in lines[1:-1]:
        s = l.strip()
        if not s or s in ("left to right direction",):
            continue
        m = re.match(r"^state\s+(\w+)\s*(\{)?$", s)
        if m:
            out.append(L("open" if m.group(2) else "state", id=num(m.group(1))))
            continue
        if s == "}":
            out.append(L("close"))
            continue
        m = re.match(r"^(\S+)\s+-(?:\[[^\]]*\])?->\s+(\S+?)\s*(?::(.*))?$", s)
        if m and (m.group(1) in mark or re.match(r"^\w+$", m.group(1))) and (m.group(2) in mark or re.match(r"^\w+$", m.group(2))):
            a = L("arrow", to=num(m.group(2)), **{"from": num(m.group(1))})
            lab = (m.group(3) or "").replace("\\n", " ")
            x = re.match(r"^\s*([\w.]*)\s*(?:\[\s*(\w+) is (true|false)\s*\])?\s*(?:<(\w+)>)?\s*$", lab)
            if not x:
                a["t"] = "bad"
            else:
                if x.group(1):
                    a["e"] = eid.get(x.group(1), 9000)
                if x.group(2):
                    a["c"], a["x"] = (d.cname.index(x.group(2)) + 1 if x.group(2) in d.cname else 9000), x.group(3) == "true"
                if x.group(4):
                    a["fn"] = fid.get(x.group(4), 9000)
            out.append(a)
            continue
        m = re.match(r"^(\w+)\s*:", s)
        if m and m.group(1) in sid:
            out.append(L("state", id=sid[m.group(1)]))
            continue
        out.append(L("bad"))
    return out


def diagrams(r, work, seed, feat, n, st):
    lines, docs, files, texts = [], {}, {}, {}
    for k in range(1, n + 1):
        d = scxmlgen.gen_doc(r, feat)
        st["docs"] += 1
        count_elements(d, st)
        files[k] = scxmlgen.emit(d, r, "doc%d" % k)
        write(files[k], work)
        out = os.path.join(work, "doc%d.plantuml" % k)
        p = tool(*(["-plantuml", "-s", os.path.join(work, "doc%d.scxml" % k), "-o", out] + (["-l2r"] if r.random() < 0.3 else [])))
        if p.returncode != 0 or not os.path.exists(out):
            st["viol"].append(dict(kind="export failed", why=p.stdout[-1500:], files=files[k], seed=seed, feat=feat))
            continue
        texts[k], docs[k] = open(out).read(), d
        ls = parse_diagram(d, texts[k])
        st["obs"] += len(ls)
        st["shapes"].add(hash(json.dumps(ls)))
        lines.append(dict(id=k, doc=d.doc, lines=ls))
    st["runs"] = len(lines)
    if lines:
        x = runs.validate("Diagram", lines, "C27", work)
        st["states"], st["gen"] = x["distinct"], x["states"]
        if not x["ok"]:
            k = runs.failed_run(x["out"])
            st["viol"].append(dict(kind="divergence", invariant=x["violated"], files=files.get(k), names=docs[k].name if k else None, diagram=texts.get(k), seed=seed, feat=feat, tlc=x["out"][-4000:]))
        st["sample"] = dict(feat=feat, files=files[lines[0]["id"]])


# --------------------------------------------------------------------------------------------------------- driver
def decide(c, prop):
    objs = []
    if prop == "C20":
        out = os.path.join(c.dir, "lib")
        os.makedirs(out)
        for f in lib.repo_sources():
            o = os.path.join(out, "%d_%s.o" % (len(objs), os.path.basename(f)))
            objs.append((f, o))
        import concurrent.futures
        with concurrent.futures.ThreadPoolExecutor(lib.NCPU) as ex:
            for p in ex.map(lambda x: lib.run(["g++", "-std=c++11", "-O1", "-w", "-I" + lib.REPO + "/include"] + lib.DEFS + ["-c", x[0], "-o", x[1]]), objs):
                if p.returncode != 0:
                    raise lib.CheckError("cannot compile:\n" + p.stdout[-3000:])
        objs = [o for _, o in objs]
    ps = PRESETS[prop]
    jobs = [(prop, objs, os.path.join(c.dir, "gen%d" % k), "gen-%s-%d-%d" % (prop, lib.SEED, k), ps[k % len(ps)], DOCS[prop][lib.TIER]) for k in range(JOBS[prop][lib.TIER])]
    tot = dict(docs=0, runs=0, obs=0, states=0, gen=0)
    kinds, shapes, viol, samples = {}, set(), [], []
    with multiprocessing.Pool(lib.NCPU) as pool:
        for st in pool.imap(job, jobs):
            for x in tot:
                tot[x] += st[x]
            for x, v in st["kinds"].items():
                kinds[x] = kinds.get(x, 0) + v
            shapes |= st["shapes"]
            viol += st["viol"]
            if len(samples) < 2 and st["sample"]:
                samples.append(st["sample"])
    for n, v in enumerate(viol[:3]):
        v.update(script="check_gen", prop=prop)
        c.violation("check_gen%d" % n, v)
    c.cov.update(programs=tot["docs"], states=tot["states"], transitions=max(tot["gen"] - tot["runs"], 0), traces_validated_against_impl=tot["runs"], observations=tot["obs"], distinct_nontrivial=len(shapes),
                 elements=kinds, rule="distinct: documents with different sequences of called functions" if prop == "C20" else "distinct: diagrams which differ", samples=samples)


def replay(v):
    """Same inputs again: the job with this seed."""
    c = lib.Check(v["prop"], "model_checking")
    w = os.path.join(c.dir, "r")
    p = v["prop"]
    k = int(v["seed"].rsplit("-", 1)[1])
    lib.SEED = int(v["seed"].rsplit("-", 2)[1])
    PRESETS[p] = [v["feat"]]
    global JOBS
    objs = []
    JOBS = {p: {lib.TIER: k + 1}}
    decide(c, p)
    shutil.rmtree(c.dir, ignore_errors=True)
    return 1 if c.viol else 0
