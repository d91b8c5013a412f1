"""Random SCXML documents of the dialect scxml2gen understands: the document as data (for the specification), as files
(for the generator) and what a harness needs to run the generated class."""
import random
import hsmgen

# names which are easily confused by text processing
STATES = ("S S1 S10 S11 S_1 s1 A AB ABC Aa aa Final Final_1 Final_10 F F1 on off On OFF _x __y Idle idle P P_1 P__a H History Root Main "
          "root_1 T1 E1 Done BLOCK END ITEM x1 x y z Z9 Wait Waiting Wait1 Long_Name_With_Many_Parts q7 Par Par1 initial_1 target_2").split()
EVENTS = "E1 E2 E10 E_1 e1 GO GO_1 go STOP STOPPED Next NEXT NEXT_1 S1 A ON OFF_1 x EV EVENT EVENT_1 EXIT EXIT_1 TIMER T1 Done".split()
TIMERS = "T1 T10 T2 T_1 t1 BLINK BLINK_1 A E1".split()
FUNCS = "onA onAB onABC onEnter onEnter1 onEnter_1 onExit onExit1 onState on_State cb cb1 cb10 Cb f g h fn_1 handler Handler check doIt transition1 start_timer1 myStop_timer S1 A E1".split()
CONDS = ["isOk", "isOk1", "is_ok"]
TEXTS = {0: "", 4: "- x", 12: "# no comment", 16: "{a", 20: "'", 24: "null", 28: "true", 36: "*a &b !c |", 40: "a,b", 44: "p(1, 2)"}      # gTexts in script.hpp


class Doc:
    pass


def pick(r, pool, used, n):
    out = []
    while len(out) < n:
        x = r.choice(pool)
        if r.random() < 0.4:
            x += r.choice(["1", "_", "a", "2", "_1", "X"])
        if x not in used:
            used.add(x)
            out.append(x)
    return out


def gen_doc(r, feat):
    f = dict(cond=0.35, hist=0.3, final=0.2, acts=0.25, selfs=0.2, par_entry=0.25, entry_ev=0.15, free=0.15, fcb=1.0, cb=0.5, late_init=0.0, nmax=11, depth=4,
             par_tr=0.15, block=0.12, parallel=0.35, share=0.15, include=0.3, text=0.3, hist_w=3, timers=0,
             w=dict(t=12, d=12, tc=0, p=2, irq=0, env=2, fire=2))
    f.update(feat)
    m = hsmgen.gen_machine(r, f)
    m.react, m.cap = [], 4
    d = Doc()
    d.m, d.f = m, f
    ne = m.ne
    for h in m.hists:
        m.cbs[h] = dict(en=False, ex=False, st=False)
        if not m.hdef[h]:
            m.hcb[h] = False
    # kinds
    d.kind = [None] * (m.n + 1)
    for s in range(1, m.n + 1):
        d.kind[s] = "history" if m.ht[s] else "final" if m.fin[s] != -1 else "state"
    for c in m.comps:
        if all(m.fin[x] == -1 for x in m.kids[c]) and r.random() < f["parallel"]:
            d.kind[c] = "parallel"
            m.entries[c] = [dict(to=x, ev=0, c=0, x=True) for x in m.kids[c]]
    rank = dict(state=0, parallel=1, final=2, history=3)
    d.kids = {}
    for p in [0] + m.comps:
        d.kids[p] = sorted(m.kids[p], key=lambda x: rank[d.kind[x]])
        if p:
            es = [e for k, e in enumerate(m.entries[p]) if e not in m.entries[p][:k]]
            if r.random() < 0.1 and d.kind[p] == "state" and len(es) == 1 and m.nc and (es[0]["ev"] or es[0]["c"]):
                es.append(dict(to=es[0]["to"], ev=0, c=0, x=True))
            m.entries[p] = sorted(es, key=lambda e: d.kids[p].index(e["to"]))
    # timers: every timer has an event of its own
    ids = sorted({a["args"][0] for a in m.acts if a["a"] in ("start", "stop", "restart")} | {t["id"] for t in m.tm})
    num = {x: k + 1 for k, x in enumerate(ids)}
    evs = r.sample(range(1, ne + 1), min(len(ids), ne))
    for a in m.acts:
        if a["a"] != "post":
            a["args"][0] = num[a["args"][0]]
        else:
            a["args"] = a["args"][:1] + [r.choice(list(TEXTS)) + 100 if r.random() < f["text"] else x for x in a["args"][1:]]
    d.timers = []
    for k in range(len(ids)):
        if k < len(evs) and r.random() < 0.8:
            e = evs[k]
        else:
            ne += 1
            e = ne
        d.timers.append(e)
    m.ne = ne
    m.tm = [dict(id=k + 1, e=e) for k, e in enumerate(d.timers)]
    # a timer which no action names exists if its event is mentioned
    named = {a["args"][0] for a in m.acts if a["a"] != "post"}
    mentioned = {t["e"] for t in m.trans} | {e["ev"] for es in m.entries for e in es} | {x for x in m.fin if x > 0} | {a["args"][0] for a in m.acts if a["a"] == "post"}
    for k, e in enumerate(d.timers, 1):
        if k not in named and e not in mentioned:
            m.acts.append(dict(s=m.init, tr="en", a="stop", args=[k]))
    # names
    used = set()
    names = pick(r, STATES, used, m.n)
    d.local = [None] + names
    used = set()
    tn = pick(r, TIMERS, used, len(ids))
    d.tname = [None] + tn
    used = set()
    en = pick(r, EVENTS, used, ne)
    d.ename = [None] + en
    for k, e in enumerate(d.timers, 1):
        d.ename[e] = "ON_TIMER_" + tn[k - 1]
    # included parts
    d.prefix = [""] * (m.n + 1)
    d.inc = {}                          # state -> form
    parts = set()
    if r.random() < f["include"]:
        cand = []
        for c in m.plain:
            sub = [x for x in range(1, m.n + 1) if x == c or is_in(m, x, c)]
            if d.kind[c] != "state" or c in parts:
                continue
            if c in m.comps and len(m.entries[c]) == 1 and not m.entries[c][0]["ev"] and not m.entries[c][0]["c"] and all(
                    t["f"] not in sub or t["f"] == c or (t["t"] in sub and t["t"] != c) for t in m.trans):
                cand.append((c, r.choice(["src", "wrapped"])))
            if c not in m.comps and m.parent[c] == 0 and c != m.init:
                cand.append((c, "direct"))
            if m.parent[c] and d.kind[m.parent[c]] == "state" and all(e["to"] != c for e in m.entries[m.parent[c]]) and len(
                    [x for x in m.kids[m.parent[c]] if d.kind[x] == "state"]) > 1:
                cand.append((c, "direct"))
        r.shuffle(cand)
        for c, form in cand:
            p, nested = m.parent[c], False
            while p:
                nested = nested or (p in d.inc and d.inc[p] == "direct")
                p = m.parent[p]
            if form == "direct" and (any(is_in(m, x, c) for x in d.inc) or nested or any(d.inc.get(x) == "direct" for x in d.kids[m.parent[c]])
                                     or any(is_in(m, c, x) for x in d.inc)):
                continue
            if any(d.inc.get(x) == "direct" and is_in(m, c, x) for x in d.inc):
                continue
            if form != "direct" and any(d.inc.get(x) == "direct" and is_in(m, x, c) for x in d.inc):
                continue
            if len(d.inc) < 2:
                d.inc[c] = form
        # the state whose only child element is an include of one state: is prefixed; avoid the ambiguous shapes
        for c in list(d.inc):
            if d.inc[c] == "direct" and m.parent[c]:
                if not [x for x in d.kids[m.parent[c]] if d.kind[x] == "state" and x not in d.inc]:
                    del d.inc[c]
    full = [None] * (m.n + 1)

    def name(s):
        if full[s] is None:
            p = m.hpar[s] if m.ht[s] else m.parent[s]
            pre = ""
            if p:
                name(p)
                pre = d.prefix[p]
                if d.inc.get(p) in ("src", "wrapped"):
                    pre = full[p] + "__"
            d.prefix[s] = pre
            full[s] = pre + d.local[s]
        return full[s]

    d.name = [None] + [name(s) for s in range(1, m.n + 1)]
    if len(set(d.name)) != len(d.name):
        return gen_doc(r, feat)
    # functions: 1..; kinds by signature v (void, arguments), b (bool, arguments), x (bool)
    used = set(CONDS)
    d.fn = []                            # (name, signature)
    pools = dict(v=[], b=[], x=[])

    def func(sig):
        if pools[sig] and r.random() < f["share"]:
            return r.choice(pools[sig])
        if sig == "x" and d.fn and r.random() < f["share"]:
            # overload
            nm = r.choice(d.fn)[0]
            if (nm, "x") in d.fn:
                return d.fn.index((nm, "x")) + 1
        else:
            nm = pick(r, FUNCS, used, 1)[0]
        d.fn.append((nm, sig))
        pools[sig].append(len(d.fn))
        return len(d.fn)

    d.en, d.ex, d.st, d.tr, d.hd = {}, {}, {}, {}, {}
    for s in range(1, m.n + 1):
        d.en[s] = func("b") if m.cbs[s]["en"] else 0
        d.ex[s] = func("x") if m.cbs[s]["ex"] else 0
        d.st[s] = func("v") if m.cbs[s]["st"] else 0
        d.hd[s] = func("v") if m.ht[s] and m.hcb[s] else 0
    for k, t in enumerate(m.trans, 1):
        d.tr[k] = func("v") if t["cb"] else 0
    d.cname = pick(r, CONDS, set(n for n, _ in d.fn), 3)
    d.hev = {}
    for h in m.hists:
        if m.hdef[h] and r.random() < 0.3:     # the editors give events to default transitions of history
            d.hev[h] = len(d.ename)
    if d.hev:
        d.hev = {h: len(d.ename) for h in d.hev}
        d.ename.append("Transition_1")
    d.mentioned = {t["e"] for t in m.trans} | {e["ev"] for es in m.entries for e in es} | {x for x in m.fin if x > 0} | {a["args"][0] for a in m.acts if a["a"] == "post"} | set(d.timers)
    d.doc = as_data(d)
    return d


def is_in(m, x, c):
    p = m.hpar[x] if m.ht[x] else m.parent[x]
    while p:
        if p == c:
            return True
        p = m.hpar[p] if m.ht[p] else m.parent[p]
    return False


def as_data(d):
    """The document for the specification (Scxml.tla)."""
    m = d.m
    nodes = []
    tr = {s: [] for s in range(1, m.n + 1)}
    for k, t in enumerate(m.trans, 1):
        tr[t["f"]].append(dict(e=t["e"], to=0 if t["f"] == t["t"] and (k % 2) else t["t"], c=t["c"], x=t["x"], fn=d.tr[k], internal=t["int"]))
    for s in range(1, m.n + 1):
        acts = lambda w: [dict(a=a["a"], args=a["args"]) for a in m.acts if a["s"] == s and a["tr"] == w]
        hist = {0: "", 1: "shallow", 2: "deep"}[m.ht[s]]
        nodes.append(dict(kind=d.kind[s], parent=m.hpar[s] if m.ht[s] else m.parent[s], hist=hist, final=max(m.fin[s], 0), initial=[] if d.kind[s] == "parallel" else m.entries[s],
                          kids=d.kids.get(s, []), onentry=d.en[s], onexit=d.ex[s], invoke=d.st[s], entryacts=acts("en"), exitacts=acts("ex"),
                          trans=tr[s] if not m.ht[s] else ([dict(e=d.hev.get(s, 0), to=m.hdef[s], c=0, x=True, fn=d.hd[s], internal=False)] if m.hdef[s] else [])))
    return dict(initial=m.init, nodes=nodes, top=d.kids[0], timers=d.timers, ca=m.ca, cap=m.cap)


# ------------------------------------------------------------------------------------------------------------ text
def esc(s):
    return s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace('"', "&quot;")


def emit(d, r, base):
    """-> {file name: text}"""
    files = {}
    nodes = d.doc["nodes"]
    style = dict(ind=r.choice([" ", "    ", "\t", ""]), ext=r.random() < 0.5, noise=r.random() < 0.4, root=r.choice(["ns", "ns", "none"]))

    def target(s, frm):
        pre = d.prefix[frm]
        assert d.name[s].startswith(pre)
        return d.name[s][len(pre):]

    def cond(c, x):
        if not c:
            return ""
        n = d.cname[c - 1]
        return ' cond="%s"' % (r.choice([n, n + " is true", n + " is  True"]) if x else r.choice([n + " is false", n + " is FALSE"]))

    def attrs(a):
        a = [x for x in a if x]
        r.shuffle(a)
        return "".join(" " + x.strip() for x in a)

    def action(a):
        if a["a"] == "post":
            args = [d.ename[a["args"][0]]]
            for x in a["args"][1:]:
                args.append('"%s"' % TEXTS[x - 100] if x >= 100 else str(x))
            nm = "transition"
        else:
            args = [d.tname[a["args"][0]]] + [str(x) for x in a["args"][1:]]
            nm = a["a"] + "_timer"
            if a["a"] == "start":
                args[2] = "true" if a["args"][2] else "false"
        return "%s(%s)" % (nm, r.choice([", ", ","]).join(args))

    def scripts(fn, acts):
        sc = ["<script>%s</script>" % esc(action(a)) for a in acts]
        if fn:
            sc.insert(r.randint(0, len(sc)), "<script>%s</script>" % d.fn[fn - 1][0])
        return sc

    def noise():
        return ['<qt:editorinfo geometry="1;2;3"/>'] if style["noise"] and r.random() < 0.5 else ["<!-- state id=\"X\" -->"] if r.random() < 0.1 else []

    def trans(s, t, history):
        a = []
        if t["e"]:
            a.append('event="%s"' % d.ename[t["e"]])
        if t["to"]:
            a.append('target="%s"' % target(t["to"], s))
        a.append(cond(t["c"], t["x"]))
        if t["internal"] or (t["to"] not in (0, s) and not nodes[s - 1]["kids"] and r.random() < 0.1):
            a.append('type="internal"')
        elif style["ext"]:
            a.append('type="external"')
        body = noise() + (["<script>%s</script>" % d.fn[t["fn"] - 1][0]] if t["fn"] else [])
        if body or r.random() < 0.3:
            return ["<transition%s>" % attrs(a)] + body + ["</transition>"]
        return ["<transition%s/>" % attrs(a)]

    def children(p, own, ids):
        """own: groups of lines of the parent's other elements; children keep their order."""
        groups = [element(x) for x in ids]
        own = list(own)
        r.shuffle(own)
        hs = [element(x) for x in range(1, d.m.n + 1) if d.kind[x] == "history" and nodes[x - 1]["parent"] == p and p]
        for g in own + hs:
            groups.insert(r.randint(0, len(groups)), g)
        return [l for g in groups for l in g]

    def root(name, initial, lines):
        ns = ' xmlns="http://www.w3.org/2005/07/scxml"' if style["root"] == "ns" else ""
        a = ['version="1.0"', 'initial="%s"' % initial if initial else "", 'name="%s"' % base]
        files[name] = ('<?xml version="1.0" encoding="UTF-8"?>\n' if r.random() < 0.7 else "") + "<scxml%s xmlns:qt=\"http://www.qt.io/2015/02/scxml-ext\" xmlns:xi=\"http://www.w3.org/2001/XInclude\"%s>\n" % (
            ns, attrs(a)) + "\n".join(style["ind"] + l for l in lines) + "\n</scxml>\n"

    def element(s):
        n = nodes[s - 1]
        if d.inc.get(s) == "direct" and s not in opened:
            fn = "%s_%d.scxml" % (base, s)
            opened.add(s)
            root(fn, "", element(s))
            return ['<xi:include href="%s%s" parse="xml"/>' % (r.choice(["", "./"]), fn)]
        a = ['id="%s"' % d.name[s][len(d.prefix[s]):]]
        own = []
        if n["kind"] == "history":
            a.append('type="%s"' % n["hist"])
        if n["kind"] == "final" and n["final"]:
            a.append('event="%s"' % d.ename[n["final"]])
        for w in ("entry", "exit"):
            sc = scripts(n["on" + w], n[w + "acts"])
            if sc:
                own.append(["<on%s>" % w] + sc + ["</on%s>" % w])
        if n["invoke"]:
            own.append(['<invoke srcexpr="%s"/>' % d.fn[n["invoke"] - 1][0]])
        if n["trans"]:
            own.append([l for t in n["trans"] for l in trans(s, t, n["kind"] == "history")])
        if noise():
            own.append(["<qt:editorinfo x=\"1\"/>"] if style["noise"] else ["<!-- x -->"])
        form = d.inc.get(s)
        if form in ("src", "wrapped"):
            fn = "%s_%d.scxml" % (base, s)
            root(fn, target(n["initial"][0]["to"], n["initial"][0]["to"]), children(s, [], n["kids"]))
            if form == "src":
                a.append('src="%s"' % fn)
                lines = children(0, own, [])
            else:
                own.append(['<xi:include href="%s" parse="xml"/>' % fn])
                lines = children(0, own, [])
        else:
            if n["initial"]:
                es = n["initial"]
                if len(es) == 1 and not es[0]["ev"] and not es[0]["c"] and r.random() < 0.6:
                    a.append('initial="%s"' % target(es[0]["to"], es[0]["to"]))
                else:
                    own.append(["<initial>"] + noise() + ["<transition%s/>" % attrs(['target="%s"' % target(e["to"], e["to"]), 'event="%s"' % d.ename[e["ev"]] if e["ev"] else "",
                                                                              cond(e["c"], e["x"])]) for e in es] + ["</initial>"])
            lines = children(s, own, n["kids"])
        tag = n["kind"]
        if lines:
            return ["<%s%s>" % (tag, attrs(a))] + [style["ind"] + l for l in lines] + ["</%s>" % tag]
        return ["<%s%s/>" % (tag, attrs(a))]

    opened = set()
    top = children(0, [["<datamodel/>"]] if style["noise"] else [], d.doc["top"])
    root(base + ".scxml", d.name[d.m.init], top)
    return files
