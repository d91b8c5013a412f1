"""The debug log: every run of the real engine is logged to a file; records are read back while callbacks are called, so
that the sequence of callbacks and log records as a whole is validated by TLC against Hsm.tla."""
import re
import yaml
import hsmgen, check_seq
from check_seq import SPEC, HARNESS, refresh

W = dict(t=10, d=12, tc=2, p=1, irq=2, env=3, fire=1)
PRESETS = {
    "C22": [dict(cond=0.4, args=0.7, selfs=0.3, w=W), dict(block=0.2, hist=0.3, final=0.3, acts=0.5, args=0.6, w=W),
            dict(par_entry=0.6, p_comp=0.7, hist=0.4, react=0.5, args=0.7, w=W), dict(free=0.3, par_tr=0.3, acts=0.4, final=0.3, block=0.1, selfs=0.3, cb=0.6)],
}
COUNT = dict(quick=900, thorough=15000)
BATCH = 450
ASSUME = "numbers, texts and byte arrays as arguments, state/event names without special characters in the log; one machine per log file"


def gen(r, feat):
    m = hsmgen.gen_machine(r, feat)
    ops = hsmgen.gen_script(r, m)
    for o in ops + [o for x in m.react for o in x["ops"]]:
        if o["op"] in ("t", "tc"):
            o["args"] = texts(r, o["args"])
    mode = r.choice("ppedaax")
    mk = hsmgen.mkop
    on = r.random() < 0.9
    out = [mk("lon")] if on else []
    for o in ops:
        if r.random() < (0.03 if on else 0.2):
            out.append(mk("loff" if on else "lon"))
            on = not on
        out.append(o)
    if r.random() < 0.2:
        out += [mk("rel"), mk("t", 1), mk("d")]
    return m, out, mode


def encode(rid, x):
    return hsmgen.enc_run(rid, [x[0]], x[1], log=x[2])


REC = re.compile(r'\n-\n  timestamp: "(\d{4}-\d\d-\d\d) (\d\d:\d\d:\d\d\.\d{3})"\n  active_states:((?:\n    - "S\d+")*)\n  action: (\w+)\n  from_state: "(S\d+)"\n'
                 r'  target_state: "(S\d+)"\n  event: "(E\d+)"\n  status: (failed)?\n  args:((?:\n    - [^\n]*)*)')
NUM = re.compile(r"\d+")
KINDS = dict(idle="Li", transition="Lt", transition_entrypoint="Le", callback_exit="Lx", callback_enter="Ln", callback_state="Ls", onenter_actions="Len", onexit_actions="Lex")


TEXTS = ["", "a: b", "- x", '"q"', "back\\slash\\n", "line\nbreak", "# no comment", "[1, 2", "{a", "@at%", "'", "tab\there", "null", "12", "true", "nul\0in", "\x01\x7f",
         " lead and trail ", "*a &b !c |", "--- ..."]       # as in machine.hpp


def value(s):
    """An argument in the log -> number, or code of the text."""
    try:
        v = yaml.safe_load("- " + s)
        v = v[0] if isinstance(v, list) and len(v) == 1 else None
    except (yaml.YAMLError, ValueError):
        return -1
    if isinstance(v, int) and not isinstance(v, bool):
        return v
    return 100 + 2 * TEXTS.index(v) if v in TEXTS else -1


def texts(r, args):
    return [r.choice(range(100, 100 + 2 * len(TEXTS), 2)) if r.random() < 0.3 else x for x in args]


def record(x):
    """A log record -> (kind, state, args, active); kind Lbad if it isn't one the library writes."""
    act = [int(n) for n in NUM.findall(x.group(3))]
    k = KINDS.get(x.group(4), "Lbad")
    f, t, e = (int(NUM.search(x.group(n)).group()) for n in (5, 6, 7))
    args = [value(n) for n in x.group(9).split("\n    - ")[1:]]
    ok = 0 if x.group(8) else 1
    if k in ("Lt", "Le"):
        good, s, a = ok == 1, f, [t, e] + args
    elif k == "Li":
        good, s, a = (f, t, e, ok, args) == (0, 0, 0, 1, []), 0, []
    elif k == "Lx":
        good, s, a = (t, e, args) == (0, 0, []), f, [ok]
    elif k == "Ln":
        good, s, a = (f, e) == (0, 0), t, [ok] + args
    elif k == "Ls":
        good, s, a = (f, e, ok) == (0, 0, 1), t, args
    else:
        good, s, a = (f, e, ok, args) == (0, 0, 1, []), t, []
    return (k if good else "Lbad"), s, a, act


def parse(text):
    out, before, first = [], "", True
    for l in text.split("\n"):
        if l.startswith("RUN "):
            before, first = "", True
        if not l.startswith("B "):
            out.append(l)
            continue
        _, op, now, hx = l.split()
        now = now.replace("_", " ")
        s = bytes.fromhex(hx).decode("utf-8", "replace")
        if first and s.startswith("---\n"):
            s = s[4:]
            if s.startswith("\n-\n  before: 1"):
                s = s[len("\n-\n  before: 1"):]
        pos, bad = 0, first and not bytes.fromhex(hx).startswith(b"---\n")
        first = False
        while pos < len(s) and not bad:
            x = REC.match(s, pos)
            if not x:
                bad = True
                break
            pos = x.end()
            k, st, a, act = record(x)
            when = x.group(1) + " " + x.group(2)
            if when < before or when > now:
                k = "Lbad"
            out.append("O %s 1 %s %d %d %s %d %s" % (op, k, st, len(a), " ".join(map(str, a)), len(act), " ".join(map(str, act))))
        if bad:
            out.append("O %s 1 Lbad 0 0 0" % op)
        before = now
    return hsmgen.parse_out("\n".join(out))


def to_tla(rid, x, res):
    run = hsmgen.tla_run(rid, x[0], x[1], res)
    on = False
    for o in run["ops"]:
        if o["op"] == "lon":
            o["args"] = [0 if x[2] == "x" else 1]
            on = x[2] != "x"
        if o["op"] in ("loff", "rel"):
            on = False
        o["nolog"] = not on
    return run
