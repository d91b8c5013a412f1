"""Shared machinery: building /repo's sources, running TLC, evidence, verdicts."""
import concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HSM_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
NCPU = os.cpu_count() or 4
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
DEFS = ["-DHSMBUILD_DEBUGGING", "-DHSM_ENABLE_SAFE_STRUCTURE", "-DHSM_LOGGING_MODE_OFF", "-DPLATFORM_POSIX=1"]


class CheckError(Exception):
    """The machinery itself failed (exit code 2): neither a pass nor a violation."""


def scratch(prefix):
    base = os.environ.get("TMPDIR", "/tmp")
    return tempfile.mkdtemp(prefix="hsmv_%s_" % prefix, dir=base)


# ---------------------------------------------------------------------------------------------------------- build
def repo_sources(dispatchers=("Base",)):
    src = []
    for f in sorted(glob.glob(REPO + "/src/*.cpp")):
        b = os.path.basename(f)
        if b.startswith("HsmEventDispatcher"):
            if b[len("HsmEventDispatcher"):-4] in dispatchers:
                src.append(f)
        else:
            src.append(f)
    for d in ("common", "stl", "posix"):
        src += sorted(glob.glob(REPO + "/src/os/%s/*.cpp" % d))
    return src


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


PKGS = dict(GLib=["glib-2.0"], GLibmm=["glibmm-2.4"], Qt=["Qt5Core"])


def build(out, harness, dispatchers=("Base",), flags=(), libs=(), harness_flags=(), cxx="g++", defs=None, only_repo_flags=()):
    """Compiles the working tree's sources and our harness; returns the executable's path."""
    os.makedirs(out, exist_ok=True)
    flags, libs, harness = list(flags), list(libs), list(harness)
    for d in dispatchers:
        if d in PKGS:
            flags += run(["pkg-config", "--cflags"] + PKGS[d]).stdout.split()
            libs += run(["pkg-config", "--libs"] + PKGS[d]).stdout.split()
        if d == "Qt":
            flags.append("-fPIC")
            h = os.path.join(REPO, "include/hsmcpp/HsmEventDispatcherQt.hpp")
            r = run(["moc", h, "-o", out + "/moc_Qt.cpp"])
            if r.returncode != 0:
                raise CheckError("moc failed:\n" + r.stdout)
            harness.append(out + "/moc_Qt.cpp")
    defs = DEFS if defs is None else defs
    jobs = []
    for f in repo_sources(dispatchers):
        jobs.append((f, list(flags) + list(only_repo_flags)))
    for f in harness:
        jobs.append((f, list(flags) + list(harness_flags)))
    objs = []

    def comp(job):
        f, fl = job
        o = os.path.join(out, hashlib.md5(f.encode()).hexdigest()[:8] + "_" + os.path.basename(f) + ".o")
        r = run([cxx, "-std=c++11", "-g", "-w", "-I" + REPO + "/include", "-I" + VERIF + "/harness"] + defs + fl + ["-c", f, "-o", o])
        return f, o, r

    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        for f, o, r in ex.map(comp, jobs):
            if r.returncode != 0:
                raise CheckError("cannot compile %s:\n%s" % (f, r.stdout[-3000:]))
            objs.append(o)
    exe = os.path.join(out, "harness")
    r = run([cxx] + objs + list(flags) + ["-o", exe, "-lpthread", "-ldl"] + list(libs))
    if r.returncode != 0:
        raise CheckError("cannot link:\n" + r.stdout[-3000:])
    return exe


# ------------------------------------------------------------------------------------------------------------ TLC
def tlc(module, cfg=None, env=None, workers=None, work=None, timeout=800, extra=(), heap="6g"):
    """Runs TLC; returns dict(out, rc, states, distinct, ok, violated)."""
    spec = os.path.join(VERIF, "spec")
    e = dict(os.environ)
    e.update(env or {})
    own = work or scratch("tlc")
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + own, "-cp", TLA_CP, "tlc2.TLC", "-workers", str(workers or NCPU),
           "-metadir", os.path.join(own, "states"), "-noGenerateSpecTE", "-config", cfg or (module + ".cfg")] + list(extra) + [module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=spec, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as x:
        raise CheckError("TLC timed out on %s after %ss" % (module, timeout))
    finally:
        shutil.rmtree(os.path.join(own, "states"), ignore_errors=True)
        if work is None:
            shutil.rmtree(own, ignore_errors=True)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    res = dict(out=out, rc=rc, states=int(m.group(1)) if m else 0, distinct=int(m.group(2)) if m else 0,
               ok=(rc == 0 and "No error has been found" in out), violated=None)
    v = re.search(r"Invariant (\w+) is violated|Error: Action property (\w+) is violated|Temporal properties were violated", out)
    if v:
        res["violated"] = v.group(1) or v.group(2) or "temporal"
    elif not res["ok"]:
        raise CheckError("TLC failed on %s (rc %d):\n%s" % (module, rc, out[:1500] + "\n...\n" + out[-2500:]))
    return res


# ------------------------------------------------------------------------------------------------------ verdicts
class Check:
    def __init__(self, prop, level):
        self.prop, self.level, self.t0 = prop, level, time.time()
        self.cov = {}
        self.assumptions = []
        self.viol = 0
        self.known = load_known()
        self.dir = scratch(prop)

    def violation(self, name, payload):
        """Records a violation and where to find what is needed to replay it."""
        d = os.path.join(EVIDENCE, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s_%s.json" % (self.prop, name))
        with open(p, "w") as f:
            json.dump(payload, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)
        self.viol += 1

    def known_finding(self, text):
        print("KNOWN-FINDING: property=%s %s" % (self.prop, text), flush=True)

    def finish(self):
        ev = dict(property=self.prop, tier=TIER, seed=SEED, level=self.level, coverage=self.cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=self.viol)
        os.makedirs(EVIDENCE, exist_ok=True)
        with open(os.path.join(EVIDENCE, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.dir, ignore_errors=True)
        print("%s: %s, %s, %.1fs" % (self.prop, "VIOLATED" if self.viol else "held", {k: v for k, v in self.cov.items() if isinstance(v, int)},
                                     time.time() - self.t0), flush=True)
        return 1 if self.viol else 0


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def main(fn):
    try:
        sys.exit(fn())
    except CheckError as e:
        print("CHECK ERROR: %s" % e, flush=True)
        sys.exit(2)
