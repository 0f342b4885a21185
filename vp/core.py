"""Shared machinery: scratch space, harness build, TLC runs, evidence, verdicts."""
import atexit, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
GOROOT = "/opt/veriftools/go1.26.10"
TLC_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = os.cpu_count() or 4


class CheckError(Exception):
    """The check itself could not run (exit 2, never a violation)."""


class Crash(Exception):
    """The process executing the code under test died in that code."""


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="vp-")
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


def go_env():
    e = dict(os.environ)
    e.update(HOME="/root", GOROOT=GOROOT, GOTOOLCHAIN="local", GOPATH="/root/go",
             GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build",
             GOPROXY="off", GOWORK="off", GOFLAGS="-mod=mod -buildvcs=false", CGO_ENABLED="0")
    e["PATH"] = GOROOT + "/bin:/usr/local/bin:/usr/bin:/bin"
    return e


def _patch(src, pairs):
    s = open(src).read()
    for old, new in pairs:
        if s.count(old) != 1:
            raise CheckError("overlay: cannot patch %s (%r)" % (src, old))
        s = s.replace(old, new)
    return s


def make_overlay(d):
    """Overlay of the Go standard library: a virtual clock (time.Now and the
    mtimes of written files follow it), a recorder of file system accesses, and
    a stand-in for the network (net.Dialer).
    Nothing in /repo is instrumented."""
    os.makedirs(d, exist_ok=True)
    src = GOROOT + "/src/"
    rep = {}

    def put(path, text):
        f = os.path.join(d, path.replace("/", "_"))
        with open(f, "w") as h:
            h.write(text)
        rep[src + path] = f

    put("time/time.go", _patch(src + "time/time.go", [
        ("func Now() Time {\n", "func Now() Time {\n\tif verifOn.Load() != 0 {\n\t\tns := verifNs.Load()\n\t\treturn Unix(ns/1e9, ns%1e9)\n\t}\n")]))
    put("time/zz_verif.go", open(VERIF + "/overlay/time_verif.go.txt").read())
    put("os/file.go", _patch(src + "os/file.go", [
        ("\tn, e := f.write(b)\n", "\tn, e := verifWrite(f, b)\n\tverifTouch(f)\n"),
        ("\t\tm, e := f.pwrite(b, off)\n", "\t\tm, e := f.pwrite(b, off)\n\t\tverifTouch(f)\n"),
        ("\tn, handled, e := f.readFrom(r)\n", "\tn, handled, e := f.readFrom(r)\n\tif handled {\n\t\tverifTouch(f)\n\t}\n"),
        ("\tn, e := f.read(b)\n", "\tverifRead(f)\n\tn, e := f.read(b)\n"),
        ("\t\tm, e := f.pread(b, off)\n", "\t\tverifRead(f)\n\t\tm, e := f.pread(b, off)\n"),
        ("func Mkdir(name string, perm FileMode) error {\n", "func Mkdir(name string, perm FileMode) error {\n\tverifRecord(\"mkdir\", name)\n"),
    ]))
    put("os/file_unix.go", _patch(src + "os/file_unix.go", [
        ("func openFileNolog(name string, flag int, perm FileMode) (*File, error) {\n",
         "func openFileNolog(name string, flag int, perm FileMode) (*File, error) {\n\tverifOpen(name, flag)\n"),
        ("\tf.pfd.SysFile = s\n\treturn f, nil\n}\n\nfunc openDirNolog", "\tf.pfd.SysFile = s\n\tverifOpened(f, flag)\n\treturn f, nil\n}\n\nfunc openDirNolog"),
        ("func Remove(name string) error {\n", "func Remove(name string) error {\n\tverifRecord(\"remove\", name)\n"),
        ("func rename(oldname, newname string) error {\n", "func rename(oldname, newname string) error {\n\tverifRecord(\"rename\", newname)\n"),
        ("func Symlink(oldname, newname string) error {\n", "func Symlink(oldname, newname string) error {\n\tverifRecord(\"symlink\", newname)\n"),
    ]))
    put("os/file_posix.go", _patch(src + "os/file_posix.go", [
        ("\t\treturn f.wrapErr(\"truncate\", e)\n\t}\n", "\t\treturn f.wrapErr(\"truncate\", e)\n\t}\n\tverifTouch(f)\n")]))
    put("os/zz_verif.go", open(VERIF + "/overlay/os_verif.go.txt").read())
    put("net/dial.go", _patch(src + "net/dial.go", [
        ("func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n",
         "func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n\tif VerifDial != nil {\n\t\treturn VerifDial(ctx, network, address)\n\t}\n")]))
    put("net/zz_verif.go", open(VERIF + "/overlay/net_verif.go.txt").read())
    f = os.path.join(d, "overlay.json")
    with open(f, "w") as h:
        json.dump({"Replace": rep}, h)
    return f


_built = {}


def build_harness(race=False):
    """Builds the harness against /repo's working tree; returns the binary."""
    if race in _built:
        return _built[race]
    d = os.path.join(scratch(), "harness-race" if race else "harness")
    shutil.copytree(VERIF + "/harness", d)
    gomod = open(REPO + "/go.mod").read()
    gomod = re.sub(r"^module .*$", "module vh", gomod, count=1, flags=re.M)
    gomod += "\nrequire github.com/openrdap/rdap v0.0.0\nreplace github.com/openrdap/rdap => %s\n" % REPO
    open(d + "/go.mod", "w").write(gomod)
    shutil.copy(REPO + "/go.sum", d + "/go.sum")
    out = os.path.join(d, "vh")
    ov = make_overlay(os.path.join(scratch(), "overlay"))
    env = go_env()
    cmd = [GOROOT + "/bin/go", "build", "-overlay", ov, "-o", out]
    if race:
        env["CGO_ENABLED"] = "1"
        cmd.append("-race")
    r = subprocess.run(cmd + ["."], cwd=d, env=env, capture_output=True, text=True, timeout=600)
    if r.returncode != 0:
        raise CheckError("harness build failed:\n" + r.stderr[-4000:])
    _built[race] = out
    return out


def run_harness(lines, kind, race=False, timeout=600, workers=None, extra_env=None, procs=1):
    """Executes each input on the real code; returns the observations, in order."""
    exe = build_harness(race)
    if procs > 1 and len(lines) > procs:
        from concurrent.futures import ThreadPoolExecutor
        n = (len(lines) + procs - 1) // procs
        parts = [lines[i:i + n] for i in range(0, len(lines), n)]
        with ThreadPoolExecutor(procs) as ex:
            res = list(ex.map(lambda p: run_harness(p, kind, race, timeout, workers, extra_env), parts))
        return [o for r in res for o in r]
    d = tempfile.mkdtemp(prefix="h-", dir=scratch())
    inp, out = d + "/in", d + "/out"
    with open(inp, "w") as f:
        for l in lines:
            f.write(json.dumps(l, ensure_ascii=True, separators=(",", ":")) + "\n")
    env = go_env()
    for k in list(env):
        if k.lower().endswith("_proxy"):
            del env[k]
    env["VH_SCRATCH"] = d
    env["HOME"] = d + "/home"
    os.makedirs(env["HOME"])
    env.pop("XDG_CACHE_HOME", None)
    if extra_env:
        env.update(extra_env)
    cmd = [exe, kind, inp, out, str(workers or 1)]
    try:
        r = subprocess.run(cmd, env=env, capture_output=True, text=True, timeout=timeout, cwd=d, errors="replace")
    except subprocess.TimeoutExpired:
        raise CheckError("harness timed out (%s)" % kind)
    obs = []
    if os.path.exists(out):
        with open(out) as f:
            for l in f:
                try:
                    obs.append(json.loads(l))
                except ValueError:
                    break
    if r.returncode != 0 or len(obs) != len(lines):
        if r.returncode not in (0, 3) and re.search(r"^(fatal error|panic|WARNING: DATA RACE)", r.stderr, re.M) and REPO + "/" in r.stderr:
            c = Crash("%s" % kind)
            c.data = {"kind": kind, "stderr": r.stderr[:3000], "inputs": lines[:3]}
            raise c
        err = CheckError("harness failed (%s) rc=%d, %d of %d answered:\n%s" % (kind, r.returncode, len(obs), len(lines), r.stderr[-3000:]))
        err.stderr, err.obs, err.rc = r.stderr, obs, r.returncode
        raise err
    shutil.rmtree(d, True)
    return obs


class TLCResult:
    pass


_tlcn = 0


def tlc(module, cfg=None, env=None, workers=None, timeout=800, extra=(), heap="6g", cfg_text=None, deadlock=False):
    """Runs TLC on spec/<module>.tla; returns stats and output."""
    global _tlcn
    _tlcn += 1
    d = os.path.join(scratch(), "tlc%d" % _tlcn)
    shutil.copytree(VERIF + "/spec", d)
    cfgf = (cfg or module) + ".cfg"
    if cfg_text is not None:
        cfgf = "Gen%d.cfg" % _tlcn
        open(os.path.join(d, cfgf), "w").write(cfg_text)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + d, "-cp", TLC_CP, "tlc2.TLC",
           "-workers", str(workers or NPROC), "-metadir", d + "/states", "-noGenerateSpecTE"]
    if not deadlock:
        cmd.append("-deadlock")
    cmd += list(extra) + ["-config", cfgf, module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on " + module)
    r = TLCResult()
    r.rc, r.out, r.dir = p.returncode, p.stdout, d
    m = re.findall(r"^(\d+) states generated, (\d+) distinct states found", p.stdout, re.M)
    r.generated, r.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    m = re.search(r"The depth of the complete state graph search is (\d+)", p.stdout)
    r.depth = int(m.group(1)) if m else 0
    r.ok = p.returncode == 0 and "No error has been found" in p.stdout
    return r


def tlc_ok(module, keep=False, **kw):
    r = tlc(module, **kw)
    if not r.ok:
        raise CheckError("TLC reports an error in %s (a defect of the specification, not a verdict):\n%s" % (module, r.out[-4000:]))
    shutil.rmtree(r.dir, True)
    return r


def read_ndjson(path):
    with open(path) as f:
        return [json.loads(l) for l in f if l.strip()]


def write_ndjson(path, recs):
    with open(path, "w") as f:
        for r in recs:
            f.write(json.dumps(r, ensure_ascii=True, separators=(",", ":")) + "\n")


def canon(x):
    return json.dumps(x, sort_keys=True, separators=(",", ":"))


class Check:
    """One run of one property's check."""

    def __init__(self, prop, tier, seed, level="model_checking"):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        self.states = self.transitions = self.validated = 0
        self.samples, self.detail, self.assumptions = [], {}, []
        self.violations = []

    # -- bookkeeping
    def add_tlc(self, name, r):
        self.states += r.distinct
        self.transitions += r.generated
        d = self.detail.setdefault("tlc_runs", {})
        d[name] = {"distinct_states": r.distinct, "states_generated": r.generated, "depth": r.depth}

    def note(self, **kw):
        for k, v in kw.items():
            if isinstance(v, (int, float)) and isinstance(self.detail.get(k), (int, float)):
                self.detail[k] += v
            else:
                self.detail[k] = v

    def sample(self, x, limit=6):
        if len(self.samples) < limit:
            s = json.dumps(x)
            self.samples.append(x if len(s) < 4000 else s[:4000] + "...")

    def violate(self, what, data):
        self.violations.append((what, data))

    # -- generic flows
    def gen_cases(self, module, cfg=None, env=None, name=None, **kw):
        """Model -> code: TLC checks the model and writes inputs with expectations."""
        out = os.path.join(scratch(), "cases-%s-%d.ndjson" % (module, time.time_ns()))
        e = {"OUT": out}
        e.update(env or {})
        r = tlc_ok(module, cfg=cfg, env=e, **kw)
        self.add_tlc(name or cfg or module, r)
        if not os.path.exists(out):
            raise CheckError("TLC wrote no cases for " + module)
        cases = read_ndjson(out)
        os.unlink(out)
        return cases

    def replay_cases(self, cases, kind, view=None, label=None, race=False, timeout=600, workers=None, compare=None, procs=1, retry=False):
        """Runs spec-generated cases {in, exp} on the real code and compares."""
        obs = run_harness([c["in"] for c in cases], kind, race=race, timeout=timeout, workers=workers, procs=procs)
        bad = 0

        def differs(c, o):
            return compare(c, o) if compare else (None if canon(view(c["exp"]) if view else c["exp"]) == canon(view(o) if view else o) else "differs")

        for c, o in zip(cases, obs):
            diff = differs(c, o)
            if diff is not None and retry and bad < 5:
                # real time is involved: a loaded machine must not count
                for _ in range(2):
                    o = run_harness([c["in"]], kind, race=race, timeout=timeout)[0]
                    diff = differs(c, o)
                    if diff is None:
                        break
            if diff is not None:
                bad += 1
                if bad <= 5:
                    self.violate("%s: implementation departs from the specification (%s)" % (label or kind, diff),
                                 {"kind": kind, "in": c["in"], "expected": c["exp"], "observed": o})
        self.validated += len(cases)
        self.note(**{"replayed_" + (label or kind): len(cases)})
        for c, o in list(zip(cases, obs))[:: max(1, len(cases) // 2)][:2]:
            self.sample({"direction": "specification->code", "kind": kind, "in": c["in"], "observed": o})
        return obs

    def rejected(self, module, recs, cfg=None, label=None, env=None, timeout=600):
        """TLC's verdict on recorded executions: the (index, explanation) of those
        the specification does not allow."""
        tf = os.path.join(scratch(), "trace-%s-%d.ndjson" % (module, time.time_ns()))
        write_ndjson(tf, recs)
        e = {"TRACE": tf}
        e.update(env or {})
        r = tlc(module, cfg=cfg, env=e, timeout=timeout)
        os.unlink(tf)
        mism = re.findall(r'<<\s*"MISMATCH",\s*(\d+),\s*"((?:[^"\\]|\\.)*)"\s*>>', r.out)
        done = re.search(r'<<\s*"CONSUMED",\s*(\d+)\s*>>', r.out)
        if not r.ok or not done or int(done.group(1)) != len(recs):
            raise CheckError("trace validation with %s did not complete:\n%s" % (module, r.out[-4000:]))
        self.add_tlc(label or module, r)
        shutil.rmtree(r.dir, True)
        return [(int(i) - 1, exp) for i, exp in mism]

    def validate_traces(self, module, inputs, kind, cfg=None, label=None, race=False, timeout=600, workers=None, env=None, obs=None, procs=1, retry=0):
        """Code -> model: runs inputs on the real code, and lets TLC decide
        whether each recorded execution is one the specification allows.
        retry: real time is involved, a loaded machine must not count."""
        if obs is None:
            obs = run_harness(inputs, kind, race=race, timeout=timeout, workers=workers, procs=procs)
        recs = [{"in": i, "obs": o} for i, o in zip(inputs, obs)]
        if os.environ.get("VP_SENS"):
            from . import sens
            sens.report(self, module, recs, cfg, label, env, timeout)
        bad = self.rejected(module, recs, cfg, label, env, timeout)
        for _ in range(retry):
            if bad:
                idx = [i for i, _ in bad[:8]]
                recs2 = [{"in": recs[i]["in"], "obs": o} for i, o in zip(idx, run_harness([recs[i]["in"] for i in idx], kind, race=race, timeout=timeout))]
                for i, r in zip(idx, recs2):
                    recs[i] = r
                bad = [(idx[j], exp) for j, exp in self.rejected(module, recs2, cfg, label, env, timeout)]
        for i, exp in bad[:5]:
            self.violate("%s: recorded execution rejected by the specification" % (label or module),
                         {"kind": kind, "in": recs[i]["in"], "observed": recs[i]["obs"],
                          "specification": json.loads('"' + exp + '"') if exp else ""})
        self.validated += len(recs)
        self.note(**{"validated_" + (label or module): len(recs)})
        if recs:
            self.sample({"direction": "code->specification", "kind": kind, "in": recs[0]["in"], "observed": recs[0]["obs"]})
        return obs

    # -- verdict
    def finish(self):
        wall = time.time() - self.t0
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.validated, "samples": self.samples,
                           "detail": self.detail},
              "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(self.violations)}
        evdir = scratch() if os.environ.get("VP_NOEV") else VERIF + "/evidence"
        os.makedirs(evdir, exist_ok=True)
        with open(evdir + "/%s.json" % self.prop, "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        known = known_findings(self.prop)
        new = []
        for what, data in self.violations:
            k = next((x for x in known if x["match"] in canon(data)), None)
            if k:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
            else:
                new.append((what, data))
        if new:
            d = VERIF + "/out/" + self.prop
            os.makedirs(d, exist_ok=True)
            for i, (what, data) in enumerate(new[:3]):
                path = "%s/violation-%d.json" % (d, i + 1)
                with open(path, "w") as f:
                    json.dump({"property": self.prop, "what": what, "data": data}, f, indent=1)
                    f.write("\n")
                print("%s" % what)
                print("  " + json.dumps(data)[:1500])
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("%s: ok, %d states, %d transitions, %d executions of the real code checked, %.1fs" % (
            self.prop, self.states, self.transitions, self.validated, wall))
        return 0


def known_findings(prop):
    """known_findings.txt: 'known: property=<id> match=<json text> <what>' lines
    suppress exactly the violation whose replay data contains the text;
    'fixed: ...' lines suppress nothing."""
    res = []
    p = VERIF + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) match=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                res.append({"match": m.group(2), "what": m.group(3)})
    return res
