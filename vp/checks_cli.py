"""C27-C32, C34: the command line client (and its part of C25 and C26)."""
import json, random
from . import core
from .checks_boot import scripts_of
from .checks_request import auto_inputs
from .gen_docs import Docs

HOSTS = ["s1.example", "s2.example", "s3.example", "data.iana.org", "test.rdap.net", "bs1.example", "bs2.example", "rdap.example", "192.0.2.9"]
OUTS = ["dom", "d201", "d206", "domws", "ip", "as", "ent", "ns", "help", "rerr", "rerrnull", "rerrstr", "rerr404", "srch", "nf", "nfbody", "html", "array", "badclass", "partial", "ws", "bom", "500", "d500", "d403", "d410", "d429", "e400", "e503", "cut", "empty", "204", "neterr"]
GOOD = ["dom", "dom", "ent", "ip", "body"]
CERTS = ["good", "good", "good", "good", "wronghost", "untrusted", "expired", "future", "self"]


def group(runs, n, key=lambda r: r["xdg"]):
    """Cases of up to n runs that share a process (and a directory)."""
    by = {}
    for r in runs:
        by.setdefault(key(r), []).append(r)
    cases = []
    for rs in by.values():
        cases += [{"runs": rs[i:i + n]} for i in range(0, len(rs), n)]
    return cases


def sandboxed(r):
    return r["sandbox"] or "--exp=sandbox" in r["args"] or "sandbox" in r["args"]


def rng_of(c, what=""):
    return random.Random("cli/%s/%d/%s" % (c.prop, c.seed, what))


def model_runs(c):
    runs = c.gen_cases("MCCli", env={"PROP": c.prop, "TIER": c.tier}, name="MCCli-" + c.prop, heap="12g")
    rng = rng_of(c)
    rng.shuffle(runs)
    return runs, rng


def judge(c, cases, label, timeout=800, obs=None, retry=0, workers=8):
    n = 200
    for i in range(0, len(cases), n):
        part = cases[i:i + n]
        o = core.run_harness(part, "cli", workers=workers, timeout=timeout) if obs is None else obs[i:i + n]
        c.validate_traces("TrCli", part, "cli", label=label, obs=o, env={"PROP": c.prop}, timeout=timeout, retry=retry)
    n = sum(len(x["runs"]) for x in cases)
    c.validated += n - len(cases)
    c.note(cli_runs=n)


# -- random command lines and worlds, within what the specification settles

def text_of(tree, r):
    """A JSON text for a document tree, with random white space and escapes."""
    def ws():
        return "" if r.random() < .7 else "".join(r.choice(" \t\n\r") for _ in range(r.randint(1, 3)))

    def st(s):
        out = ""
        for ch in s:
            o = ord(ch)
            if ch in '"\\' or o < 32:
                out += {'"': '\\"', "\\": "\\\\", "\n": "\\n", "\r": "\\r", "\t": "\\t"}.get(ch, "\\u%04x" % o)
            elif ch == "/" and r.random() < .3:
                out += "\\/"
            elif o < 0x10000 and r.random() < .05:
                out += "\\u%04x" % o if r.random() < .5 else "\\u%04X" % o
            else:
                out += ch
        return '"' + out + '"'

    def go(t):
        k = t[0]
        if k == "z":
            return "null"
        if k == "b":
            return "true" if t[1] else "false"
        if k == "n":
            return t[1]
        if k == "s":
            return st(t[1])
        if k == "a":
            return "[" + ws() + ("," + ws()).join(ws() + go(x) + ws() for x in t[1]) + "]"
        return "{" + ws() + ",".join(ws() + st(n) + ws() + ":" + ws() + go(v) + ws() for n, v in t[1]) + "}"
    return ws() + go(tree) + ws()


OPTS = [["-v"], ["--verbose"], ["-k"], ["--insecure"], ["--no-insecure"], ["--text"], ["-w"], ["--whois"], ["-j"], ["--json"], ["-r"], ["--raw"], ["-rj"], ["-wv"], ["--no-json"],
        ["-T", "20"], ["-T9"], ["--timeout=40"], ["--bs-ttl=0"], ["--bs-ttl", "60"], ["-t", "domain"], ["-tip"], ["--type=autnum"], ["--type", "entity"], ["--type=ns"], ["--type=help"],
        ["--type=domain-search"], ["-s", "https://s1.example/x"], ["--server=s2.example"], ["-shttp://s3.example/a/b/"], ["--server", "https://rdap.example?a=b"], ["--exp=object_tag"], ["--exp", "test_rdap_net"],
        ["-e"], ["--bs-url=https://bs1.example/r"], ["--bs-url", "http://bs2.example/"], ["-f", "all"], ["--fetch=x"], ["--cert={P}/client1.pem", "-K{P}/client1.key"], ["-P", "{P}/secret.p12:s:cret"],
        ["-C", "{P}/client2.pem", "--key={P}/client2.key"], ["--p12={P}/nopass.p12"]]
BAD = [["--bogus"], ["-x"], ["--timeout=99999"], ["--type=Domain"], ["--exp=x"], ["--cert={P}/client1.pem"], ["--p12={P}/garbage"], ["--bs-url=%zz"], ["--server=%zz"], ["-V"], ["-h"], ["--server="], ["-t", ""]]
QUERIES = ["x.example", "a.b.example", "x.nowhere", "192.0.2.1", "10.0.0.0/8", "2001:db8::1", "2001:db8::/32", "AS64500", "as1", "64500", "H-TEST", "H-NOPE", "-T", "https://s1.example/r/domain/x", "http://s3.example/y?z=1", "a b", "100%"]


def world(r, certs=("good",), outs=OUTS, bs=("boot",) * 6 + ("boot500", "bootbad", "bootcut", "neterr")):
    w = []
    for h in HOSTS:
        boot = h in ("data.iana.org", "test.rdap.net", "bs1.example", "bs2.example")
        out = r.choice(bs) if boot else (r.choice(GOOD) if r.random() < .6 else r.choice(outs))
        if not boot and r.random() < .05:
            out = "redir:" + r.choice(["https://s3.example/p/q", "http://rdap.example/z?a=b"])
        w.append({"host": h, "out": out, "cert": r.choice(certs)})
    return w


def safe_world(w):
    # redirections that lead to a redirection again could go on for ever
    for h in w:
        if h["host"] in ("s3.example", "rdap.example") and h["out"].startswith("redir:"):
            h["out"] = "dom"
    return w


def servers(r):
    s = ["https://s1.example/rdap/", "https://s2.example", "http://s3.example/x", "https://rdap.example/y/", "https://192.0.2.9/z", "http://nowhere.example/", "https://s3.example/r"]
    r.shuffle(s)
    return s[:r.choice([0, 1, 1, 1, 2, 2, 3, 4])]


def a_run(r, g, opts=OPTS, bad=.12, certs=("good",), mem=True, queries=QUERIES):
    parts = [r.choice(opts) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4]))]
    if r.random() < bad:
        parts.append(r.choice(BAD))
    if r.random() < .9:      # mostly without repeated options, which are an error
        seen, keep = set(), []
        for p in parts:
            n = {"--verbose": "-v", "--insecure": "-k", "--no-insecure": "-k", "--whois": "-w", "--json": "-j", "--no-json": "-j", "--raw": "-r", "--timeout": "-T", "--type": "-t", "--server": "-s", "--p12": "-P", "--cert": "-C"}
            names = []
            for a in p:
                if a.startswith("--"):
                    a = a.split("=")[0]
                    names.append(n.get(a, a))
                elif a.startswith("-"):
                    names += ["-" + ch for ch in a[1:]] if a in ("-rj", "-wv") else [a[:2]]
            if not seen & set(names):
                seen |= set(names)
                keep.append(p)
        parts = keep
    if r.random() < .96:
        q = r.choice(queries)
        combined = any(a in ("-rj", "-wv") for p in parts for a in p)
        parts.append(["--", q] if q.startswith("-") else [q])
        if q.startswith("-") and combined:
            parts = [p for p in parts if p not in (["-rj"], ["-wv"])]
    if parts and parts[-1][0] == "--":
        last = parts.pop()
        r.shuffle(parts)
        parts.append(last)
    else:
        r.shuffle(parts)
    args = [a for p in parts for a in p]
    if mem:
        args = ["--cache-dir", ""] + args
    body = text_of(g, r) if g else "{}"
    return {"proc": 1, "args": args, "sandbox": False, "now": 0, "xdg": "", "servers": servers(r), "hosts": safe_world(world(r, certs)), "body": list(body.encode("utf-8", "surrogatepass")), "pre": []}


def schema_of(c):
    return c.gen_cases("MCPrint", env={"ODD": "no"}, name="schema")[0]["schema"]


def docs_of(c, rng, **kw):
    g = Docs(rng, schema_of(c), **kw)

    def doc():
        return g.whoisish() if rng.random() < .5 else g.members_doc(1)
    return doc


def random_runs(c, n, label="random-runs", size=20, docs=None, **kw):
    rng = rng_of(c, "random")
    docs = docs or docs_of(c, rng, wrong=.05, fill=.3)
    judge(c, group([a_run(rng, docs(), **kw) for _ in range(n)], size), label)


def cli_streams(c, n, opts=([["-w"], ["-w"], ["--text"], ["--whois"], ["-v"]]), **kw):
    """Part of C25 and C26: the same through the command line."""
    rng = rng_of(c, "streams")
    docs = docs_of(c, rng, **kw)
    runs = []
    for _ in range(n):
        r = a_run(rng, docs(), opts=list(opts), bad=0)
        r["servers"] = ["https://s1.example/"]
        for h in r["hosts"]:
            h["out"] = "boot" if h["host"] == "data.iana.org" else "body"
        r["args"] = [a for a in r["args"] if a not in QUERIES and a != "--"] + ["x.example"]
        runs.append(r)
    judge(c, group(runs, 20), "command-line-output")


def C27(c):
    q = c.tier == "quick"
    runs, rng = model_runs(c)
    judge(c, group(runs, 25), "command-lines")
    random_runs(c, 500 if q else 8000, certs=["good"] * 12 + ["self"])
    # several formats at once
    cli_streams(c, 150 if q else 3000, opts=[["--text"]] * 4 + [["-w"], ["-r"], ["-j"], ["--raw"], ["-rj"], ["-v"]], wrong=.02, fill=.3)


def C28(c):
    q = c.tier == "quick"
    runs, rng = model_runs(c)
    judge(c, group(runs, 25), "bodies")
    rng = rng_of(c, "bodies")
    doc = docs_of(c, rng, wrong=.2, ctrl=.15, fill=.3)
    more = []
    for _ in range(250 if q else 6000):
        r = a_run(rng, doc(), opts=[["-r"], ["-j"], ["--raw"], ["--json"]], bad=0, queries=["x.example"])
        if not {"-r", "-j", "--raw", "--json"} & set(r["args"]):
            r["args"].append("-r")
        n = rng.choice([1, 1, 2, 3, 4])
        names = ["s1.example", "s2.example", "s3.example", "rdap.example"]
        rng.shuffle(names)
        r["servers"] = ["http%s://%s/" % (rng.choice(["", "s"]), h) for h in names[:n]]
        k = rng.randrange(n + 1)
        for h in r["hosts"]:
            if h["host"] in names:
                i = names.index(h["host"])
                h["out"] = "body" if i == k else rng.choice([o for o in OUTS if o not in ("nf", "nfbody")]) if i < k else rng.choice(OUTS + ["body"])
            elif h["host"] == "data.iana.org":
                h["out"] = "boot"
        b = bytes(r["body"])
        if rng.random() < .2:       # bytes that are not UTF-8, inside a string
            r["body"] = list(b.replace(b"x", bytes([rng.choice([0xff, 0xc0, 0xed, 0x80])])) if b.count(b"x") else b)
        if rng.random() < .1:
            r["body"] = [0x20, 0x0a] * rng.randint(1, 200) + list(b)
        more.append(r)
    judge(c, group(more, 20), "random-bodies")
    c.assumptions.append("documents decode: whether a response is acceptable is the business of C13 and C18")


def C29(c):
    q = c.tier == "quick"
    runs, rng = model_runs(c)
    judge(c, group(runs, 25), "command-lines")
    random_runs(c, 400 if q else 8000, bad=.03)
    rng = rng_of(c, "queries")
    types = ["domain", "dns", "autnum", "as", "asn", "ip", "nameserver", "ns", "entity", "entity-search", "entity-search-by-handle", "domain-search", "domain-search-by-nameserver",
             "domain-search-by-nameserver-ip", "nameserver-search", "nameserver-search-by-ip", "autnum-search", "help"]
    more = []
    for x in auto_inputs(rng, 700 if q else 12000):
        t = bytes(x["t"]).decode()
        if not all(32 <= b < 127 for b in x["t"]) or t.startswith("@"):
            continue
        if t.lower().startswith("http"):
            ty = rng.choice(types)
        else:
            ty = rng.choice(types + ["autnum", "ip"] * 4 + [""] * 20)
        r = a_run(rng, None)
        sv = rng.choice(["https://s1.example/rdap/", "http://s3.example", "s1.example/r", "https://rdap.example:443/a%20b/?k=v"])
        args = [rng.choice([["-s", sv], ["--server=" + sv]])] + ([rng.choice([["-t", ty], ["-t" + ty], ["--type=" + ty]])] if ty else [])
        rng.shuffle(args)
        r["args"] = ["--cache-dir="] + [a for p in args for a in p] + (["--", t] if t.startswith("-") else [t])
        for h in r["hosts"]:
            h["out"] = "dom"
        more.append(r)
    judge(c, group(more, 25), "random-queries")


def C30(c):
    q = c.tier == "quick"
    runs, rng = model_runs(c)
    key = lambda r: (r["xdg"], sandboxed(r))
    judge(c, group(runs, 12, key), "command-lines")
    rng = rng_of(c, "files")
    names = ["{P}/client1.pem", "{P}/client1.key", "{P}/secret.p12", "{P}/nopass.p12", "{D}/mine/f", "../mine/f", "DigiCert_RDAP_Pilot_Client_Certificate.p12", "DigiCert_RDAP_Pilot_Client_Certificate_Expired.p12",
             "x/../DigiCert_RDAP_Pilot_Client_Certificate.p12", "sandbox/DigiCert_RDAP_Pilot_Client_Certificate.p12", "..", ".", "/", "~", "{D}", "{D}/home", "{D}/home/.cache/openrdap/dns.json", "DigiCert_RDAP_Pilot_Client_Certificate.p12 ", "file.go", "*", "%2e%2e/file.go", "DigiCert_RDAP_Pilot_Client_Certificate"]
    more = []
    for _ in range(250 if q else 5000):
        sb = rng.random() < .8
        args = []
        if rng.random() < .7:
            args += [rng.choice(["--p12=", "-P"]) + rng.choice(names) + rng.choice(["", ":", ":rdap", ":rdap", ":x:y"])]
        if rng.random() < .25:
            args += ["--cert=" + rng.choice(names), "--key=" + rng.choice(names)]
        if rng.random() < .6:
            args += ["--cache-dir=" + rng.choice(["", "{D}/mine/%d" % len(more), "{D}/mine/f", "rel", "../x", "{D}/home/.cache", "default", "./default", "{D}/mine/f/sub"])]
        if sb and rng.random() < .1:
            args += [rng.choice(["@{D}/mine/f", "@", "@{P}/client1.key", "@x", "@@"])]
        if rng.random() < .2:
            args += ["-v"]
        args += [rng.choice(["x.example", "192.0.2.1", "AS5", "H-TEST"])]
        rng.shuffle(args)
        caller = rng.random() < .5
        if sb and not caller:
            args.insert(rng.randrange(len(args) + 1), "--exp=sandbox")
        r = a_run(rng, None)
        r.update(args=args, sandbox=sb and caller, pre=[["file", "{D}/mine/f"]], xdg=rng.choice(["", "", "{D}/xdg", "rel"]), servers=["https://s1.example/r"])
        for h in r["hosts"]:
            h["out"] = "boot" if h["host"] == "data.iana.org" else "dom"
        more.append(r)
    judge(c, group(more, 12, key), "random-file-options")


def C31(c):
    q = c.tier == "quick"
    runs, rng = model_runs(c)
    # one process each for many runs: --insecure must not outlive its run
    judge(c, group(runs, 25), "command-lines")
    random_runs(c, 400 if q else 6000, certs=CERTS, bad=.03, opts=OPTS + [["-k"], ["--insecure"]] * 4)


def C32(c):
    q = c.tier == "quick"
    r = core.tlc_ok("MCCliHist", workers=1, heap="12g", timeout=1500, keep=True,
                    cfg_text="CONSTANTS Depth = %d\nINIT Init\nNEXT Next\nVIEW View\nPROPERTY Shares Isolated MemoryKeepsNothing FailuresKeepOld\n" % (2 if q else 3))
    c.add_tlc("MCCliHist", r)
    hist = [h for h in scripts_of(r.out) if len(h) > 1]
    rng = rng_of(c, "histories")
    rng.shuffle(hist)
    cases = []
    for h in hist[:450 if q else 12000]:
        if rng.random() < .5:
            for i, x in enumerate(h):
                x["proc"] = i
        if rng.random() < .5:  # the services' files never change
            for x in h:
                x["servers"] = h[0]["servers"]
        cases.append({"runs": h})
    judge(c, cases, "histories", workers=16)
    # the end of a period, whatever its length
    edges = []
    for n in (1, 2, 10, 59, 60, 61, 900, 3599, 3600, 3601, 7200, 86399, 86400, 86401, 172800, 604800, 2592000, 31536000):
        for d in ([], ["--cache-dir={D}/c/d"]):
            for svc in ([], ["--bs-url=https://bs1.example/r"]):
                runs = []
                for i, now in enumerate((0, n - 1, n + 1, n + 2, 2 * n + 2)):
                    x = a_run(rng, None)
                    x.update(args=d + svc + (["--bs-ttl=%d" % n] if n != 3600 or rng.random() < .5 else []) + ["x.example"], now=now, xdg="", pre=[], proc=i % 2 and i, servers=["https://s1.example/a"])
                    if runs and x["proc"] < runs[-1]["proc"]:
                        x["proc"] = runs[-1]["proc"]
                    for h in x["hosts"]:
                        h["out"] = "boot" if h["host"] in ("data.iana.org", "bs1.example") else "dom"
                    runs.append(x)
                edges.append({"runs": runs})
    judge(c, edges, "period-ends", workers=16)
    # longer histories, with more directories, periods and services
    more = []
    for _ in range(45 if q else 1500):
        runs, now, blocked, xdg = [], rng.choice([0, 1000]), False, rng.choice(["", "", "{D}/xdg", "{D}/x/y", "rel/cache"])
        dirs = [[], [], ["--cache-dir={D}/c/d"], ["--cache-dir", "{D}/c/d/"], ["--cache-dir=rel/a"], ["--cache-dir="], ["--cache-dir=default"], ["--cache-dir={D}/c/../e"], ["--cache-dir={D}/b/x/y"], ["--cache-dir=."], ["--cache-dir", " x "], ["--cache-dir=$HOME/c"], ["--cache-dir=~/c"], ["--cache-dir={D}/c/%d"]]
        rng.shuffle(dirs)
        dirs = dirs[:3]
        v = 0
        for i in range(rng.randint(5, 14)):
            now += rng.choice([0, 0, 1, 9, 10, 11, 59, 60, 1800, 3599, 3600, 3601, 100000])
            svc = rng.choice([[], [], ["--bs-url=https://bs1.example/r"], ["--bs-url", "http://bs2.example/a/b/"], ["-e"], ["--bs-url=https://bs1.example/"]])
            ttl = rng.choice([[], [], [], ["--bs-ttl=10"], ["--bs-ttl", "0"], ["--bs-ttl=60"], ["--bs-ttl=4294967295"], ["--bs-ttl=3601"], ["--bs-ttl=1"]])
            ask = [rng.choice(["x.example", "x.example", "192.0.2.1", "2001:db8::1", "AS5", "H-TEST", "x.nowhere"])]
            if rng.random() < .1:
                ask = ["-s", "https://s1.example/"] + ask
            parts = [rng.choice(dirs), svc, ttl, ask]
            rng.shuffle(parts)
            pre = []
            if i and rng.random() < .12:
                pre = [["rmdir", rng.choice(["{D}/c", "{D}/home/.cache", "{D}/c/d", "{D}/cwd/rel", "{D}/xdg", "{D}/b"])]]
            elif i and not blocked and rng.random() < .06:
                blocked = True
                pre = [["rmdir", "{D}/b"], ["file", "{D}/b"]]
            x = a_run(rng, None)
            v = v + 1 if rng.random() < .4 else v
            x.update(args=[a for p in parts for a in p], now=now, xdg=xdg, pre=pre, proc=i if rng.random() < .6 else max(0, i - 1),
                     servers=[["https://s1.example/v%d" % v], ["https://s3.example/v%d" % v, "https://s1.example/"]][v % 2])
            if runs and x["proc"] < runs[-1]["proc"]:
                x["proc"] = runs[-1]["proc"]
            for h in x["hosts"]:
                h["out"] = (rng.choice(["boot"] * 6 + ["boot500", "bootbad", "bootcut", "neterr"])) if h["host"] in ("data.iana.org", "bs1.example", "bs2.example", "test.rdap.net") else "dom"
            runs.append(x)
        more.append({"runs": runs})
    judge(c, more, "random-histories", workers=16)
    c.assumptions.append("HOME is set; slash variants of one service URL in one directory are left open")


def C34(c):
    runs, rng = model_runs(c)
    cases = [{"runs": [r]} for r in runs]
    obs = core.run_harness(cases, "cli", workers=32)
    c.validate_traces("TrCli", cases, "cli", label="timed-runs", obs=obs, env={"PROP": c.prop}, retry=2)
