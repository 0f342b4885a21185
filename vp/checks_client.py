"""C12-C15: the RDAP client's routing, failover, classification, deadlines."""
import random
from . import core
from .core import NPROC
from .checks_boot import scripts_of, scripts, FAMILIES, random_scripts

OBJ = (["dom", "ip", "as", "ent", "ns", "help", "srch"] * 3 + ["rerr", "rerrnull", "rerrstr", "rerrbig", "rerrneg", "rerr0", "rerr200", "rerr404", "rerr429", "rerr500", "rerr1000", "rerr65535"] * 2
       + ["d%d" % c for c in (201, 202, 203, 206, 207, 226, 299)] + ["domws", "domhtmltype", "domnotype", "domrdap", "dombig"])
BAD = [300, 301, 302, 303, 304, 305, 307, 308, 400, 401, 402, 403, 405, 406, 408, 409, 410, 418, 421, 422, 425, 429, 451, 500, 501, 502, 503, 504, 507, 511, 599]
NF = ["nf", "nfbody"]
RETRY = ["neterr", "timeouterr", "cut", "nfcut", "html", "array", "badclass", "partial", "ws", "bom", "trail", "twice", "500", "empty", "204"] * 3 + ["%s%d" % (k, n) for n in BAD for k in "de"]
QUERIES = {
    "domain": [("x.example", "yes"), ("a.b.c.eXample.", "yes"), ("example", "yes"), ("x.unknown", "none"), ("notexample", "none"), ("example.unknown", "none")],
    "autnum": [("5", "yes"), ("as1", "yes"), ("AS10", "yes"), ("0010", "yes"), ("11", "none"), ("4294967295", "none"), ("4294967296", "bad"), ("asx", "bad"), ("x.example", "bad")],
    "entity": [("H-TAG", "yes"), ("--TAG", "yes"), ("H-TAG-X", "none"), ("TAG", "none"), ("TAG-", "none"), ("5", "none")],
    "ip": [("10.255.255.255", "yes"), ("10.0.0.0/8", "yes"), ("9.255.255.255", "none"), ("10.0.0.0/7", "none"), ("10.0.0", "bad"), ("10.0.0.0/33", "bad"),
           ("2001:db8:ffff::", "yes"), ("2001:db8::/32", "yes"), ("2001:db8::/31", "none"), ("2001:db7::", "none"), ("2001:DB8:0:1:2:3:4:5", "yes"), ("2001:db8:0:1:2:3:10.1.2.3", "yes"), ("1:2:3:4:5:6:7:8", "none"), ("10.1.2.3:80", "bad"), ("::1", "none"), ("1:2:3:4:5:6:7:8/64", "none"), ("2001:db8:::1", "bad"), ("5", "bad")],
}
OTHER = ["help", "nameserver", "domain-search", "domain-search-by-nameserver", "domain-search-by-nameserver-ip", "nameserver-search",
         "nameserver-search-by-ip", "entity-search", "entity-search-by-handle", "autnum-search", "url"]


def _pool(rng, k):
    """k different base URLs, some of them alike: of one host, one scheme, one port."""
    res = set()
    while len(res) < k:
        res.add("%s://%ss%d.example%s/%s" % (rng.choice(["https", "https", "http"]), rng.choice(["", "", "", "", "u@", "u:p@"]), rng.randint(1, 4), rng.choice(["", "", "", ":8443"]),
                                           rng.choice(["", "rdap/", "a/b", "v1/rdap/"])))
    res = sorted(res)
    rng.shuffle(res)
    return res


def sessions(rng, n, api_bias):
    res = []
    for _ in range(n):
        k = rng.choice([1, 1, 2, 3, 4])
        servers = _pool(rng, rng.choice([0, 1, 2, 3, 4, 5]))
        if servers and rng.random() < .12:      # a server listed twice
            servers.insert(rng.randint(0, len(servers)), rng.choice(servers))
        reqs = []
        for _ in range(k):
            api = rng.choice(["domain", "autnum", "ip"]) if rng.random() < api_bias else ("nil" if rng.random() < .02 else "do")
            t = api if api in ("domain", "autnum", "ip") else rng.choice(list(QUERIES) * 4 + OTHER)
            q, m = rng.choice(QUERIES.get(t, [("x.example", "yes"), ("5", "yes")]))
            server = rng.choice(["https://mine.example/", "https://mine.example", "http://mine.example:8080/rdap"]) if api == "do" and rng.random() < .2 else ""
            sv = [] if server else servers
            outs = []
            for _ in range(1 if server else len(sv)):
                x = rng.random()
                outs.append(rng.choice(RETRY) if x < .7 else rng.choice(OBJ) if x < .93 else rng.choice(NF))
            outs = [outs[sv.index(s)] for s in sv] if sv else outs
            far = ["none", "none", "30s", "10m", "1h", "2h"]
            reqs.append({"api": api, "type": t, "q": q, "server": server, "boot": "ok" if rng.random() < .85 else rng.choice(["neterr", "status", "malformed"]),
                         "match": m, "servers": sv, "outs": outs,
                         "ctx": rng.choice(far) if api == "do" else "none", "timeout": rng.choice(far) if api == "do" else "none"})
        res.append({"reqs": reqs})
    return res


def client(c, fam, bias):
    q = c.tier == "quick"
    cases = c.gen_cases("MCClient", cfg_text='CONSTANTS MaxServers = %d Family = "%s"\nINIT Init\nNEXT Next\nINVARIANTS Correct InOrder\nPROPERTY StopsAtDeadline\n'
                        % (5 if q else 6, fam), name="MCClient")
    if fam == "C15":
        view = None
    else:
        def view(x):
            x = x["steps"] if isinstance(x, dict) and "steps" in x else x
            return [s["r"] for s in x] if isinstance(x, list) else x
    for k in cases:
        k["exp"] = {"steps": k["exp"]}
    c.replay_cases(cases, "client", view=view, label="MCClient-" + fam, procs=NPROC, retry=fam == "C15")
    for r in range(3 if q else 12):
        rng = random.Random("client/%s/%d/%d" % (fam, c.seed, r))
        c.validate_traces("TrClient", sessions(rng, 2500, bias), "client", label="random-sessions", env={"PROP": fam}, procs=NPROC)
    c.assumptions += ["servers and the bootstrap service are HTTP transports of the harness; redirects are not followed",
                      "a context that has expired before an attempt is honoured by the transport"]


def C12(c):
    client(c, "C12", .1)


def C13(c):
    client(c, "C13", 0)


def C14(c):
    client(c, "C14", .9)


def C15(c):
    client(c, "C15", .2)


def C35(c):
    q = c.tier == "quick"
    r = core.tlc_ok("RequestUse", workers=1, heap="8g", keep=True, cfg_text='CONSTANTS Depth = %d More = %s\nINIT Init\nNEXT Next\nINVARIANTS Emit Repeatable\nPROPERTY Unmodified\n'
                    % ((2, "TRUE") if q else (3, "FALSE")))
    c.add_tlc("RequestUse", r)
    ins = scripts_of(r.out)
    c.validate_traces("TrClient", ins, "client", label="RequestUse", env={"PROP": "C35"}, procs=NPROC)
    for k in range(3 if q else 12):
        rng = random.Random("requse/%d/%d" % (c.seed, k))
        c.validate_traces("TrClient", [reused(rng) for _ in range(1500)], "client", label="random-reuse", env={"PROP": "C35"}, procs=NPROC)
    c.assumptions += ["one goroutine uses a request or client at a time"]


def C37(c):
    q = c.tier == "quick"
    r = core.tlc_ok("MCRes", cfg_text="CONSTANT MaxServers = %d\nSPECIFICATION Spec\nINVARIANTS Clean AtMostOne\nPROPERTY Ends\n" % (4 if q else 9))
    c.add_tlc("MCRes", r)
    # every fault of the bootstrap service and the file system, in every short history
    for fam, dq, dt in (("fail-disk", (4, 2, 2), (6, 3, 3)), ("fail-mem", (4, 3, 2), (6, 4, 3)), ("cohere", (3, 3, 1), (5, 3, 2))):
        sc = scripts(c, "MCBoot", "Depth = %d MaxVer = %d MaxTick = %d" % (dq if q else dt), "INVARIANT Refines", fam, 5000 if q else 50000)
        c.validate_traces("TrRes", [{"cfg": FAMILIES[fam], "ops": s} for s in sc], "resboot", label="MCBoot-" + fam, procs=NPROC, timeout=1500)
    # every sequence of server behaviours
    cases = c.gen_cases("MCClient", cfg_text='CONSTANTS MaxServers = %d Family = "C13"\nINIT Init\nNEXT Next\nINVARIANTS Correct\n' % (3 if q else 5), name="MCClient")
    ins = [k["in"] for k in cases]
    random.Random(c.seed).shuffle(ins)
    c.validate_traces("TrRes", ins[:6000 if q else 60000], "resclient", label="MCClient", procs=NPROC, timeout=1500)
    for k in range(3 if q else 12):
        rng = random.Random("res/%d/%d" % (c.seed, k))
        c.validate_traces("TrRes", sessions(rng, 2000, .3), "resclient", label="random-sessions", procs=NPROC)
        c.validate_traces("TrRes", random_scripts(rng, 800, {"fault": .5, "ext": 5}), "resboot", label="random-histories", procs=NPROC)
    c.assumptions += ["the caller does not keep a cached body or file open itself; a crash of the process is not considered"]


def reused(rng):
    """A session that runs and derives from the same request objects over and over."""
    servers = _pool(rng, rng.choice([1, 2, 3, 4]))
    mine = ["https://mine.example/", "https://mine.example", "http://mine.example:8080/rdap"]
    reqs = []
    for n in range(rng.randint(2, 6)):
        x = rng.random()
        if n == 0 or x < .35:
            t = rng.choice(list(QUERIES) * 3 + [o for o in OTHER if o != "url"])
            qq, m = rng.choice(QUERIES.get(t, [("x.example", "yes"), ("5", "yes")]))
            server = rng.choice(mine) if t not in QUERIES or rng.random() < .3 else ""
            r = {"api": "do", "type": t, "q": qq, "match": m, "server": server, "ctx": "none", "timeout": rng.choice(["none", "30s", "10m", "2h"]), "same": 0, "with": False,
                 "params": [[k, rng.choice(["1", "en", "a b", "x&y"])] for k in rng.sample(["lang", "page", "zz", "A"], rng.choice([0, 0, 1, 2]))]}
            if server and rng.random() < .4:
                r["with"] = True
        else:
            j = rng.randrange(len(reqs))
            r = dict(reqs[j], same=j + 1, **{"with": False})
            if rng.random() < .35:
                r.update({"server": rng.choice(mine), "with": True})
        sv = [] if r["server"] else servers
        outs = []
        for _ in range(1 if r["server"] else len(sv)):
            y = rng.random()
            outs.append(rng.choice(RETRY) if y < .6 else rng.choice(OBJ) if y < .9 else rng.choice(NF))
        reqs.append(dict(r, boot="ok" if rng.random() < .9 else rng.choice(["neterr", "status"]), servers=sv, outs=outs))
    return {"reqs": reqs}
