"""C01-C05: bootstrap clients, caches, services and time."""
import json, random, re, time
from . import core
from .core import NPROC

# the configurations of MCBoot.tla
IANA, A, B = "https://data.iana.org/rdap/", "https://bootstrap.example/rdap", "https://bootstrap.example/other/"
C = "http://data.iana.org/rdap/"


def D(n, ttl=2):
    return {"kind": "disk", "dir": 1, "svc": n, "ttl": ttl}


def M(n, ttl=2):
    return {"kind": "mem", "dir": 0, "svc": n, "ttl": ttl}


def cfg(clients, svcs, types, dirs=1, same=False):
    return {"clients": clients, "svcs": svcs, "types": types, "dirs": dirs, "same": same, "pad": 0}


FAMILIES = {
    "fresh-disk": cfg([D(1)], [IANA], ["dns"]),
    "fresh-mem": cfg([M(1)], [A], ["asn"]),
    "share": cfg([D(1), D(1)], [B], ["ipv4"]),
    "fail-disk": cfg([D(1)], [IANA], ["ipv6", "tag"]),
    "fail-mem": cfg([M(1)], [IANA], ["dns", "tag"]),
    "same": cfg([D(1), M(1)], [IANA], ["ipv4"], same=True),
    "cohere": cfg([D(1), D(1)], [IANA], ["dns"]),
    "isolate": cfg([D(1), D(2), M(1)], [IANA, C], ["ipv4", "asn"]),
    "types": cfg([D(1), D(2)], [A, B], ["dns", "ipv4", "ipv6", "asn", "tag"]),
}


def scripts_of(text):
    return [json.loads(json.loads(m.group(1))) for m in re.finditer(r'^<<"S", ("(?:[^"\\]|\\.)*")>>$', text, re.M)]


def scripts(c, module, consts, props, fam, cap):
    """TLC explores the family's histories and hands out one script per transition."""
    r = core.tlc(module, workers=1, heap="8g", cfg_text='CONSTANTS Family = "%s" %s\nINIT Init\nNEXT Next\nVIEW View\n%s\n' % (fam, consts, props))
    if not r.ok:
        raise core.CheckError("TLC reports an error in %s/%s:\n%s" % (module, fam, "\n".join(
            l for l in r.out.split("\n") if not l.startswith('<<"S"'))[-3000:]))
    c.add_tlc(module + "-" + fam, r)
    out = scripts_of(r.out)
    # a script that another one extends is redundant
    pre = set()
    for s in out:
        for i in range(1, len(s)):
            pre.add(core.canon(s[:i]))
    full = [s for s in out if core.canon(s) not in pre]
    c.note(**{"transitions_" + fam: len(out), "scripts_" + fam: len(full)})
    if len(full) > cap:
        random.Random(c.seed).shuffle(full)
        full = full[:cap]
    return full


FAULTS = ["neterr", "status", "short", "malformed", "savefail"]
UNUSABLE = ["corrupt", "empty", "trunc", "wrongtype", "dir"]


def random_scripts(rng, n, bias):
    """Long random histories over random configurations."""
    res = []
    # services that differ in any one part of the URL
    pool = [IANA, A, B, C, "http://127.0.0.1:8080", "https://bootstrap.example/x/y/z/", "http://bootstrap.example/rdap", "https://bootstrap.example:8443/rdap",
            "https://bootstrap.example/RDAP", "https://u@bootstrap.example/rdap", "https://data.iana.org/rdap/v2/", "https://data.iana.org", "https://iana.org/rdap/",
            "https://bootstrap.example/rd/ap", "https://bootstrap.exampl/e/rdap", "https://data.iana.org:444/rdap/", "https://data.iana.org/RDAP/"]
    for _ in range(n):
        ns = rng.choice([1, 1, 2, 3])
        svcs = rng.sample(pool, ns)
        types = rng.sample(["dns", "ipv4", "ipv6", "asn", "tag"], rng.choice([1, 1, 2, 3, 5]))
        cl = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            k = rng.random()
            v, t = rng.randint(1, ns), rng.choice([1, 2, 3, 24])
            cl.append({"kind": "disk", "dir": rng.randint(1, 2), "svc": v, "ttl": t} if k < .7 else
                      M(v, t) if k < .9 else {"kind": "default", "dir": 0, "svc": v, "ttl": 24})
        ops = []
        used = sorted({(x["dir"], x["svc"]) for x in cl if x["kind"] == "disk"})
        for _ in range(rng.randint(6, 30)):
            c, t = rng.randint(1, len(cl)), rng.choice(types)
            disk = cl[c - 1]["kind"] == "disk"
            f = "ok" if rng.random() > bias.get("fault", .25) else rng.choice(FAULTS)
            if f == "savefail" and not disk:
                f = "malformed"
            k = rng.choices(["lookup", "get", "download", "tick", "ttl", "ext", "race", "new", "rmdir", "client", "seed"],
                            [10, 5, 2, bias.get("tick", 4), 1.5, bias.get("ext", 3), bias.get("race", 1), 1, .3, 1, .7])[0]
            if k == "lookup":
                ops.append({"op": k, "c": c, "t": t, "f": f, "q": rng.choice(["hit"] * 6 + ["miss", "bad"])})
            elif k == "download":
                ops.append({"op": k, "c": c, "t": t, "f": f})
            elif k == "get":
                ops.append({"op": k, "c": c, "t": t})
            elif k == "tick":
                # no age ever comes near the exact default timeout of 24 ticks
                small = sum(o["op"] == "tick" and o["n"] == 1 for o in ops)
                ops.append({"op": k, "n": 30 if small > 14 or rng.random() < .05 else 1})
            elif k == "ttl":
                # a default client has no cache object before its first use
                if cl[c - 1]["kind"] != "default":
                    ops.append({"op": k, "c": c, "ttl": rng.choice([0, 1, 2, 3, 24])})
            elif k == "ext" and used:
                d, v = rng.choice(used)
                ops.append({"op": k, "d": d, "v": v, "t": t, "k": rng.choice(["new", "new", "remove"] + UNUSABLE)})
            elif k == "race" and disk:
                ops.append({"op": k, "c": c, "t": t, "how": rng.choice(["lookup", "get"])})
            elif k in ("client", "seed"):
                # a default client has no cache object before its first use; a seed needs a usable place
                if k == "client":
                    ops.append({"op": k, "c": c})
                elif cl[c - 1]["kind"] == "mem":
                    ops.append({"op": k, "c": c, "t": t})
            elif k == "new":
                ops.append({"op": k, "c": c})
            elif k == "rmdir" and used:
                ops.append({"op": k, "d": rng.choice(used)[0]})
        res.append({"cfg": {"clients": cl, "svcs": svcs, "types": types, "dirs": 2, "same": rng.random() < .15, "pad": 3000000 if rng.random() < .008 else 5000 if rng.random() < .05 else 0},
                    "ops": ops})
    return res


def boot(c, fams, bias):
    q = c.tier == "quick"
    for fam, dq, dt in fams:
        depth, mv, mt = dq if q else dt
        sc = scripts(c, "MCBoot", "Depth = %d MaxVer = %d MaxTick = %d" % (depth, mv, mt),
                     "INVARIANT Refines\nPROPERTY NeverStale", fam, 6000 if q else 60000)
        sc = [{"cfg": FAMILIES[fam], "ops": s} for s in sc]
        c.validate_traces("TrBoot", sc, "boot", label="MCBoot-" + fam, env={"PROP": c.prop}, procs=NPROC, timeout=1500)
    for r in range(1 if q else 10):
        rng = random.Random("boot/%s/%d/%d" % (c.prop, c.seed, r))
        c.validate_traces("TrBoot", random_scripts(rng, 1500 if q else 4000, bias), "boot",
                          label="random-histories", env={"PROP": c.prop}, procs=NPROC, timeout=1500)
    c.assumptions += ["file modification times and time.Now follow one clock that does not go backwards; two saves of a file have different times",
                      "the virtual clock and the file write faults come from an overlay of Go's time and os packages; /repo is not instrumented"]


def C01(c):
    boot(c, [("fresh-disk", (6, 3, 3), (9, 5, 5)), ("fresh-mem", (7, 4, 4), (9, 6, 5)), ("same", (5, 3, 3), (7, 4, 3))], {"tick": 7})


def C02(c):
    boot(c, [("share", (6, 3, 3), (8, 4, 3)), ("same", (5, 3, 3), (7, 4, 3))], {"fault": .1, "ext": 1})


def C03(c):
    boot(c, [("fail-disk", (5, 2, 2), (7, 3, 3)), ("fail-mem", (6, 3, 2), (8, 4, 3))], {"fault": .6})


def C04(c):
    boot(c, [("cohere", (5, 3, 2), (6, 4, 2))], {"ext": 8, "race": 4, "tick": 2})


def C05(c):
    boot(c, [("isolate", (4, 3, 1), (5, 3, 1)), ("types", (3, 3, 1), (4, 4, 1))], {"tick": 1})
    # many services in one directory
    rng = random.Random("many/%d" % c.seed)
    n = 350
    svcs = ["https://bootstrap.example/%d/" % (i * i + 7) for i in range(n)]
    res = []
    for t in ["dns", "asn"] if c.tier == "quick" else ["dns", "asn", "ipv4", "ipv6", "tag"]:
        order = list(range(1, n + 1))
        rng.shuffle(order)
        ops = [{"op": "lookup", "c": i, "t": t, "f": "ok", "q": "hit"} for i in order]
        rng.shuffle(order)
        res.append({"cfg": cfg([D(i + 1, 24) for i in range(n)], svcs, [t]), "ops": ops + [{"op": rng.choice(["get", "lookup"]), "c": i, "t": t, "f": "ok", "q": "hit"} for i in order]})
    for s in res:
        for o in s["ops"]:
            if o["op"] == "get":
                del o["f"], o["q"]
    c.validate_traces("TrBoot", res, "boot", label="many-services", env={"PROP": c.prop}, procs=NPROC, timeout=600)


def _cc(kind, ttl=2):
    return {"kind": kind, "dir": 1 if kind == "disk" else 0, "ttl": ttl}


CACHES = {"disk": {"caches": [_cc("disk"), _cc("disk")], "dirs": 1, "files": 1},
          "disk2": {"caches": [_cc("disk")], "dirs": 1, "files": 2},
          "mem": {"caches": [_cc("mem"), _cc("mem")], "dirs": 1, "files": 2}}


def random_cache_scripts(rng, n):
    res = []
    for _ in range(n):
        caches = [{"kind": rng.choice(["disk", "disk", "mem"]), "dir": 0, "ttl": rng.choice([1, 2, 3, 24])} for _ in range(rng.randint(1, 3))]
        for x in caches:
            if x["kind"] == "disk":
                x["dir"] = rng.randint(1, 2)
        ops = []
        for _ in range(rng.randint(5, 40)):
            c, f, d = rng.randint(1, len(caches)), rng.randint(1, 3), rng.randint(1, 2)
            disk = caches[c - 1]["kind"] == "disk"
            k = rng.choices(["save", "load", "state", "ttl", "tick", "scribble", "extput", "extrm", "rmdir", "break", "initdir", "savefail"],
                            [6, 6, 8, 1, 3, 2, 2, 1, .5, .3, .5, 1])[0]
            x = rng.choice(["a", "b", "c", "empty", "big", "bin", "bom", "ws", "crlf"] if rng.random() < .995 else ["huge"])
            if k in ("initdir", "savefail") and not disk:
                continue
            small = sum(o["op"] == "tick" and o["n"] == 1 for o in ops)
            ops.append({"save": {"op": k, "c": c, "f": f, "x": x}, "load": {"op": k, "c": c, "f": f}, "state": {"op": k, "c": c, "f": f},
                        "ttl": {"op": k, "c": c, "ttl": rng.choice([0, 1, 2, 3, 24])},
                        "tick": {"op": k, "n": 30 if small > 14 else rng.choice([13, 20, 30]) if rng.random() < .15 else 1}, "scribble": {"op": k},
                        "extput": {"op": k, "d": d, "f": f, "x": x}, "extrm": {"op": k, "d": d, "f": f}, "rmdir": {"op": k, "d": d},
                        "break": {"op": k, "d": d}, "initdir": {"op": k, "c": c}, "savefail": {"op": k, "c": c, "f": f}}[k])
        res.append({"cfg": {"caches": caches, "dirs": 2, "files": 3}, "ops": ops})
    return res


def C06(c):
    q = c.tier == "quick"
    for fam, (d, w, t) in (("disk", (5, 3, 2) if q else (7, 4, 3)), ("disk2", (4, 3, 2) if q else (7, 3, 3)), ("mem", (4, 3, 2) if q else (6, 4, 3))):
        sc = scripts(c, "MCCache", "Depth = %d MaxW = %d MaxTick = %d" % (d, w, t), "INVARIANT Consistent", fam, 6000 if q else 60000)
        c.validate_traces("TrCache", [{"cfg": CACHES[fam], "ops": s} for s in sc], "cacheapi", label="MCCache-" + fam, procs=NPROC, timeout=1500)
    for r in range(1 if q else 10):
        rng = random.Random("cache/%d/%d" % (c.seed, r))
        c.validate_traces("TrCache", random_cache_scripts(rng, 2000), "cacheapi", label="random-cache-histories", procs=NPROC)
    # a directory in the place of a file; a file dated in the future
    odd = []
    for ttl in (1, 2, 24):
        conf = {"caches": [_cc("disk", ttl)], "dirs": 1, "files": 2}
        st, ld, sv = ({"op": o, "c": 1, "f": 1} for o in ("state", "load", "save"))
        sv = dict(sv, x="a")
        for first in ([], [sv], [sv, st], [sv, ld]):
            odd.append({"cfg": conf, "ops": first + [{"op": "extdir", "d": 1, "f": 1}, st, ld, st, ld, st, {"op": "extrm", "d": 1, "f": 1}, st, sv, st, ld]})
            odd.append({"cfg": conf, "ops": first + [{"op": "extfuture", "d": 1, "f": 1, "x": "b"}, st, ld, st, {"op": "tick", "n": 1}, st, {"op": "tick", "n": 2}, st, ld, {"op": "tick", "n": 30}, st]})
    c.validate_traces("TrCache", odd, "cacheapi", label="odd-files", procs=NPROC)
