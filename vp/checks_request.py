"""C16, C17: request URLs and automatic query types."""
import random
from .gen_lookup import T

TYPES = ["autnum", "domain", "entity", "help", "ip", "nameserver", "domain-search", "domain-search-by-nameserver", "domain-search-by-nameserver-ip",
         "nameserver-search", "nameserver-search-by-ip", "entity-search", "entity-search-by-handle", "autnum-search", "url"]


def esc(rng, s, extra=""):
    from urllib.parse import quote
    return quote(s, safe=extra)


def text(rng):
    parts = ["a", "x" * 70, "..", ".", "/", "?", "#", "%", "%2F", "%2e", "&", "=", "+", " ", "\x00", "\n", "é", "日本", ";", "@", ":", "//evil.example/", "name=x",
             "192.0.2.0/24", "2001:db8::/32", "example.com", "\xff", "~", "'", "\"", "<", "*", "!", "(", ","]
    s = b""
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 6])):
        p = rng.choice(parts)
        s += p.encode("latin-1") if p == "\xff" else p.encode()
    return list(s)


def req_inputs(rng, n):
    res = []
    for _ in range(n):
        sv = ""
        if rng.random() > .03:
            sv = rng.choice(["http", "https"]) + "://" + rng.choice(["rdap.example", "rdap.example:8443", "[2001:db8::1]", "192.0.2.1:80", "a-b.c.example", "u@rdap.example", "u:p@rdap.example:8443", "RDAP.Example"])
            segs = [rng.choice(["rdap", "v1", "a%2Fb", "x.y", "a+b", "~u", "%C3%A9", "d=1", "@h"]) for _ in range(rng.choice([0, 0, 1, 2, 3]))]
            sv += "".join("/" + x for x in segs) + rng.choice(["", "/"])
            if rng.random() < .4:
                sv += "?" + "&".join("%s=%s" % (rng.choice(["k", "name", "handle", "fn", "a%20b", "x%26"]), rng.choice(["", "1", "v%20w", "a%2Bb", "%23", "a+b"])) for _ in range(rng.randint(1, 4)))
            if rng.random() < .25:
                sv += "#" + rng.choice(["frag", "a%20b", "x/y?z"])
        ps = []
        for nm in rng.sample(["k", "name", "handle", "fn", "nsIp", "p q", "&=", "é", ""], rng.choice([0, 0, 1, 2, 3])):
            ps.append([list(nm.encode()), [text(rng) for _ in range(rng.choice([0, 1, 1, 2, 3]))]])
        res.append({"type": rng.choice(TYPES), "q": text(rng), "server": T(sv), "params": ps})
    return res


def auto_inputs(rng, n):
    res = []

    def octet():
        return rng.choice(["0", "1", "9", "10", "99", "127", "255", "256", "01", "00", "1000", "", "a", str(rng.randint(0, 255)), str(rng.randint(0, 255))])

    def grp():
        return rng.choice(["0", "1", "ffff", "FFFF", "abcd", "0000", "00000", "g", "", "%x" % rng.randint(0, 65535), "%X" % rng.randint(0, 65535)])

    for _ in range(n):
        k = rng.random()
        if k < .2:
            s = ".".join(octet() if rng.random() < .3 else str(rng.randint(0, 255)) for _ in range(rng.choice([4, 4, 4, 4, 3, 5])))
        elif k < .45:
            c = rng.choice([8, 8, 7, 6, 5, 4, 3, 2, 1])
            g = [grp() if rng.random() < .15 else "%x" % rng.choice([0, 0, 1, 0xdb8, 0x2001, rng.randint(0, 65535)]) for _ in range(c)]
            s = ":".join(g)
            if rng.random() < .7:
                i = rng.randint(0, c)
                s = ":".join(g[:i]) + "::" + ":".join(g[i:])
            if rng.random() < .15:
                s = s.rstrip(":") + ":192.0.2." + octet()
            if rng.random() < .05:
                s += "%eth0"
        elif k < .6:
            s = rng.choice(["", "", "AS", "as", "aS", "A", "S", "ASAS", "AS ", "-", "+"]) + rng.choice(["0", "007", "4294967295", "4294967296", "99999999999999999999", "1e3", "0x10", "1_0", str(rng.randint(0, 2 ** 33))])
        elif k < .75:
            h = rng.choice(["example.com", "192.0.2.1", "xn--p1ai", "a.b.c"])
            s = rng.choice(["http://", "https://", "HTTP://", "hTTps://", "ftp://", "//", "httpx://"]) + h + rng.choice(["", "/", "/rdap/domain/x", "/a%20b", "//", "?q=1", "/?q=1", "#f", "/p?q=1&r=2#f", "/."])
            if rng.random() < .3:   # a port or user info, where there is a path
                s = rng.choice(["http://", "https://"]) + rng.choice(["", "u@", "u:p@"]) + h + rng.choice([":80", ":443", ":8443", ""]) + rng.choice(["/rdap/domain/x", "/a%20b", "//", "/p?q=1&r=2#f", "/x/", "/ip/10.0.0.0/8", "/domain/a.b?x=%2F&y=+"])
        elif k < .9:
            s = rng.choice(["example.com", "Example.COM.", ".", "..", "a b.c", "x-y.z", "ABC-RIPE", "handle", "-", "ñ", "a/b", "a?b", "x%zz", "#", "", " ", "日本.jp", "AS.", "1.2.3", "1.2.3.4.5", "foo:bar", "::g", "http", "mailto:a@b.c", "a\x00b", "\x7f"])
        else:
            s = "".join(rng.choice("0123456789abcdefASas.:/-") for _ in range(rng.randint(1, 8)))
        if rng.random() < .15 and not s.lower().startswith("http"):
            s += "/" + rng.choice(["0", "8", "24", "32", "33", "64", "128", "129", "08", "-1", "", "a", "1000000000"])
        if rng.random() < .04:
            s = rng.choice([" ", "\t", ""]) + s + rng.choice([" ", "\t", "\n"]) if not s.lower().startswith("http") else " " + s
        if rng.random() < .03 and not s.lower().startswith("http"):
            s = rng.choice(["[%s]", "[%s", "%s]", "<%s>", "'%s'"]) % s
        if rng.random() < .02 and "/" not in s:
            s += rng.choice(["x", ".y", "-z", "0"]) * rng.choice([60, 130, 300])
        if s.lower().startswith("http:") and not s.lower().startswith("http://") or s.lower().startswith("https:") and not s.lower().startswith("https://"):
            continue
        if "::ffff" in s.lower() and "/" in s or "ffff" in s.lower() and "0:0" in s and "/" in s:
            continue
        res.append({"t": list(s.encode())})
    return res


def C16(c):
    q = c.tier == "quick"
    cases = c.gen_cases("MCUrl", cfg="MCUrl" if q else "MCUrlT")
    c.validate_traces("TrUrl", [x["in"] for x in cases], "requrl", label="MCUrl")
    for r in range(3 if q else 20):
        c.validate_traces("TrUrl", req_inputs(random.Random("url/%d/%d" % (c.seed, r)), 3000), "requrl", label="random-requests")
    c.assumptions.append("server URLs are hierarchical and well-formed, without semicolons in their query")


def C17(c):
    q = c.tier == "quick"
    cases = c.gen_cases("MCAuto", cfg="MCAuto" if q else "MCAutoT")
    c.validate_traces("TrAuto", [x["in"] for x in cases], "auto", label="MCAuto")
    for r in range(3 if q else 20):
        c.validate_traces("TrAuto", auto_inputs(random.Random("auto/%d/%d" % (c.seed, r)), 6000), "auto", label="random-texts")
    c.assumptions.append("left open: 'http:' without '//', ports and user info in URLs without a path, non-ASCII letters folding to AS, IPv6-mapped IPv4 networks")
