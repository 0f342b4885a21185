"""Random registries and queries (inputs only; TLC decides the outcomes)."""
import random



def urls(rng, k, n):
    """The servers of a service: any scheme, port and path, in any order, some named twice."""
    res = []
    for i in range(n):
        if res and rng.random() < .1:
            res.append(rng.choice(res))
            continue
        res.append("%ss%d-%d.example%s" % (rng.choice(["https://", "https://", "http://", "//", "ftp://"]) if rng.random() < .3 else rng.choice(["https://", "http://"]), k, i,
                                           rng.choice(["/", "/", "/", "", ":8443/", ":80", "/rdap/", "/a/b", "/x?k=v", "/a%20b/", "/%2F/"])))
    return res


def T(s):
    return list(s.encode("latin-1"))


def dns(rng, n):
    res = []
    labels = ["a", "b", "com", "co", "uk", "xn--p1ai", "example", "1", "a-b", "c", "_x", " ", "*", "c d"]
    for _ in range(n):
        names = set()
        for _ in range(rng.randint(0, 12)):
            names.add(".".join(rng.choice(labels) for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3, 4]))))
        names = list(names)
        rng.shuffle(names)
        sv = []
        while names:
            k = rng.randint(1, 3)
            es, names = names[:k], names[k:]
            sv.append({"entries": [T(e) for e in es], "urls": urls(rng, len(sv), rng.choice([0, 1, 1, 2, 3]))})
        if sv and rng.random() < .4:  # an entry again, in another service
            sv.append({"entries": [rng.choice(sv)["entries"][0]], "urls": ["https://again.example/"]})
        qs = []
        for _ in range(25):
            q = ".".join(rng.choice(labels) for _ in range(rng.randint(0, 6)))
            if sv and rng.random() < .6:
                e = bytes(rng.choice(sv)["entries"][0]).decode()
                m = rng.random()
                q = e if m < .2 else rng.choice(labels) + e if m < .4 else (q + "." + e).strip(".")
            if rng.random() < .3:
                q = "".join(c.upper() if rng.random() < .5 else c for c in q)
            if rng.random() < .2:
                q += "."
            if rng.random() < .05:
                q += "."
            if rng.random() < .05:
                q = "." + q
            qs.append(T(q))
        if rng.random() < .1:  # far beyond usual lengths: many labels, long labels
            deep = ".".join(rng.choice(labels) for _ in range(rng.randint(7, 40)))
            sv.append({"entries": [T(deep)], "urls": ["https://deep.example/"]})
            qs += [T(deep), T("x." + deep), T("x" + deep), T(deep.upper() + "."), T(deep.split(".", 1)[1])]
            tail = ("." + bytes(rng.choice(sv)["entries"][0]).decode()).rstrip(".")
            for k in (63, 64, 253, 254, 256, rng.randint(257, 400)):
                q = ".".join([rng.choice(labels)] * k)
                qs += [T("x" * k + tail), T((q + tail)[-k:]), T(q[:k] + tail)]
        res.append({"type": "dns", "services": sv, "queries": qs})
    return res


def asn(rng, n):
    res = []
    for _ in range(n):
        top = rng.choice([40, 70000, 2 ** 31 + 100, 2 ** 32 - 1, 2 ** 32 - 1])
        lo = max(0, top - rng.choice([30, 5000, top]))
        k = rng.randint(0, 12)
        pts = sorted(rng.sample(range(lo, top + 1), min(2 * k, (top - lo + 1) // 2 * 2)))
        rs = []
        for a, b in zip(pts[::2], pts[1::2]):
            if rng.random() < .3:
                b = a
            rs.append((a, b))
        if rng.random() < .5:  # adjacent ranges
            rs = [(a, (rs[i + 1][0] - 1) if i + 1 < len(rs) and rng.random() < .6 else b) for i, (a, b) in enumerate(rs)]
        ents = []
        for a, b in rs:
            m = rng.random()
            ents.append("%d" % a if a == b and m < .8 else "%d-%d" % ((b, a) if m < .2 else (a, b)))
        ents += rng.sample(["AS12", "x", "1-", "-1", "1-2-3", "4294967296", "1-4294967296", " 1", "", "1.5"], rng.randint(0, 3))
        rng.shuffle(ents)
        sv = []
        while ents:
            j = rng.randint(1, 4)
            es, ents = ents[:j], ents[j:]
            sv.append({"entries": [T(e) for e in es], "urls": urls(rng, len(sv), rng.choice([1, 1, 2]))})
        qs = []
        for _ in range(25):
            if rs and rng.random() < .8:
                a, b = rng.choice(rs)
                v = rng.choice([a, b, a - 1, b + 1, a + 1, b - 1, (a + b) // 2])
            else:
                v = rng.choice([0, 1, lo, top, 2 ** 32 - 1, 2 ** 32, 2 ** 31, 2 ** 31 - 1, rng.randrange(2 ** 32)])
            q = str(v)
            if rng.random() < .1:
                q = "0" * rng.randint(1, 3) + q
            q = rng.choice(["", "", "AS", "as", "As", "aS"]) + q
            if rng.random() < .1:
                q = rng.choice(["", "AS", "AS-1", "1x", "0x10", "1_000", "+5", "18446744073709551616", "1 2", "AS 5", "99999999999999999999999"])
            qs.append(T(q))
        res.append({"type": "asn", "services": sv, "queries": qs})
    return res


def tag(rng, n):
    res = []
    tags = ["VRSN", "ARIN", "vrsn", "A", "RIPE", "X-Y", "~VRSN", "", "GOODDY", "VRS", "VRSNX", " VRSN", "VRSN ", "V RSN", " ", "A.B", "T" * 70]
    for _ in range(n):
        names = rng.sample(tags, rng.randint(0, 7))
        sv = []
        while names:
            k = rng.randint(1, 3)
            es, names = names[:k], names[k:]
            sv.append({"entries": [T(e) for e in es], "urls": urls(rng, len(sv), rng.choice([0, 1, 1, 2]))})
        if sv and rng.random() < .4:
            sv.append({"entries": [rng.choice(sv)["entries"][0]], "urls": ["https://again.example/"]})
        qs = []
        for _ in range(25):
            t = rng.choice(tags)
            p = rng.choice(["", " ", "1 ", "h" * 300, "1-" * 90, "1", "123-4", "-", "a~b", "x-VRSN", "53774930", "ARIN"])
            qs.append(T(rng.choice([p + "-" + t] * 6 + [p, t, p + "~" + t, p + "-" + t + "-", "-" + t, p + "-" + t.swapcase()])))
        res.append({"type": "tag", "services": sv, "queries": qs})
    return res


def _mask(a, n):
    return [b if (i + 1) * 8 <= n else 0 if i * 8 >= n else b & (0xFF << (8 - (n - i * 8))) & 0xFF for i, b in enumerate(a)]


def net(rng, n, maxnets=40):
    res = []
    bad = ["", "x", "1.2.3", "1.2.3.4.5", "1.2.3.4/33", "1.2.3.4/-1", "1.2.3.4/", "/8", "1.2.3.256", "01.2.3.4", "::/129", ":::", "1::2::3", "fe80::1%eth0", "1.2.3.4/8/9", "1.2.3.4 ", "12345::", "g::", "2001:db8::/+32"]
    for _ in range(n):
        ver = rng.choice([4, 6])
        w = 4 if ver == 4 else 16
        total = w * 8

        def addr():
            a = [rng.randrange(256) for _ in range(w)]
            if ver == 6:
                a[0] = rng.choice([0x20, 0x2a, 0x2c, 0xfe, a[0] | 1])
            return a
        nets, seen = [], set()
        anchors = [addr() for _ in range(rng.randint(1, 4))]

        def near():
            a = list(rng.choice(anchors))
            for _ in range(rng.choice([0, 1, 1, 2])):
                bit = rng.choice([rng.randrange(total), rng.randrange(min(16, total))])
                a[bit // 8] ^= 1 << (7 - bit % 8)
            if rng.random() < .2:
                i = rng.randrange(w)
                a[i:] = [rng.choice([0, 255])] * (w - i)
            return a
        for _ in range(rng.randint(0, maxnets)):
            ln = rng.choice([0, 1, total, total - 1, total // 4, total // 2, rng.randint(0, total), rng.randint(0, total)])
            a = _mask(near(), ln)
            if (tuple(a), ln) in seen or (ver == 6 and a[:10] == [0] * 10 and ln >= 80):
                continue
            seen.add((tuple(a), ln))
            x = {"a": a, "len": ln, "style": rng.randint(0, 3), "svc": 0,
                 "urls": urls(rng, len(nets), rng.choice([0, 1, 1, 1, 2, 3]))}
            if nets and rng.random() < .3:  # of the same service as the one before
                p = nets[-1]
                p["svc"] = x["svc"] = p["svc"] or len(nets)
                x["urls"] = p["urls"]
            if rng.random() < .15 and ln < total:  # written with host bits
                h = [v | rng.randrange(256) & (0 if (i + 1) * 8 <= ln else 255 if i * 8 >= ln else 0xFF >> (ln - i * 8)) for i, v in enumerate(a)]
                if not (ver == 6 and h[:10] == [0] * 10):
                    x["host"] = h
            nets.append(x)
        extra = [T(x) for x in rng.sample(bad[1:], rng.randint(0, 3))]
        extra += [T("2001:db8::/32")] if ver == 4 else [T("198.51.100.0/24"), T("0.0.0.0/0")]
        qs = []
        for _ in range(25):
            m = rng.random()
            if m < .12:
                other = ["2001:db8::1", "::/0"] if ver == 4 else ["192.0.2.1", "10.0.0.0/8"]
                qs.append({"text": T(rng.choice(bad + other))})
                continue
            a = near()
            if nets and m < .5:
                x = rng.choice(nets)
                a = list(x["a"])
                if rng.random() < .5:  # last address of the network
                    a = [b | (0 if (i + 1) * 8 <= x["len"] else 255 if i * 8 >= x["len"] else 0xFF >> (x["len"] - i * 8)) for i, b in enumerate(a)]
                if rng.random() < .3:  # just outside
                    v = int.from_bytes(bytes(a), "big") + rng.choice([-1, 1])
                    a = list((v % (1 << total)).to_bytes(w, "big"))
            if ver == 6 and a[:10] == [0] * 10:
                a[0] = 0x20
            if rng.random() < .5:
                qs.append({"a": a, "len": total, "style": rng.randint(0, 3), "plain": True})
            else:
                ln = rng.choice([rng.randint(0, total), rng.choice(nets)["len"] if nets else 8, min(total, (rng.choice(nets)["len"] if nets else 8) + 1), max(0, (rng.choice(nets)["len"] if nets else 8) - 1)])
                am = _mask(a, ln)
                if ver == 6 and a[:10] == [0] * 10:
                    am = a = [0x20] + a[1:]
                    am = _mask(a, ln)
                q = {"a": am, "len": ln, "style": rng.randint(0, 3), "plain": False}
                if rng.random() < .3:
                    q["host"] = a  # host bits set: still denotes the network
                qs.append(q)
        res.append({"ver": ver, "nets": nets, "extra": extra, "queries": qs})
    return res


def regfile(rng, n):
    urls = ["https://x/", "https://y/", "https://z.example/rdap/", "http://h/?q=1", "http://[::1", "%zz", "http://a b/", ":x", "rel/path", "", " https://x/", "//h.example/p", "ftp://x/", "https://x"]
    ents = ["", "a", "b", "c.d", "10.0.0.0/8", "1-5", "X", "é"]
    res = []
    for _ in range(n):
        sv = []
        for _ in range(rng.randint(0, 6)):
            E = [rng.choice(ents) for _ in range(rng.randint(0, 4))]
            U = [rng.choice(urls) for _ in range(rng.randint(0, 4))]
            m = rng.random()
            sv.append([E, U] if m < .6 else [["m@example"], E, U] if m < .94 else rng.choice([[], [E], [E, U, E, U]]))
        ws = ["", "", "\n", " ", "\r\n\t "]
        res.append({"pre": rng.choice(ws), "post": rng.choice(ws), "services": sv, "meta": [rng.choice(["", "d", "déjà \"q\""]), rng.choice(["", "2024"]), rng.choice(["", "1.0"])],
                    "names": sorted(set(ents) | {"m@example"}, key=lambda s: s.encode())})
    return res
