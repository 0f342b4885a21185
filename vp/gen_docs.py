"""Random RDAP documents as JSON trees, from the specification's schema."""
NUMS = ["0", "1", "-1", "2", "8", "42", "-0.5", "1.5", "3.14", "255", "256", "65535", "65536", "4294967295", "4294967296", "1e3", "12e-1", "0.001", "1e21",
        "9007199254740993", "18446744073709549568", "18446744073709551616", "-7", "100", "123456.789"]
WORDS = ["example.com", "x", "registrar", "registrant", "abuse", "active", "clientTransferProhibited", "2020-01-01T00:00:00Z", "rdap_level_0", "last changed",
         "registration", "expiration", "AS123", "192.0.2.0", "2001:db8::1", "true", "1", "0", "255", "300", "007", "GB", "IANA Registrar ID", "292",
         "https://rdap.example/domain/x", "Some longer text, with punctuation: yes!", "a: b", "Domain:", "  indented", "trailing  ", "é ñ", "日本", "\ufffd", "\u2028", "active", "x", "a,b", "\u200b\u202e", "\u00a0nbsp", "\ufeffbom", "soft\u00adhyphen", "\U0001f600"]
CTRL = ["\n", "\r", "\0", "a\nb", "a\r\nDomain Name: evil", "\n\n", "x\0y", "\t", "a\x0bb", "\x7f", "\x1b[31m", "z\n  Handle: spoof", "end\n", "\nstart", "\ufffd\n", "\r\u200b\u2028\u0085", "\t\n \u00a0", " \n ", "\n" * 80 + "x", "y" * 1500 + "\n", "a\n\U0001f600b"]
UNKNOWN = ["zz", "aa", "x-ext", "Title", "LDHName", "", "rdap_ext", "B", "b", "unicode_é", "with space", "lunarNic_beforeOneSmallStep", "decodeData", "DecodeData", "Common", "_x", "$schema", "@id", "cidr0_cidrs", "a:b", " zz", "zz ", "#", "redacted", "lang", "type", "remarks", "vcard"]
TOPS = {"Autnum": "autnum", "Domain": "domain", "Entity": "entity", "IPNetwork": "ip network", "Nameserver": "nameserver"}
RESULTS = {"DomainSearchResults": "domainSearchResults", "EntitySearchResults": "entitySearchResults", "NameserverSearchResults": "nameserverSearchResults"}


class Docs:
    def __init__(self, rng, schema, wrong=.15, ctrl=0., unknown=.3, dup=.05, names=UNKNOWN, fill=.5):
        self.r, self.s, self.wrong, self.ctrl, self.unknown, self.dup, self.names, self.fill = rng, schema, wrong, ctrl, unknown, dup, names, fill

    def text(self):
        r = self.r
        if r.random() < self.ctrl:
            return r.choice(CTRL)
        if r.random() < .06:
            return ""
        return r.choice(WORDS)

    def scalar(self):
        r = self.r
        k = r.randrange(8)
        return ["z"] if k == 0 else ["b", r.random() < .5] if k == 1 else ["n", r.choice(NUMS)] if k < 4 else ["s", self.text()]

    def any(self, d=3):
        r = self.r
        k = r.random()
        if k < .6 or d == 0:
            return self.scalar()
        if k < .8:
            return ["a", [self.any(d - 1) for _ in range(r.choice([0, 1, 2, 3]))]]
        return ["o", [[self.name(), self.any(d - 1)] for _ in range(r.choice([0, 1, 2, 3]))]]

    def name(self):
        if self.r.random() < self.ctrl:
            return self.r.choice(["k\ney", "\r", "a\0b", "x\n  Handle"])
        if self.s and self.r.random() < .2:     # a member of this or another object
            return self.r.choice(list(self.s[self.r.choice(list(self.s))]))
        return self.r.choice(self.names)

    def elems(self, good):
        r = self.r
        n = r.choice([0, 1, 1, 2, 2, 3, 4])
        return ["a", [self.any(2) if r.random() < self.wrong else good() for _ in range(n)]]

    def value(self, kind, d):
        r = self.r
        k = kind[0]
        if r.random() < self.wrong:
            return self.any(2)
        if k == "str":
            return ["s", self.text()]
        if k == "strs":
            return self.elems(lambda: ["s", self.text()])
        if k == "uint":
            return ["n", r.choice(NUMS)] if r.random() < .7 else ["s", r.choice(["1", "300", "70000", "5000000000", "x", "-1", "18446744073709551615", "18446744073709551616", "", "010", "0x10", "1_000", " 7"])]
        if k == "bool":
            return ["b", r.random() < .5] if r.random() < .8 else self.scalar()
        if k == "vcard":
            return self.card(bad=.1 if r.random() < self.wrong else 0)
        if d <= 0:
            return ["o", self.members(kind[1], 0)] if k == "obj" and r.random() < .3 else ["a", []]
        if k == "obj":
            return ["o", self.members(kind[1], d - 1)]
        return self.elems(lambda: ["o", self.members(kind[1], d - 1)])

    def members(self, t, d, must=()):
        r = self.r
        names = list(self.s[t])
        take = [n for n in names if r.random() < (self.fill if self.s[t][n][1][0] not in ("obj", "objs") else self.fill * .8)]
        ms = [[n, self.value(self.s[t][n][1], d)] for n in take if n not in [m[0] for m in must]]
        while r.random() < self.unknown:
            n = self.name()
            if n not in ("errorCode", "objectClassName", *RESULTS.values()):
                ms.append([n, self.any()])
        ms += [list(m) for m in must]
        r.shuffle(ms)
        if r.random() < self.dup and ms:
            n = r.choice(ms)[0]
            if n not in [m[0] for m in must]:
                ms.append([n, self.any()])
        return ms

    # -- jCards
    def cvalue(self, d, bad=0.):
        r = self.r
        if r.random() < bad:
            return r.choice([["o", []], ["a", [["a", [["a", [["a", []]]]]]]], ["o", [["x", ["n", "1"]]]]])
        if d == 0 or r.random() < .6:
            return self.scalar()
        return ["a", [self.cvalue(d - 1, bad) for _ in range(r.choice([0, 1, 2, 3, 7]))]]

    def adr(self):
        r = self.r
        n = r.choice([7, 7, 7, 7, 0, 1, 3, 6, 8])
        return ["a", [["a", [["s", self.text()] for _ in range(r.choice([0, 1, 2, 3]))]] if r.random() < .3 else (["s", self.text()] if r.random() < .9 else self.scalar()) for _ in range(n)]]

    def prop(self, bad=0.):
        r = self.r
        nm = r.choice(["fn ", "Tel", "fn", "fn", "tel", "tel", "tel", "email", "org", "adr", "adr", "version", "url", "title", "x-foo", "FN", ""])
        params = []
        if r.random() < .5:
            ty = ["voice", "fax", "work", "home", "text", "Voice", "cell", "FAX", "VOICE", "", "voice,fax", "voice ", "pager"]
            params.append(["type", r.choice([["s", r.choice(ty)], ["a", [["s", r.choice(ty)] for _ in range(r.choice([0, 1, 2, 3]))]], ["a", [["n", "1"], ["s", r.choice(ty)], ["z"]]], ["n", "1"]])])
        if r.random() < .2:
            params.append([r.choice(["pref", "lang", "label", "cc", "TYPE", "Type", "", "type"]), r.choice([["s", "1"], ["s", "US"], ["s", ""], ["s", "a,b"], ["a", [["s", ""], ["s", "x"], ["s", "x"]]], ["a", []], ["z"], ["o", []]])])
        vals = [self.adr() if nm == "adr" and r.random() < .9 else self.cvalue(3, bad)]
        if nm == "adr" and r.random() < .15:
            vals = [["a", [["s", self.text()] for _ in range(7)]] for _ in range(2)]
        elif r.random() < .15:
            vals = [self.cvalue(2, bad) for _ in range(r.choice([2, 3]))]
        p = ["a", [["s", nm], ["o", params], ["s", r.choice(["text", "uri", "unknown", ""])]] + vals]
        if r.random() < bad:
            k = r.randrange(7)
            if k < 3:
                p[1][k] = r.choice([["z"], ["n", "1"], ["a", []], ["b", True]])
            elif k == 3:
                p = ["a", p[1][:r.randrange(4)]]
            elif k == 4:
                p = r.choice([["s", "fn"], ["z"], ["o", []], ["n", "1"], ["a", []]])
            else:
                p[1][3] = r.choice([["o", []], ["a", [["a", [["a", [["a", []]]]]]]]])
        return p

    def card(self, bad=0.):
        r = self.r
        c = ["a", [["s", "vcard"], ["a", [self.prop(bad) for _ in range(r.choice([0, 1, 3, 5, 8]))]]]]
        if r.random() < bad:
            k = r.randrange(6)
            if k == 0:
                c[1][0] = r.choice([["s", "vCard"], ["s", ""], ["z"], ["a", []]])
            elif k == 1:
                c[1][1] = r.choice([["o", []], ["z"], ["s", "x"]])
            elif k == 2:
                c[1].append(["a", []])
            elif k == 3:
                c = ["a", c[1][:r.randrange(2)]]
            elif k == 4:
                c = r.choice([["o", []], ["z"], ["s", "vcard"], ["n", "1"]])
        return c

    def whoisish(self):
        """a domain response rich in what the WHOIS form shows"""
        r = self.r
        roles = ["registrar", "registrant", "administrative", "technical", "abuse", "billing", "Registrar", "noc"]

        def st(x):
            return ["s", x]

        def arr(f, ns):
            return ["a", [f() for _ in range(r.choice(ns))]]

        def entity():
            ms = [["roles", arr(lambda: st(r.choice(roles)), [0, 1, 1, 2, 3])]]
            if r.random() < .85:
                ms.append(["vcardArray", self.card()])
            if r.random() < .5:
                ms.append(["publicIds", arr(lambda: ["o", [["type", st(r.choice(["IANA Registrar ID", "other", "IANA Registrar ID"]))], ["identifier", st(self.text())]]], [1, 2])])
            if r.random() < .2:
                ms.append(["entities", arr(entity, [0, 1])])
            return ["o", ms]

        actions = ["last changed", "registration", "expiration", "transfer", "Registration", "last update of RDAP database"]
        ms = [["objectClassName", st("domain")]]
        for n in ("ldhName", "handle", "port43"):
            if r.random() < .8:
                ms.append([n, st(self.text())])
        ms.append(["entities", arr(entity, [0, 1, 2, 3, 4, 6])])
        ms.append(["events", arr(lambda: ["o", [["eventAction", st(r.choice(actions))], ["eventDate", st(self.text())]]], [0, 1, 3, 5])])
        ms.append(["status", arr(lambda: st(self.text()), [0, 1, 3])])
        ms.append(["nameservers", arr(lambda: ["o", [["ldhName", st(self.text())]] if r.random() < .9 else []], [0, 1, 2, 4])])
        r.shuffle(ms)
        return ["o", ms]

    def doc(self, depth=2):
        r = self.r
        k = r.random()
        if k < .72:
            t = r.choice(list(TOPS))
            return ["o", self.members(t, depth, [["objectClassName", ["s", TOPS[t]]]])]
        if k < .84:
            t = r.choice(list(RESULTS))
            return ["o", self.members(t, depth, [[RESULTS[t], self.value(self.s[t][RESULTS[t]][1], depth)]])]
        if k < .92:
            return ["o", self.members("Error", depth, [["errorCode", self.value(self.s["Error"]["errorCode"][1], 0)]])]
        if k < .99:
            return ["o", [m for m in self.members("Help", depth) if m[0] not in ("errorCode", "objectClassName", *RESULTS.values())]]
        return self.any()

    def large(self, k=0):
        """documents with something that is many, long or deep"""
        r = self.r

        def st(x):
            return ["s", x]

        def top(t, *ms):
            return ["o", [["objectClassName", st(TOPS[t])]] + [list(m) for m in ms]]

        def nest(d, leaf, wrap):
            for _ in range(d):
                leaf = wrap(leaf)
            return leaf

        def sub(d, m="entities"):
            return nest(d, ["o", [["handle", st("deepest")]]], lambda x: ["o", [["handle", st("H")], [m, ["a", [x, ["o", [["roles", ["a", [st("abuse")]]]]]]]]]])
        many = ["a", [st("s%d" % (i % 700)) for i in range(1500)]]
        long = "".join(r.choice("abcdefghij klmnop.:") for _ in range(20000))
        return [top("Domain", ["status", many], ["ldhName", st(long)], ["handle", st(long + "\n" + long)]),
                top("Domain", ["nameservers", ["a", [["o", [["ldhName", st("ns%d" % i)]]] for i in range(1100)]]]),
                top("Domain", ["events", ["a", [["o", [["eventAction", st("e%d" % i)]]] for i in range(150)]]], ["entities", ["a", [["o", [["handle", st("e%d" % i)]]] for i in range(300)]]]),
                top("Entity", ["remarks", ["a", [["o", [["description", ["a", [st("d%d" % i) for i in range(300)]]]]], ["o", [["links", ["a", [["o", [["href", st("h%d" % i)]]] for i in range(130)]]]]]]]]),
                top("IPNetwork", ["zz", ["a", [["n", str(i)] for i in range(400)]]], ["yy", nest(100, st("x"), lambda x: ["a", [x, st("y")]])], ["xx", st(long[:9000])]),
                top("Autnum", ["zz", nest(72, st("x"), lambda x: ["o", [["m", x], ["n", ["n", "1"]]]])], ["status", ["a", [st("x")] * 130]]),
                top("Entity", ["entities", ["a", [sub(14), sub(30)]]]), top("Entity", ["entities", ["a", [sub(42)]]]),
                top("Nameserver", *[["u%02d" % i, ["n", str(i)]] for i in range(70)]),
                top("Entity", ["vcardArray", ["a", [st("vcard"), ["a", [["a", [st("fn" if i % 3 else "tel"), ["o", [["type", ["a", [st("t%d" % j) for j in range(60)]]]] if i == 3 else []], st("text"), st("v%d" % i)]] for i in range(260)]]]]]),
                ["o", [["domainSearchResults", ["a", [["o", [["ldhName", st("d%d" % i)]]] for i in range(350)]]]]],
                ["o", [["notices", ["a", [["o", [["title", st("n%d" % i)]]] for i in range(200)]]], ["rdapConformance", ["a", [st("c%d" % i) for i in range(200)]]]]]]

    def sweep(self):
        """every character outside the surrogates, in values, alone and beside ones that are taken out"""
        cs = [chr(i) for i in range(1, 0x10000) if not 0xd800 <= i < 0xe000] + [chr(i) for i in range(0x10000, 0x110000, 997)]
        docs = []
        for i in range(0, len(cs), 2000):
            w = ["".join(cs[j:j + 100]) for j in range(i, min(i + 2000, len(cs)), 100)]
            docs.append(["o", [["objectClassName", ["s", "domain"]], ["status", ["a", [["s", x] for x in w]]], ["remarks", ["a", [["o", [["description", ["a", [["s", "\n" + x] for x in w]]]]]]]], ["zz", ["a", [["s", x] for x in w]]]]])
        return docs

    def members_doc(self, depth=1):
        """a response with an object class"""
        t = self.r.choice(list(TOPS))
        return ["o", self.members(t, depth, [["objectClassName", ["s", TOPS[t]]]])]
