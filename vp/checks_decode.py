"""C18-C22: decoding."""
import os
import random
from . import core
from .gen_docs import Docs

_schema = {}


def schema_cases(c):
    cases = c.gen_cases("MCDecode", cfg="MCDecode" if c.tier == "quick" else "MCDecodeT")
    _schema.update(cases[0]["schema"])
    return cases[1:]


def docs(c, tag, n, r=0, depth=2, **kw):
    g = Docs(random.Random("%s/%d/%d" % (tag, c.seed, r)), _schema, **kw)
    return [{"doc": g.doc(depth)} for _ in range(n)]


def decode_view(c, view):
    cases = schema_cases(c)
    c.validate_traces("TrDecode", [x["in"] for x in cases], "decode", label="MCDecode", env={"VIEW": view})
    for r in range(1 if c.tier == "quick" else 25):
        c.validate_traces("TrDecode", docs(c, "decode", 700, r), "decode", label="random-documents", env={"VIEW": view})
        c.validate_traces("TrDecode", docs(c, "deep", 60, r, depth=4, fill=.35), "decode", label="random-deep-documents", env={"VIEW": view})
    c.validate_traces("TrDecode", [{"doc": d} for d in Docs(random.Random("large/%d" % c.seed), _schema).large()], "decode", label="large-documents", env={"VIEW": view})
    c.assumptions.append("JSON numbers outside the range of doubles are left open; numbers have at most 15 significant digits or a listed double")


def mutate(rng, b):
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 2, 3])):
        i = rng.randrange(len(b) + 1)
        k = rng.randrange(4)
        if k == 0:
            b[i:i] = bytes([rng.choice(b"{}[]\",:\\ 0-1eEn.\x00\xff\n")])
        elif k == 1 and b:
            del b[i:i + rng.choice([1, 1, 3])]
        elif k == 2 and i < len(b):
            b[i] = rng.choice(b"{}[]\",:\\ 0-1en.\x00\xff\n")
        else:
            j = rng.randrange(len(b) + 1)
            b[i:i] = b[j:j + 6]
    return bytes(b)


def tojson(v):
    import json
    t = v[0]
    if t == "z":
        return "null"
    if t == "b":
        return "true" if v[1] else "false"
    if t == "n":
        return v[1]
    if t == "s":
        return json.dumps(v[1], ensure_ascii=True)
    if t == "a":
        return "[" + ",".join(tojson(x) for x in v[1]) + "]"
    return "{" + ",".join(json.dumps(k) + ":" + tojson(x) for k, x in v[1]) + "}"


def C18(c):
    q = c.tier == "quick"
    decode_view(c, "type")
    texts = c.gen_cases("MCJson", cfg="MCJson" if q else "MCJsonT")
    c.validate_traces("TrJson", [x["in"] for x in texts], "decode", label="MCJson")
    for r in range(2 if q else 25):
        rng = random.Random("mutate/%d/%d" % (c.seed, r))
        raws = [tojson(d["doc"]).encode() for d in docs(c, "raw", 800, r, depth=1, fill=.15)]
        c.validate_traces("TrJson", [{"raw": list(mutate(rng, b))} for b in raws if len(b) < 1200], "decode", label="mutated-texts")
    # every document through the client, too
    c.note(printed_options=6)


def C19(c):
    decode_view(c, "fields")


def C20(c):
    decode_view(c, "data")


def card_cases(c):
    out2 = os.path.join(core.scratch(), "acc-%s.ndjson" % c.prop)
    cards = c.gen_cases("MCCard", env={"OUT2": out2})
    return cards, core.read_ndjson(out2)


def C21(c):
    q = c.tier == "quick"
    cards, _ = card_cases(c)
    c.validate_traces("TrCard", [x["in"] for x in cards], "vcard", label="MCCard")
    for r in range(2 if q else 25):
        g = Docs(random.Random("card/%d/%d" % (c.seed, r)), {})
        ins = [{"card": g.card(bad=g.r.choice([0, .02, .1])), "ignore": g.r.random() < .5} for _ in range(2500)]
        ins += [{"card": ["a", [["s", "vcard"], ["a", [g.prop(0) for _ in range(n)]]]], "ignore": g.r.random() < .5} for n in (60, 150, 300)]
        c.validate_traces("TrCard", ins, "vcard", label="random-cards")
        ents = []
        for _ in range(600):
            e = ["o", [["handle", ["s", "h"]], ["vcardArray", g.card(bad=g.r.choice([0, .05]))], ["roles", ["a", [["s", "abuse"]]]], ["status", ["a", [["s", "active"]]]]]]
            g.r.shuffle(e[1])
            if g.r.random() < .5:
                e = ["o", [["objectClassName", ["s", "domain"]], ["entities", ["a", [e, ["o", [["vcardArray", g.card(bad=.05)]]]]]]]]
            else:
                e[1].append(["objectClassName", ["s", "entity"]])
            ents.append({"doc": e})
        obs = c.validate_traces("TrDecode", ents, "decode", label="entities", env={"VIEW": "cards"})
        c.validate_traces("TrDecode", ents, "decode", label="entities-other-fields", env={"VIEW": "fields"}, obs=obs)


def C22(c):
    q = c.tier == "quick"
    _, acc = card_cases(c)
    c.validate_traces("TrAccess", [x["in"] for x in acc], "accessors", label="MCCard-accessors")
    for r in range(2 if q else 25):
        g = Docs(random.Random("access/%d/%d" % (c.seed, r)), {})
        ins = []
        for _ in range(2500):
            ps = []
            for p in g.card()[1][1][1]:
                if p[1][1][1] and any(m[1][0] == "o" for m in p[1][1][1]):
                    continue
                params = {}
                for k, v in p[1][1][1]:
                    params[k] = [v[1]] if v[0] == "s" else [x[1] for x in v[1] if x[0] == "s"] if v[0] == "a" else []
                vals = p[1][3:]
                ps.append({"name": p[1][0][1], "type": p[1][2][1], "params": [[k, v] for k, v in params.items() if v], "value": vals[0] if len(vals) == 1 else ["a", vals]})
            ins.append({"props": ps})
        c.validate_traces("TrAccess", ins, "accessors", label="random-cards")
    c.assumptions.append("an address that is a list of lists only (other than of whole addresses) is left open")
