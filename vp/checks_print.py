"""C23-C26: printed forms."""
import random
from .checks_cli import cli_streams
from .gen_docs import Docs

PLAIN = {"n": False, "r": False, "b": False, "l": False, "char": "", "size": 0}


def opt(rng):
    o = {k: rng.random() < .4 for k in "nrbl"}
    o["char"] = rng.choice(["", "", " ", "\t", ".", "é"])
    o["size"] = rng.choice([0, 0, 1, 2, 3, 7, 20, 100])
    return o


def printed(c, odd, opts, docs_kw, thorough_opts="few"):
    q = c.tier == "quick"
    cases = c.gen_cases("MCPrint", cfg="MCPrint" if q else "MCPrintT", env={"ODD": "yes" if odd else "no"})
    schema = cases[0]["schema"]
    ins = [x["in"] for x in cases[1:]]
    if opts == "plain":
        for x in ins:
            x["opts"] = [o for o in x["opts"] if not (o["n"] or o["r"] or o["b"] or o["l"])][:3]
    c.validate_traces("TrPrint", ins, "print", label="MCPrint", env={"VIEW": "text"})
    g = Docs(random.Random("large/%s/%d" % (c.prop, c.seed)), schema)
    c.validate_traces("TrPrint", [{"doc": d, "opts": [PLAIN] if opts == "plain" else [opt(g.r) for _ in range(2)]} for d in g.large()], "print", label="large-documents", env={"VIEW": "text"})
    if odd:
        c.validate_traces("TrPrint", [{"doc": d, "opts": [PLAIN]} for d in g.sweep()], "print", label="every-character", env={"VIEW": "text"})
    for r in range(2 if q else 25):
        rng = random.Random("print/%s/%d/%d" % (c.prop, c.seed, r))
        for n, depth, fill in ((900, 2, .5), (100, 4, .35)):
            g = Docs(rng, schema, fill=fill, **docs_kw)
            ins = [{"doc": g.doc(depth), "opts": [PLAIN, dict(PLAIN, char=rng.choice(["\t", ".", "é"]), size=rng.choice([1, 3, 4]))] if opts == "plain" else [opt(rng) for _ in range(4)]} for _ in range(n)]
            c.validate_traces("TrPrint", ins, "print", label="random-documents", env={"VIEW": "text"})


def C23(c):
    printed(c, False, "plain", {"wrong": .08})


def C24(c):
    printed(c, False, "all", {"wrong": .05})


def C25(c):
    printed(c, True, "plain", {"wrong": .03, "ctrl": .4})
    cli_streams(c, 120 if c.tier == "quick" else 3000, wrong=.02, ctrl=.4, fill=.3)


def C26(c):
    q = c.tier == "quick"
    cases = c.gen_cases("MCWhois", cfg="MCWhois" if q else "MCWhoisT")
    schema = cases[0]["schema"]
    c.validate_traces("TrPrint", [x["in"] for x in cases[1:]], "print", label="MCWhois", env={"VIEW": "whois"})
    for r in range(2 if q else 25):
        rng = random.Random("whois/%d/%d" % (c.seed, r))
        g = Docs(rng, schema)
        ins = [{"doc": g.whoisish(), "opts": []} for _ in range(1200)] + [{"doc": g.doc(1), "opts": []} for _ in range(150)]
        c.validate_traces("TrPrint", ins, "print", label="random-documents", env={"VIEW": "whois"})
    cli_streams(c, 80 if q else 2000, wrong=.02, fill=.2)
    c.assumptions.append("a telephone property without any value, and addresses that are lists of lists only, are left open")
