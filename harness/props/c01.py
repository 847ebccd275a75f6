"""C01 naming constraints"""
import random

from props import chainlib
from props.chainlib import decorate
from props.chainlib import st

LEVEL = "model_checking"
TA = "https://ta.example.net"
FOCUS = ("name", "rejected", "verified_chain")


def from_naming(c, kind, rng, deco):
    """A case from a chain [{host, mpl, permitted, excluded}] of Naming.tla"""
    chain = []
    iss, signer = TA, "TA-1"
    n = len(c["chain"])
    seen = {}
    for i, s in enumerate(c["chain"][:-1]):
        url = decorate(rng, s["host"]) if deco else "https://" + ".".join(s["host"])
        k = f"k{i}"
        chain.append(st(iss, url, signer, [k], host=s["host"], mpl=s["mpl"],
                        permitted=s["permitted"], excluded=s["excluded"]))
        iss, signer = url, k
    leaf = c["chain"][-1]
    # The last statement is the subject's own
    if c["chain"][-2]["host"] != leaf["host"]:
        if kind == "verify":
            return None
        iss = "https://" + ".".join(leaf["host"])
    chain.append(st(iss, iss, signer, [signer], host=leaf["host"]))
    return {"anchors": {TA: ["TA-1"]},
            "ops": [{"op": kind, "now": 0, "chain": chain, "api": rng.randrange(3)}]}


LABELS = ["a", "b", "com", "example", "org", "aa", "xexample", "com2", "*", "b-c"]


def rand_host(rng, pool):
    if pool and rng.random() < 0.8:
        h = list(rng.choice(pool))
        r = rng.random()
        if r < 0.35:
            h = [rng.choice(LABELS)] + h
        elif r < 0.45 and len(h) > 1:
            h = h[1:]
        elif r < 0.55:
            h[rng.randrange(len(h))] = rng.choice(LABELS)
        elif r < 0.6:
            h = ["x" + h[0]] + h[1:]
        return h[-5:]
    return [rng.choice(LABELS) for _ in range(rng.randint(1, 4))]


def random_case(rng, kind, mpl_focus=False):
    n = rng.randint(1, 5 if not mpl_focus else 7)
    pool = [["example", "com"], ["a", "example", "com"], ["org"]]
    hosts = []
    for _ in range(n):
        h = rand_host(rng, pool + hosts)
        hosts.append(h)
    chain = []
    iss, signer = TA, "TA-1"
    sent = []
    mode = rng.random()
    for i, h in enumerate(hosts):
        s = dict(mpl=-1, permitted=[], excluded=[])
        if rng.random() < (0.5 if mpl_focus else 0.1):
            s["mpl"] = rng.choice([0, 1, 2, 3, n - 2 - i, n - 1 - i, n - 1 - i, n - i, 9])
            s["mpl"] = max(0, s["mpl"])
        if rng.random() < (0.15 if mpl_focus else 0.7):
            for key, p in (("permitted", 0.5), ("excluded", 0.5)):
                if rng.random() < p:
                    for _ in range(rng.randint(1, 3)):
                        r = rng.random()
                        if r < 0.5:     # something that covers those below
                            src = rng.choice(hosts[i:])
                            lab = src[rng.randrange(len(src)):]
                            if key == "excluded":
                                lab = rand_host(rng, [lab])
                        elif r < 0.75 and sent:
                            e = rng.choice(sent)
                            lab = [rng.choice(LABELS)] + e["labels"] if rng.random() < 0.7 else e["labels"]
                        else:
                            lab = rand_host(rng, pool + hosts)
                        e = {"dot": rng.random() < 0.4, "labels": lab[-5:]}
                        if rng.random() < 0.15:
                            e["scheme"] = "http"
                        if rng.random() < 0.15:
                            e["upper"] = True
                        if rng.random() < 0.15:
                            e["tail"] = rng.choice(["/", ":8443", "/p", "?a.b=c"])
                        if rng.random() < 0.05:
                            e["labels"][0] = "*"
                        s[key].append(e)
                        sent.append(e)
            for f in ("empty_permitted", "empty_excluded", "empty_nc"):
                if rng.random() < 0.1:
                    s[f] = True
        if rng.random() < 0.1:
            s["empty_constraints"] = True
        url = decorate(rng, h) if i < n - 1 or rng.random() < 0.5 else "https://" + ".".join(h)
        url = decorate(rng, h)
        k = f"k{i}"
        chain.append(st(iss, url, signer, [k], host=h, **s))
        iss, signer = url, k
    # with something of its own that can not change anything
    chain.append(st(iss, iss, signer, [signer], host=hosts[-1]))
    return {"anchors": {TA: ["TA-1"]},
            "ops": [{"op": kind, "now": 0, "chain": chain, "api": rng.randrange(3)}]}


def run(ctx):
    ctx.model_check("NamingMCdef", "NamingQuick.cfg" if ctx.quick else "NamingThorough.cfg")
    gen = ctx.generate("NamingGen", "NamingGen.cfg")
    rng = ctx.rng
    rng.shuffle(gen)
    n_direct, n_e2e, n_rand = (12000, 3000, 4000) if ctx.quick else (len(gen), 12000, 60000)
    cases = [from_naming(c, "restrict", rng, False) for c in gen[:n_direct]]
    e2e = [c for c in (from_naming(c, "verify", rng, rng.random() < 0.5) for c in gen) if c][:n_e2e]
    cases += e2e
    cases += [random_case(rng, "restrict") for _ in range(n_rand)]
    cases += [random_case(rng, "verify") for _ in range(n_rand)]
    pairs = ctx.execute(chainlib.run_case, cases)
    ctx.judge("ChainTrace", pairs)
    ctx.count("outcomes", [f"{p[1]['steps'][0]['op']}:{p[1]['steps'][0]['obs']['ok']}" for p in pairs])
    chainlib.only(*FOCUS)(ctx)


def replay(ctx, case):
    chainlib.replay(ctx, case)
    chainlib.only(*FOCUS)(ctx)
