"""C02 path length"""
from props import c01
from props import chainlib

LEVEL = "model_checking"
FOCUS = ("path_length", "rejected", "verified_chain")


def run(ctx):
    ctx.model_check("NamingMCdef", "PathLen.cfg")
    rng = ctx.rng
    gen = ctx.generate("NamingGen", "PathLenGen.cfg")
    rng.shuffle(gen)
    n_rand = 1500 if ctx.quick else 40000
    cases = [c01.from_naming(c, "restrict", rng, False) for c in gen]
    for c in gen[: 1200 if ctx.quick else len(gen)]:
        # one host for all of them, different paths
        c = c01.from_naming(c, "verify", rng, False)
        chain = c["ops"][0]["chain"]
        for i, s in enumerate(chain[:-1]):
            if i:
                s["iss"] = chain[i - 1]["sub"]
            s["sub"] = f"https://example.com/{i}"
        chain[-1]["iss"] = chain[-1]["sub"] = chain[-2]["sub"]
        cases.append(c)
    for c in rng.sample(cases, 300 if ctx.quick else 3000):
        # the trust anchor's own configuration may come first in a chain, without changing anything
        if c["ops"][0]["op"] == "verify" and c["ops"][0]["chain"][0]["iss"] == c01.TA:
            chain = [chainlib.st(c01.TA, c01.TA, "TA-1", ["TA-1"])] + c["ops"][0]["chain"]
            cases.append({"anchors": c["anchors"], "ops": [{"op": "verify", "now": 0, "chain": chain}]})
    cases += [c01.random_case(rng, "restrict", mpl_focus=True) for _ in range(n_rand)]
    cases += [c01.random_case(rng, "verify", mpl_focus=True) for _ in range(n_rand)]
    pairs = ctx.execute(chainlib.run_case, cases)
    ctx.judge("ChainTrace", pairs)
    ctx.count("outcomes", [f"{p[1]['steps'][0]['op']}:{p[1]['steps'][0]['obs']['ok']}" for p in pairs])
    chainlib.only(*FOCUS)(ctx)


def replay(ctx, case):
    chainlib.replay(ctx, case)
    chainlib.only(*FOCUS)(ctx)
