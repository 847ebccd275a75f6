"""C04 nothing that has expired is accepted or handed out"""
from props import chainlib
from props import c03
from props import collectlib

LEVEL = "model_checking"
FOCUS = ("expired", "exp", "rejected", "wrong_leaf", "unverified", "no_metadata")


def chain_case(rng):
    """One chain, or a few, looked at again and again while time passes"""
    chains = []
    for _ in range(rng.randint(1, 3)):
        c = c03.good_chain(rng)
        base = rng.choice([100, 1000, 100000])
        for s in c:
            s["exp"] = base + rng.choice([0, 0, 0, 1, -1, 50, -50, 5000])
            # things that can not change anything
            if rng.random() < 0.2:
                s["extra"] = {"nbf": rng.choice([1, 5])} if rng.random() < 0.3 else {"jti": "x"}
        chains.append(c)
    exps = sorted({s["exp"] for c in chains for s in c})
    times = sorted(rng.choice(exps) + rng.choice([-1, 0, 1, 2, -40]) for _ in range(rng.randint(1, 5)))
    ops = []
    for t in times:
        for c in rng.sample(chains, rng.randint(1, len(chains))):
            ops.append({"op": "verify", "now": max(0, t), "chain": c, "api": rng.randrange(3)})
    return {"anchors": {c03.TA: ["T-1"]}, "ops": ops}


def run(ctx):
    ctx.model_check("ChainMC", "ChainQuick.cfg" if ctx.quick else "ChainThorough.cfg")
    ctx.model_check("CacheMC", "CacheQuick.cfg" if ctx.quick else "CacheThorough.cfg")
    rng = ctx.rng
    pairs = ctx.execute(chainlib.run_case,
                        [chain_case(rng) for _ in range(1200 if ctx.quick else 25000)])
    ctx.judge("ChainTrace", pairs)
    ctx.count("verifications", [str(s["obs"]["ok"]) for p in pairs for s in p[1]["steps"]])
    cases = []
    for _ in range(600 if ctx.quick else 15000):
        lives = rng.choice([(700, 1000, 5000), (100, 599, 600, 601, 1300), (86400, 1000), (3600, 3601)])
        times = rng.choice([(1, 100, 500), (99, 100, 101, 599, 600, 601), (699, 700, 701, 1000), (3599, 3600, 3601, 1),
                            (5000, 86401)])
        case = collectlib.random_case(rng, rng.randint(4, 14), lives=lives, times=times)
        for op in case["ops"]:
            if op["op"] == "collect" and not op.get("stop") and "given" not in op and rng.random() < 0.7:
                op["op"] = rng.choice(["chains", "metadata"])
        cases.append(case)
    collectlib.judge(ctx, cases, FOCUS)


def replay(ctx, case):
    if "ents" in case:
        collectlib.judge(ctx, [case], FOCUS)
    else:
        chainlib.replay(ctx, case)
        chainlib.only(*FOCUS)(ctx)
