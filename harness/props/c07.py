"""C07 combining metadata policies"""
from props import policylib

LEVEL = "model_checking"
METAS = ([{"has": False, "many": False, "v": []}, {"has": True, "many": True, "v": []}]
         + [{"has": True, "many": False, "v": [a]} for a in "ab"]
         + [{"has": True, "many": True, "v": v} for v in (["a"], ["b"], ["a", "b"], ["a", "b", "c"])])


def from_spec(p):
    return [{"o": o, "many": v["many"], "v": sorted(v["s"])} for o, v in sorted(p.items())] if p else []


def with_metas(rng, p, q, n):
    return {"p": p, "q": q, "metas": rng.sample(METAS, n), "api": rng.randrange(3),
            "kind": policylib.kind_for([p, q], rng),
            "claim": rng.choice(["foo", "scope", "contacts", "redirect_uris"])}


def run(ctx):
    ctx.model_check("PolicyMC", "PolicyQuick.cfg" if ctx.quick else "PolicyThorough.cfg")
    if not ctx.quick:
        ctx.model_check("PolicyMC", "PolicyDeep.cfg")
    rng = ctx.rng
    gen = ctx.generate("PolicyMC", "PolicyGen.cfg")
    rng.shuffle(gen)
    cases = [with_metas(rng, *[from_spec(p) for p in g["ps"]], 3)
             for g in gen[: 9000 if ctx.quick else len(gen)]]
    for _ in range(6000 if ctx.quick else 60000):
        p = policylib.rand_policy(rng)
        q = policylib.related(rng, p) if rng.random() < 0.7 else policylib.rand_policy(rng)
        cases.append(with_metas(rng, p, q, 3))
    pairs = policylib.judge(ctx, policylib.run_combine, cases)
    ctx.count("combinations", [str(p[1]["steps"][0]["obs"]["ok"]) for p in pairs])
    ctx.note("applications", sum(len(p[1]["steps"]) - 1 for p in pairs))


def replay(ctx, case):
    policylib.judge(ctx, policylib.run_combine, [case])
