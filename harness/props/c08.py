"""C08 applying a metadata policy"""
import itertools

from props import c07
from props import policylib

LEVEL = "model_checking"


def run(ctx):
    ctx.model_check("PolicyMC", "PolicyQuick.cfg" if ctx.quick else "PolicyThorough.cfg")
    rng = ctx.rng
    gen = ctx.generate("PolicyMC", "PolicyGen.cfg")
    pols = {}
    for g in gen:
        for p in g["ps"]:
            p = c07.from_spec(p)
            pols[repr(p)] = p
    pols = [pols[k] for k in sorted(pols)]
    ctx.note("policies_from_specification", len(pols))
    cases = []
    # every small policy on every small metadata
    for p in pols:
        for kind in sorted({policylib.kind_for([p], rng) for _ in range(2 if ctx.quick else 5)}):
            cases.append({"pols": [p], "metas": c07.METAS, "kind": kind, "claim": rng.choice(["foo", "scope"])})
    for _ in range(6000 if ctx.quick else 100000):
        p = policylib.rand_policy(rng, maxops=rng.choice([2, 3, 4, 6]))
        ms = [{"has": True, **policylib.rand_val(rng, policylib.ATOMS, allow_empty=True)} for _ in range(3)]
        ms.append({"has": False, "many": False, "v": []})
        cases.append({"pols": [p], "metas": ms, "kind": policylib.kind_for([p], rng),
                      "claim": rng.choice(["foo", "scope", "contacts"])})
    for c in cases:
        if c["kind"] == "dict":
            c["metas"] = [m for m in c["metas"] if not m["many"]]
    pairs = policylib.judge(ctx, policylib.run_applies, cases)
    ctx.count("applications", [str(s["obs"]["ok"]) for p in pairs for s in p[1]["steps"]])


def replay(ctx, case):
    policylib.judge(ctx, policylib.run_applies, [case])
