"""C05 collecting finds exactly the chains there are, and ends"""
from props import chainlib
from props import collectlib

LEVEL = "model_checking"
FOCUS = ("failed", "paths", "duplicates", "made_up", "wrong_leaf", "no_leaf", "anchor")
URL = {"A": "https://a.example.org", "B": "https://b.example.net/t", "C": "https://c.example.com",
       "L": "https://l.example.com"}


def from_model(g, rng):
    """Every entity of the graph is registered with those it hints at"""
    ents = {URL[e]: {"hints": [URL[h] for h in hs], "subs": [], "life": 86400, "up": True}
            for e, hs in g["hints"].items()}
    for e, hs in g["hints"].items():
        rng.shuffle(ents[URL[e]]["hints"])
        if not hs and rng.random() < 0.5:
            ents[URL[e]]["hints"] = None
        for h in hs:
            if h != e:
                ents[URL[h]]["subs"].append(URL[e])
    anchors = [URL[e] for e in g["hints"] if e not in g["hints"][e] and e != "L"]
    stop = URL.get(g["stop"], "")
    ops = [{"op": "collect", "id": URL["L"], "stop": stop}]
    if not stop:
        ops.append({"op": "chains", "id": URL["L"]})
    return {"ents": ents, "anchors": anchors[:rng.randint(1, 2)] or ["https://zz.example.org"],
            "keyof": {}, "ops": ops}


def run(ctx):
    ctx.model_check("CollectMC", "CollectQuick.cfg" if ctx.quick else "CollectThorough.cfg")
    gen = ctx.generate("CollectMC", "CollectGen.cfg")
    rng = ctx.rng
    rng.shuffle(gen)
    cases = [from_model(g, rng) for g in gen]
    cases += [collectlib.random_case(rng, rng.randint(1, 5), changes=False)
              for _ in range(600 if ctx.quick else 12000)]
    collectlib.judge(ctx, cases, FOCUS)


def replay(ctx, case):
    collectlib.judge(ctx, [case], FOCUS)
