"""C10 which trust chain is used, and for how long"""
import world
from props.c17 import LIVES
from props.c17 import build
from props.c17 import name
from props.c17 import rand_world
from props.c17 import tv
from props.c17 import url
from world import BASE
from world import CLOCK

LEVEL = "model_checking"


def run_case(case):
    from fedservice import get_trust_chain
    from fedservice import save_trust_chains
    from fedservice.entity.function import get_verified_trust_chains
    from fedservice.entity.function import verify_trust_chain
    from fedservice.entity_statement.statement import TrustChain
    w = case["world"]
    CLOCK.install(0)
    fed = build(w)
    keys = {e["id"]: e["keys"] for e in w["ents"]}
    anchors = {url(a): keys[a] for a in case["known"]}
    fe = world.make_entity("https://me.example.net", dict(anchors))
    objs = []

    def chain(tc):
        for i, o in enumerate(objs):
            if o is tc:
                n = i + 1
                break
        else:
            objs.append(tc)
            n = len(objs)
        return {"id": n, "anchor": name(tc.anchor), "sub": name(tc.iss_path[0]), "len": len(tc.verified_chain),
                "exp": tc.exp - BASE, "md": tv(tc.metadata)}

    def make(c):
        path = [url(c["sub"]), *[f"https://x{i}.example.org" for i in range(c["len"] - 2)], url(c["anchor"])]
        tc = TrustChain(anchor=path[-1], iss_path=path, exp=BASE + c["exp"], verified_chain=[{"n": i} for i in range(c["len"])],
                        metadata={"openid_provider": {"contacts": [c["mark"]]}})
        return tc

    def saved():
        res = []
        for e in sorted(subs):
            tcs = get_trust_chain(fe.context, url(e))
            for a in sorted(tcs or {}):
                res.append({"sub": e, "anchor": name(a), "c": chain(tcs[a])})
        return res

    subs = {s["sub"] for s in case["steps"] if "sub" in s}
    steps, slot = [], {}
    down = False
    with fed:
        fed.hook = lambda *a: (404, "text/plain", "gone") if down else None
        try:
            for s in case["steps"]:
                s = dict(s)
                op = s["op"]
                if op == "tick":
                    CLOCK.now += s["d"]
                elif op == "down":
                    down = s["v"]
                elif op == "prio":
                    fe.context.tr_priority = [url(a) for a in s["prio"]]
                elif op == "collect":
                    tcs, err = world.outcome(get_verified_trust_chains, fe, url(s["sub"]))
                    slot[s["sub"]] = tcs or []
                    continue
                elif op == "make":
                    slot[s["sub"]] = [make(c) for c in s["chains"]]
                    continue
                elif op in ("pick", "save", "keep", "export"):
                    tcs = slot.get(s["sub"])
                    if not tcs:
                        continue
                    s["chains"] = [chain(c) for c in tcs]
                    if op == "pick":
                        s["obs"] = chain(fe.pick_trust_chain(list(tcs)))["id"]
                    elif op == "save":
                        save_trust_chains(fe.context, list(tcs))
                        s["obs"] = saved()
                    elif op == "keep":
                        (fe.store_trust_chain if s["how"] else fe.store_trust_chains)(url(s["sub"]), list(tcs))
                    else:
                        tcs = [c for c in tcs if getattr(c, "chain", None)]
                        if not tcs:
                            continue
                        ex = tcs[0].export_chain()
                        third = world.make_entity("https://third.example.net", dict(anchors))
                        ch, err = world.outcome(verify_trust_chain, third, list(reversed(ex)))
                        s["path"] = tcs[0].iss_path
                        s["obs"] = ch.iss_path if ch else [err or "nothing"]
                        if tcs[0].exp - BASE < CLOCK.now:
                            continue
                elif op == "stored":
                    res, err = world.outcome(fe.pick_from_stored_trust_chains, url(s["sub"]))
                    s["obs"] = chain(res)["id"] if res else 0
                elif op == "lookup":
                    res = get_trust_chain(fe.context, url(s["sub"]), url(s["anchor"]))
                    if s["anchor"]:
                        s["obs"] = [chain(res)] if res else []
                    else:
                        s["obs"] = [chain(res[a]) for a in sorted(res or {})]
                elif op == "get":
                    res, err = world.outcome(fe.get_trust_chains, url(s["sub"]))
                    s["obs"] = [chain(c) for c in res or []]
                    if res:
                        slot[s["sub"]] = res
                elif op == "md":
                    res, err = world.outcome(fe.get_verified_metadata, url(s["sub"]))
                    s["obs"] = tv(res) if res is not None else ["none"]
                    s["kept"] = [chain(c) for c in fe.get_stored_trust_chains(url(s["sub"])) or []]
                s.pop("v", None)
                steps.append(s)
        finally:
            CLOCK.uninstall()
    return {"world": {"known": case["known"], "ents": [{k: e[k] for k in ("id", "signer", "hints", "types")} for e in w["ents"]],
                      "edges": [{k: e[k] for k in ("sup", "sub", "keys")} for e in w["edges"]]},
            "steady": not any(s["op"] == "down" for s in case["steps"]), "steps": steps}


def rand_case(rng):
    w = rand_world(rng, rng.random() < 0.2)
    ids = [e["id"] for e in w["ents"]]
    known = [i for i in ids if i in ("t", "u")]
    steps = []
    n = 0
    down = rng.random() < 0.2
    for _ in range(rng.randint(5, 18)):
        r = rng.random()
        sub = rng.choice(["a", "a", "b", rng.choice(ids)])
        if r < 0.2:
            steps.append({"op": "tick", "d": rng.choice([1, 50, 100, 300, 700, 86400])})
        elif r < 0.25:
            steps.append({"op": "prio", "prio": rng.sample(["t", "u", "v", "w"], rng.randint(0, 4))})
        elif r < 0.33:
            steps.append({"op": "collect", "sub": sub})
        elif r < 0.43:
            cs = []
            for _ in range(rng.randint(1, 4)):
                n += 1
                cs.append({"anchor": rng.choice("tuvw"), "sub": sub, "len": rng.randint(2, 5), "exp": rng.choice([-1, 0, *LIVES]),
                           "mark": f"made{n}"})
            steps.append({"op": "make", "sub": sub, "chains": cs})
            steps.append({"op": rng.choice(["pick", "save"]), "sub": sub})
        elif r < 0.47 and down:
            steps.append({"op": "down", "v": rng.random() < 0.5})
        elif r < 0.52:
            steps.append({"op": "lookup", "sub": sub, "anchor": rng.choice(["", "t", "u", "v"])})
        else:
            s = {"op": rng.choice(["pick", "save", "stored", "get", "get", "md", "keep", "export"]), "sub": sub}
            if s["op"] == "keep":
                s["how"] = rng.randrange(2)
            steps.append(s)
    return {"world": w, "known": known, "steps": steps}


def run(ctx):
    ctx.model_check("SelectMC", "SelectQuick.cfg" if ctx.quick else "SelectThorough.cfg")
    for n in "t u m n k a b z".split():
        for q in "123":
            world.key(n + q)
    cases = [rand_case(ctx.rng) for _ in range(400 if ctx.quick else 8000)]
    pairs = ctx.execute(run_case, cases)
    ctx.judge("SelectTrace", pairs)
    ctx.count("steps", [s["op"] for p in pairs for s in p[1]["steps"]])


def replay(ctx, case):
    ctx.judge("SelectTrace", ctx.execute(run_case, [case]))
