"""Histories of an entity that collects trust chains (Collect.tla)."""
import copy
import json

from idpyoidc.message import Message

import world
from world import BASE
from world import CLOCK

SELF = "https://self.example.se"


def ids_of(case):
    return sorted(case["ents"])


def fed_ents(case):
    """case["ents"]: {id: {"hints": [..] or None, "subs": [..], "life": s, "eslife": s, "up": bool}}"""
    res = {}
    for eid, e in case["ents"].items():
        k = case.get("keyof", {}).get(eid, eid + "#1")
        res[eid] = {"keys": [k], "hints": e["hints"], "life": e.get("life", 86400),
                    "down": not e.get("up", True),
                    "subs": {s: {"keys": [case.get("keyof", {}).get(s, s + "#1")],
                                 "life": e.get("eslife", {}).get(s, 86400)} for s in e["subs"]},
                    "metadata": {"federation_entity": {"organization_name": "?"}},
                    "extra": e.get("extra", {})}
    return res


class MarkedFederation(world.Federation):
    """Every configuration tells which number it has"""

    def ec(self, eid):
        self.ents[eid]["metadata"]["federation_entity"]["organization_name"] = \
            f"n{len(self.served) + 1}"
        return super().ec(eid)


def number(tok, fed):
    return fed.by_token.get(tok, 0)


def restore(fe):
    """What is remembered is written down and read back, as when the entity is restarted. Changes nothing."""
    col = fe.function.trust_chain_collector
    for c in ("config_cache", "entity_statement_cache"):
        old = getattr(col, c)
        new = type(old)()
        kept = old.dump()
        if not any(isinstance(v, Message) for v in kept.get("_db", {}).values()):
            kept = json.loads(json.dumps(kept))
        new.load(kept)
        setattr(col, c, new)
    for e, tcs in list(fe.trust_chain.items()):
        fe.trust_chain[e] = [type(tc)().load(json.loads(json.dumps(tc.dump()))) for tc in tcs]


def run_case(case):
    from fedservice.entity.function import collect_trust_chains
    CLOCK.install(0)
    fed = MarkedFederation(fed_ents(case))
    delta = case.get("delta", 600)
    try:
        with fed:
            slow = [0]
            base_handler = fed.handler

            last = [""]

            def handler(*a):
                url = a[1]
                host = "/".join(url.split("/")[:3])
                if url.endswith(world.WELL_KNOWN) and url != host + world.WELL_KNOWN and \
                        last[0] == host + world.WELL_KNOWN and fed.served and \
                        fed.served[-1]["sub"] == host:
                    fed.served[-1]["type"] = "lost"  # the host's when it was the tenant's they wanted
                last[0] = url
                r = base_handler(*a)
                CLOCK.now += slow[0]
                return r

            world.NET.handler = handler
            anchors = {a: [case.get("keyof", {}).get(a, a + "#1")] for a in case["anchors"]}
            kw = {}
            if delta != 600:
                kw["init_kwargs"] = {"function": {"trust_chain_collector": {"allowed_delta": delta}}}
            fe = world.make_entity(SELF, anchors, **kw)
            steps = []
            truth = copy.deepcopy(case["ents"])
            for op in case["ops"]:
                if op["op"] == "tick":
                    CLOCK.now += op["by"]
                    continue
                if op["op"] == "store":
                    restore(fe)
                    continue
                if op["op"] == "change":
                    truth[op["id"]].update(op["to"])
                    fed.ents = fed_ents({**case, "ents": truth})
                    continue
                slow[0] = op.get("slow", 0)
                step = {"op": op["op"], "leaf": op["id"], "stop": op.get("stop", ""),
                        "override": [], "given": False, "now": CLOCK.now,
                        "truth": {i: {"hints": e["hints"] or [], "subs": e["subs"],
                                      "up": e.get("up", True)} for i, e in truth.items()}}
                obs = {"ok": True, "err": "", "chains": [], "ec": 0, "n": 0}
                if op["op"] == "collect":
                    kw = {}
                    if op.get("stop"):
                        kw["stop_at"] = op["stop"]
                    if "given" in op:
                        tok, doc = fed.ec(op["id"])
                        doc["type"] = "given"
                        fed.log(tok, doc)
                        kw["signed_entity_configuration"] = tok
                        step["given"] = True
                        step["override"] = doc["hints"]
                        if op["given"]:
                            kw["authority_hints"] = list(op["given"])
                            step["override"] = list(op["given"])
                    step["from"] = len(fed.served)
                    val, err = world.outcome(collect_trust_chains, fe, op["id"], **kw)
                    step["to"] = len(fed.served)
                    if err:
                        obs.update(ok=False, err=err)
                    else:
                        chains, ec = val
                        obs["chains"] = [[number(x, fed) for x in c] for c in chains]
                        obs["ec"] = number(ec, fed) if ec else 0
                        if step["given"]:
                            obs["ec"] = 0
                elif op["op"] == "chains":
                    step["from"] = len(fed.served)
                    val, err = world.outcome(fe.get_trust_chains, op["id"])
                    step["to"] = len(fed.served)
                    if err:
                        obs.update(ok=False, err=err)
                    else:
                        obs["chains"] = [{"exp": tc.exp - BASE,
                                          "docs": [number(x, fed) for x in tc.chain]}
                                         for tc in val]
                elif op["op"] == "metadata":
                    step["from"] = len(fed.served)
                    val, err = world.outcome(fe.get_verified_metadata, op["id"])
                    step["to"] = len(fed.served)
                    if err:
                        obs.update(ok=False, err=err)
                    elif val:
                        name = val["federation_entity"]["organization_name"]
                        obs["n"] = int(name[1:])
                    if not err:
                        # they are kept
                        obs["chains"] = [{"exp": tc.exp - BASE,
                                          "docs": [number(x, fed) for x in tc.chain]}
                                         for tc in fe.get_stored_trust_chains(op["id"]) or []]
                elif op["op"] == "ec":
                    step["from"] = len(fed.served)
                    val, err = world.outcome(fe.do_request, "entity_configuration",
                                             entity_id=op["id"])
                    step["to"] = len(fed.served)
                    if err:
                        obs.update(ok=False, err=err)
                        for d in fed.served[step["from"]:]:
                            d["type"] = "lost"      # not understood
                step["end"] = CLOCK.now
                step["obs"] = obs
                steps.append(step)
        docs = [{k: d[k] for k in ("n", "type", "iss", "sub", "exp", "hints", "at")}
                for d in fed.served]
        return {"ids": {i: 1 for i in truth}, "anchors": list(case["anchors"]), "delta": delta,
                "docs": docs, "steps": steps}
    finally:
        CLOCK.uninstall()


# -------------------------------------------------------------------------------------- cases

NAMES = ["https://ta.example.net", "https://tb.example.net", "https://i1.example.org",
         "https://i2.example.org", "https://i3.example.org/tenant", "https://i4.example.com",
         "https://leaf.example.com", "https://leaf2.example.com/x/y", "https://i3.example.org",
         "https://leaf2.example.com"]


def random_case(rng, nops, lives=(86400,), changes=True, times=()):
    n = rng.randint(3, 7)
    ids = NAMES[:2] + rng.sample(NAMES[2:], n - 2)
    ents = {}
    wild = rng.random() < 0.4
    for i, e in enumerate(ids):
        others = [x for x in ids if x != e] if wild else ids[:i]
        k = rng.choice([0, 1, 1, 2, 2, 3])
        hints = rng.sample(others, min(k, len(others)))
        if i < 2 and rng.random() < 0.8:
            hints = []
        if rng.random() < 0.04 and e not in ids[:2]:
            hints = hints + [e]
        ents[e] = {"hints": hints if hints or rng.random() < 0.3 else None, "subs": [],
                   "life": rng.choice(lives), "eslife": {}, "up": True}
    for e in ids:
        for h in ents[e]["hints"] or []:
            if rng.random() < 0.97 and h != e:
                ents[h]["subs"].append(e)
            ents[h]["eslife"][e] = rng.choice(lives)
    anchors = [ids[0]] + ([ids[1]] if rng.random() < 0.6 else [])
    if rng.random() < 0.2:
        anchors.append(rng.choice(ids[2:]))
    ops = []
    truth = copy.deepcopy(ents)
    used_as_sup = {h for e in ents.values() for h in (e["hints"] or [])}
    for _ in range(nops):
        r = rng.random()
        leaf = rng.choice(ids)
        if leaf in anchors and leaf in (truth[leaf]["hints"] or []):
            continue
        if r < 0.4:
            op = {"op": "collect", "id": leaf}
            if rng.random() < 0.3:
                op["stop"] = rng.choice(ids)
            if rng.random() < 0.2 and leaf not in used_as_sup:
                op["given"] = rng.choice([[], rng.sample([x for x in ids if x != leaf], 1)])
            ops.append(op)
        elif r < 0.65:
            ops.append({"op": "chains", "id": leaf})
        elif r < 0.75:
            ops.append({"op": "metadata", "id": leaf})
        elif r < 0.8:
            ops.append({"op": "ec", "id": leaf})
        elif r < 0.9 and times:
            ops.append({"op": "tick", "by": rng.choice(times)})
        elif changes:
            e = rng.choice(ids)
            what = rng.randrange(4)
            if what == 0:
                to = {"up": not truth[e]["up"]}
            elif what == 1:
                s = rng.choice(ids)
                if s == e:
                    continue
                subs = list(truth[e]["subs"])
                subs.remove(s) if s in subs else subs.append(s)
                to = {"subs": subs}
            else:
                others = [x for x in ids if x != e]
                to = {"hints": rng.sample(others, rng.randint(0, min(2, len(others))))}
                used_as_sup |= set(to["hints"])
                for h in to["hints"]:
                    if e not in truth[h]["subs"]:
                        subs = truth[h]["subs"] + [e]
                        ops.append({"op": "change", "id": h, "to": {"subs": subs}})
                        truth[h]["subs"] = subs
            truth[e].update(to)
            ops.append({"op": "change", "id": e, "to": to})
        if ops and rng.random() < 0.1:
            ops.append({"op": "store"})
        if ops and times and rng.random() < 0.35:
            ops.append({"op": "tick", "by": rng.choice(times)})
        if ops and ops[-1]["op"] in ("collect", "chains", "metadata") and rng.random() < 0.1:
            ops[-1]["slow"] = rng.choice([1, 30, 200])
    return {"ents": ents, "anchors": anchors, "ops": ops}


def judge(ctx, cases, clauses):
    from props import chainlib
    pairs = ctx.execute(run_case, cases)
    ctx.judge("CollectTrace", pairs)
    ctx.count("operations", [f"{s['op']}:{s['obs']['ok']}:{min(3, len(s['obs']['chains']))}"
                             for p in pairs for s in p[1]["steps"]])
    chainlib.only(*clauses)(ctx)
