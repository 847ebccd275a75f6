"""C03 anchoring and signature linkage, whatever was verified before"""
import copy

from props import chainlib
from props.chainlib import SELF
from props.chainlib import st

LEVEL = "model_checking"
FOCUS = ("anchor", "link", "signature", "keys", "rejected", "iss_path", "anchor_id",
         "verified_chain", "anchor_keys", "learned_keys")

URL = {"T": "https://ta.example.net", "U": "https://other-ta.example.net", "I": "https://im.example.org",
       "L": "https://leaf.example.com", "M": "https://mal.example.org", "S": SELF,
       "J": "https://im2.example.org", "X": "https://x.example.org"}
TA, UA = URL["T"], URL["U"]


def from_model(c, rng):
    """A chain of ChainMC"""
    name = lambda k: {"t": "T-1", "u": "U-1", "s": "self-1"}.get(k, k)
    chain = []
    for s in c["chain"]:
        chain.append(st(URL[s["iss"]], URL[s["sub"]], name(s["signer"]), [name(k) for k in s["jwks"]],
                        kid=name(s["kid"]), exp=s["exp"]))
    return chain


# ------------------------------------------------------------------------ random

KEYS = {n: [f"{n}-{i}" for i in (1, 2, 3)] for n in URL}
KEYS["S"] = ["self-1"]


def good_chain(rng, anchor="T", ents=None):
    ents = ents or rng.sample(["I", "J", "L", "X", "M"], rng.randint(1, 4))
    vouched = {e: rng.sample(KEYS[e], rng.randint(1, 2)) for e in ents}
    chain = []
    iss = anchor
    signer = KEYS[anchor][0] if anchor != "S" else "self-1"
    for e in ents:
        chain.append(st(URL[iss], URL[e], signer, vouched[e]))
        iss, signer = e, rng.choice(vouched[e])
    own = rng.sample(KEYS[iss], rng.randint(1, 3))
    chain.append(st(URL[iss], URL[iss], signer, own if rng.random() < 0.85 else None))
    return chain


def all_names(chain):
    return sorted({s["iss"] for s in chain} | {s["sub"] for s in chain} | set(URL.values()))


def mutate(rng, chain):
    chain = copy.deepcopy(chain)
    n = len(chain)
    m = rng.randrange(16)
    i = rng.randrange(n)
    s = chain[i]
    owner = {v: k for k, v in URL.items()}
    anykey = rng.choice(rng.choice(list(KEYS.values())))
    if m == 0:
        s["signer"] = anykey            # signed by someone else, claiming to be the right key
    elif m == 1:
        s["signer"] = s["kid"] = anykey
    elif m == 2:
        s["alg"] = "none"
    elif m == 3:
        s["tampered"] = True
    elif m == 4 and n > 2:
        del chain[rng.randrange(n - 1)]
    elif m == 5 and n > 2:
        j = rng.randrange(n - 1)
        chain[i], chain[j] = chain[j], chain[i]
    elif m == 6:
        s["iss"] = rng.choice(list(URL.values()))
    elif m == 7:
        s["sub"] = rng.choice(list(URL.values()))
    elif m == 8:
        s["jwks"] = [anykey]
    elif m == 9:
        s["hasjwks"], s["jwks"] = False, []
    elif m == 10:                       # someone below claims to be above: a different start
        chain = chain[1:]
    elif m == 11:                       # a detour via an entity that says something about the anchor
        k = rng.randrange(1, n) if n > 1 else 0
        x = rng.choice(list(URL))
        chain.insert(k, st(chain[k - 1]["sub"], URL[x], chain[k]["signer"], [rng.choice(KEYS[x])]))
    elif m == 12:                       # splice two chains
        other = good_chain(rng, rng.choice(["T", "U", "M"]))
        chain = chain[: i + 1] + other[rng.randrange(len(other)):]
    elif m == 13:                       # the malicious entity speaks in the name of its superior
        if n > 1:
            s = chain[max(0, n - 2)]
            s["signer"] = s["kid"] = rng.choice(KEYS["M"])
    elif m == 14:                       # own key in place of the vouched for
        x = owner.get(s["iss"], "X")
        s["signer"] = s["kid"] = rng.choice(KEYS[x])
    elif m == 15:
        # keys for the anchor, vouched for by someone else, used to sign in the name of the anchor
        x = rng.choice(["M-1", "M-2"])
        chain[0]["signer"] = chain[0]["kid"] = x
    return chain


def poison(rng):
    """A chain that is fine but where someone says what keys an anchor (or oneself) has, followed by
    one that makes use of those keys"""
    tgt = rng.choice(["T", "T", "S", "U"])
    evil = rng.choice(KEYS["M"])
    by = rng.choice([["M"], ["I", "M"]])
    chain = []
    iss, signer = "T", "T-1"
    for e in by:
        chain.append(st(URL[iss], URL[e], signer, [KEYS[e][0]]))
        iss, signer = e, KEYS[e][0]
    chain.append(st(URL[iss], URL[tgt], signer, [evil]))
    chain.append(st(URL[tgt], URL[tgt], evil, [evil]))
    use = [st(URL[tgt], URL["L"], evil, ["L-1"]), st(URL["L"], URL["L"], "L-1", ["L-1"])]
    return [chain, use]


def late_key(rng):
    """A key learned for an intermediate in one chain is of no use in another"""
    a = [st(TA, URL["I"], "T-1", ["I-1"]), st(URL["I"], URL["I"], "I-1", ["I-1", "I-2"])]
    b = [st(TA, URL["I"], "T-1", ["I-1"]), st(URL["I"], URL["L"], rng.choice(["I-1", "I-2"]), ["L-1"]),
         st(URL["L"], URL["L"], rng.choice(["L-1", "L-2"]), ["L-1", "L-2"])]
    c = [st(URL["I"], URL["L"], rng.choice(["I-1", "I-2"]), ["L-1"]), st(URL["L"], URL["L"], "L-1", ["L-1"])]
    d = [st(TA, URL["I"], "T-1", ["I-3"]), st(URL["I"], URL["L"], rng.choice(["I-1", "I-3"]), ["L-1"]),
         st(URL["L"], URL["L"], "L-1", ["L-1"])]
    res = [a, b, c, d]
    rng.shuffle(res)
    return res


def limited(rng, chain):
    """Linked as it should be, but for something else it is perhaps not accepted"""
    chain = copy.deepcopy(chain)
    s = rng.choice(chain)
    r = rng.randrange(3)
    if r == 0:
        s["mpl"] = 0
    elif r == 1:
        s["excluded"] = [{"dot": True, "labels": rng.choice([["example", "org"], ["example", "com"]])}]
    else:
        s["exp"] = -100
    for x in chain:
        x["host"] = chainlib.host_of(x["sub"])
    return chain


def random_case(rng):
    ops = []
    chains = []
    for _ in range(rng.randint(1, 6)):
        r = rng.random()
        if r < 0.15:
            chains += poison(rng)
        elif r < 0.25:
            chains += late_key(rng)
        elif r < 0.45:
            chains.append(good_chain(rng, rng.choice(["T", "T", "U", "S", "I"])))
        elif r < 0.5:
            a = rng.choice(["T", "U", "S"])
            k = KEYS[a][0]
            chains.append([st(URL[a], URL[a], rng.choice(KEYS[a]) if rng.random() < 0.3 else k, [k])])
        else:
            c = mutate(rng, good_chain(rng, rng.choice(["T", "T", "T", "U", "M"])))
            if rng.random() < 0.2:
                c = mutate(rng, c)
            if c:
                chains.append(c)
    if rng.random() < 0.3:
        chains += rng.sample(chains, min(2, len(chains)))
    chains = [limited(rng, c) if rng.random() < 0.1 else c for c in chains]
    for c in chains:
        ops.append({"op": "verify", "now": 0, "chain": c, "api": rng.randrange(3)})
    anchors = {TA: ["T-1"]}
    if rng.random() < 0.3:
        anchors = {TA: ["T-1", "T-2"]}
    if rng.random() < 0.3:
        anchors[UA] = ["U-1"]
    case = {"anchors": anchors, "ops": ops}
    if rng.random() < 0.4:
        # Keys of others that are known for some other reason
        case["known_keys"] = {URL[x]: [KEYS[x][0]] for x in rng.sample(["I", "J", "M", "U", "L"], 2)
                              if URL[x] not in anchors}
    return case


def run(ctx):
    ctx.model_check("ChainMC", "ChainQuick.cfg" if ctx.quick else "ChainThorough.cfg")
    rng = ctx.rng
    gen = ctx.generate("ChainGen", "ChainGen.cfg")
    rng.shuffle(gen)
    # several in a row in the same entity
    gen = gen[: 6000 if ctx.quick else len(gen)]
    cases = []
    for i in range(0, len(gen), 4):
        cases.append({"anchors": {TA: ["T-1"]},
                      "ops": [{"op": "verify", "now": 0, "chain": from_model(c, rng), "api": rng.randrange(3)}
                              for c in gen[i:i + 4]]})
    cases += [random_case(rng) for _ in range(2500 if ctx.quick else 60000)]
    pairs = ctx.execute(chainlib.run_case, cases)
    ctx.judge("ChainTrace", pairs)
    ctx.count("outcomes", [str(s["obs"]["ok"]) for p in pairs for s in p[1]["steps"]])
    chainlib.only(*FOCUS)(ctx)


def replay(ctx, case):
    chainlib.replay(ctx, case)
    chainlib.only(*FOCUS)(ctx)
