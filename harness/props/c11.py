"""C11 what a trust mark issuer says about the trust marks it has issued"""
import json
import os
import shutil
import tempfile
from urllib.parse import urlencode

import world
from world import BASE
from world import CLOCK
from world import give_key
from world import rsa

LEVEL = "model_checking"
TMI = "https://tmi.example.org"
URL = {"a": "https://refeds.org/sirtfi", "b": "https://b.example.com/mark", "c": "https://refeds.org/sirtfi/2",
       "u": "https://unknown.example.com/"}
SUB = {"x": "https://x.example.org", "y": "https://y.example.org/", "z": "https://x.example.org/tenant"}


def make(case, files):
    spec = {}
    for e in case["lives"]:
        c = dict(case.get("extra", {}).get(e["id"], {}))
        if e["life"] != -1:
            c["lifetime"] = e["life"]
        spec[URL[e["id"]]] = c
    kw = {"trust_mark_specification": spec,
          "endpoint": {n: {"path": n, "class": f"fedservice.trust_mark_entity.server.{n}.{c}", "kwargs": {}}
                       for n, c in (("trust_mark", "TrustMark"), ("trust_mark_list", "TrustMarkList"),
                                    ("trust_mark_status", "TrustMarkStatus"))}}
    if files:
        kw["trust_mark_db"] = {"class": "fedservice.trust_mark_entity.FileDB", "kwargs": files}
    fe = world.make_entity(TMI, {"https://ta.example.net": ["TA-1"]},
                           trust_mark_entity={"class": "fedservice.trust_mark_entity.entity.TrustMarkEntity",
                                              "kwargs": kw})
    give_key(fe, rsa("tmi-rsa"))
    return fe


class Issuer:
    def __init__(self, case, tmp):
        self.case, self.tmp, self.n = case, tmp, 0
        self.fe = make(case, self.files())
        self.tokens = []

    def files(self):
        if self.case["db"] == "simple":
            return None
        return {URL[e["id"]]: os.path.join(self.tmp, f"{self.n}-{e['id']}") for e in self.case["lives"]}

    @property
    def tm(self):
        return self.fe.server.trust_mark_entity

    def restart(self):
        if self.case["db"] == "file":  # The same files
            self.fe = make(self.case, self.files())
        else:
            dump = self.tm.dump_trust_marks()
            self.n += 1
            self.fe = make(self.case, self.files())
            self.tm.load_trust_marks(dump)

    def withdraw(self, id, sub):
        """Whoever runs the issuer takes the trust marks that sub has out of the records"""
        def keep(x):
            if isinstance(x, str) and x.strip().startswith("{"):
                return keep(json.loads(x))
            return not (isinstance(x, dict) and x.get("id") == URL[id] and x.get("sub") == SUB[sub])

        def strip(x):
            if isinstance(x, dict):
                return {k: strip(v) for k, v in x.items() if keep(v)}
            return [strip(v) for v in x if keep(v)] if isinstance(x, list) else x

        if self.case["db"] == "file":
            for f in self.files().values():
                with open(f) as fp:
                    lines = [x for x in fp if keep(x)]
                with open(f, "w") as fp:
                    fp.writelines(lines)
        else:
            dump = json.dumps(strip(json.loads(self.tm.dump_trust_marks())))
            self.n += 1
            self.fe = make(self.case, self.files())
            self.tm.load_trust_marks(dump)

    def craft(self, id, sub, iat, key):
        """A trust mark that there is no record of"""
        if key == "own":
            return self.tm.self_signed_trust_mark(id=URL[id], sub=SUB[sub], iat=BASE + iat)
        from cryptojwt.jws.jws import JWS
        msg = json.dumps({"iss": TMI, "id": URL[id], "sub": SUB[sub], "iat": BASE + iat})
        return JWS(msg, alg="RS256").sign_compact([rsa("not-tmi")])

    def endpoint(self, name, req, how):
        ep = self.fe.server.endpoint[name]
        if how == 1:
            req = ep.parse_request(urlencode(req))
        elif how == 2:
            req = ep.parse_request(req)
        return ep, ep.process_request(req)


def run_case(case):
    from cryptojwt.jws.jws import factory
    CLOCK.install(0)
    tmp = tempfile.mkdtemp(prefix="c11-")
    try:
        iss = Issuer(case, tmp)
        steps = []
        for op in case["ops"]:
            s = dict(op)
            if op["op"] == "tick":
                CLOCK.now += op["d"]
            elif op["op"] == "restart":
                iss.restart()
            elif op["op"] == "withdraw":
                iss.withdraw(op["id"], op["sub"])
            elif op["op"] == "craft":
                iss.tokens.append(iss.craft(op["id"], op["sub"], op["iat"], op["key"]))
                s["iat"] = factory(iss.tokens[-1]).jwt.payload()["iat"] - BASE
            elif op["op"] == "issue":
                extra = {"exp": BASE + op["exp"]} if op.get("exp", -1) != -1 else {}
                CLOCK.drift = op.get("drift")
                if op.get("how"):
                    res, err = world.outcome(iss.endpoint, "trust_mark",
                                             {"trust_mark_id": URL[op["id"]], "sub": SUB[op["sub"]]}, op["how"])
                    tok = res[1]["http_response"] if not err else None
                else:
                    tok, err = world.outcome(iss.tm.create_trust_mark, URL[op["id"]], SUB[op["sub"]], **extra)
                CLOCK.drift = None
                s["exp"], s["after"] = op.get("exp", -1), CLOCK.now
                obs = {"ok": bool(tok), "mark": {"id": "", "sub": "", "iat": -1, "exp": -1},
                       "sig": False, "iss": False, "claims": False}
                if tok:
                    _jws = factory(tok)
                    p = _jws.jwt.payload()
                    back_id = {v: k for k, v in URL.items()}
                    back_sub = {v: k for k, v in SUB.items()}
                    obs["mark"] = {"id": back_id.get(p.get("id"), "?"), "sub": back_sub.get(p.get("sub"), "?"),
                                   "iat": p.get("iat", 0) - BASE,
                                   "exp": p["exp"] - BASE if "exp" in p else -1}
                    obs["iss"] = p.get("iss") == TMI
                    want = case.get("extra", {}).get(op["id"], {})
                    obs["claims"] = {k: v for k, v in p.items() if k not in ("iss", "id", "sub", "iat", "exp")} == want
                    try:
                        _jws.verify_compact(tok, keys=[rsa("tmi-rsa")])
                        obs["sig"] = True
                    except Exception:
                        pass
                    iss.tokens.append(tok)
                s["obs"] = obs
            steps.append(s)
            for q in (op.get("queries") or case["queries"]):
                steps.append(query(iss, q))
        return {"lives": case["lives"], "steps": [s for s in steps if s]}
    finally:
        CLOCK.uninstall()
        shutil.rmtree(tmp, ignore_errors=True)


def query(iss, q):
    s = {k: v for k, v in q.items() if k != "how"}
    op, how = q["op"], q.get("how", 0)
    if op == "find":
        s["obs"] = {"active": bool(iss.tm.find(URL[q["id"]], SUB[q["sub"]], iat=BASE + q["iat"] if q["iat"] >= 0 else 0))}
    elif op == "status":
        req = {"sub": SUB[q["sub"]], ("trust_mark_id" if how != 2 else "id"): URL[q["id"]]}
        if q["iat"] >= 0:
            req["iat"] = BASE + q["iat"]
        _, res = iss.endpoint("trust_mark_status", req, how)
        s["obs"] = {"active": active(res)}
    elif op == "token":
        if q["n"] > len(iss.tokens):
            return None
        res, err = world.outcome(iss.endpoint, "trust_mark_status", {"trust_mark": iss.tokens[q["n"] - 1]}, how)
        s["obs"] = {"active": bool(res) and active(res[1])}
    elif op == "list":
        if how == 0:
            res = iss.tm.list(URL[q["id"]], SUB[q["sub"]]) if q["sub"] else iss.tm.list(URL[q["id"]])
            res = res or []
        elif how == 3:
            res = iss.tm.issued.list(URL[q["id"]], SUB[q["sub"]] if q["sub"] else "")
        else:
            req = {"trust_mark_id": URL[q["id"]]}
            if q["sub"]:
                req["sub"] = SUB[q["sub"]]
            _, res = iss.endpoint("trust_mark_list", req, how)
            res = json.loads(res["response_msg"]) if "response_msg" in res else []
        back = {v: k for k, v in SUB.items()}
        s["obs"] = {"subs": [back.get(x, "?") for x in res]}
    return s


def active(res):
    return bool(res.get("response_args", {}).get("active")) if isinstance(res, dict) else \
        bool((res.to_dict().get("response_args") or {}).get("active"))


def rand_queries(rng, ids, subs, iats, n):
    qs = []
    for _ in range(n):
        op = rng.choice(["find", "status", "status", "token", "token", "list", "list"])
        if op == "token":
            qs.append({"op": op, "n": rng.randint(1, 5), "how": rng.choice([1, 2])})
        elif op == "list":
            qs.append({"op": op, "id": rng.choice(ids), "sub": rng.choice(["", "", *subs]), "how": rng.randrange(4)})
        else:
            qs.append({"op": op, "id": rng.choice(ids), "sub": rng.choice(subs),
                       "iat": rng.choice([-1, -1, *iats]), "how": rng.randrange(3)})
    return qs


EXTRA = {"a": {"ref": "https://refeds.org/ref"}, "b": {}, "c": {"logo_uri": "https://c.example.com/logo", "x": ["y"]}}


def run(ctx):
    ctx.model_check("MarksMC", "MarksQuick.cfg" if ctx.quick else "MarksThorough.cfg")
    gen = ctx.generate("MarksMC", "MarksGen.cfg" if ctx.quick else "MarksGenDeep.cfg")
    rng = ctx.rng
    rng.shuffle(gen)
    rsa("tmi-rsa"), rsa("not-tmi")
    cases = []
    for g in gen[: 500 if ctx.quick else len(gen)]:
        ops = [{k: v for k, v in o.items()} for o in g["ops"]]
        for o in ops:
            o["queries"] = rand_queries(rng, ["a", "b"], ["x", "y"], range(0, 8), 4 if ctx.quick else 6)
        cases.append({"ops": ops, "lives": [{"id": "a", "life": 3}, {"id": "b", "life": -1}], "extra": EXTRA,
                      "db": rng.choice(["simple", "file", "files"]), "queries": []})
    for _ in range(350 if ctx.quick else 6000):
        lives = [{"id": i, "life": rng.choice([-1, 1, 10, 100, 86400])} for i in rng.sample(["a", "b", "c"], rng.randint(1, 3))]
        ids = [e["id"] for e in lives]
        ops, now = [], 0
        iats = [0]
        for _ in range(rng.randint(3, 14)):
            r = rng.random()
            if r < 0.45:
                op = {"op": "issue", "id": rng.choice(ids), "sub": rng.choice(list(SUB)), "how": rng.randrange(3)}
                if rng.random() < 0.1:
                    op["id"] = "u"
                if rng.random() < 0.15:
                    op.update(how=0, exp=now + rng.choice([-5, 2, 50]))
                if rng.random() < 0.3:  # A second passes while it is issued
                    op["drift"] = rng.randint(0, 4)
                iats.append(now)
                if op["id"] != "u" and rng.random() < 0.2:  # Two within a second, that last differently long
                    pair = [dict(op, how=0, exp=now + d) for d in rng.sample([2, 5, 50], 2)]
                    for o in pair:
                        o.pop("drift", None)
                        o["queries"] = []
                    now += 4
                    ops += pair
                    op = {"op": "tick", "d": 4, "queries": [{"op": k, "id": op["id"], "sub": op["sub"], "iat": -1, "how": rng.randrange(3)}
                                                            for k in ("find", "status", "list")]}
                    ops.append(dict(op))
            elif r < 0.85:
                d = rng.choice([1, 1, 2, 9, 10, 11, 90, 100, 86400])
                op = {"op": "tick", "d": d}
                now += d
            elif r < 0.9:
                op = {"op": "restart"}
            elif r < 0.97:
                op = {"op": "withdraw", "id": rng.choice(ids), "sub": rng.choice(list(SUB))}
            else:
                op = {"op": "craft", "id": rng.choice(ids), "sub": rng.choice(list(SUB)), "iat": rng.choice(iats),
                      "key": rng.choice(["own", "own", "other"])}
            if ops and op == ops[-1]:
                continue
            op["queries"] = rand_queries(rng, [*ids, "u"], list(SUB), iats, rng.randint(0, 5))
            ops.append(op)
        cases.append({"ops": ops, "lives": lives, "extra": {i: EXTRA[i] for i in ids}, "queries": [],
                      "db": rng.choice(["simple", "file", "files"])})
    pairs = ctx.execute(run_case, cases)
    ctx.judge("MarksTrace", pairs)
    ctx.count("steps", [s["op"] + (":%s" % s["obs"]["active"] if "active" in s.get("obs", {}) else "")
                        for p in pairs for s in p[1]["steps"]])


def replay(ctx, case):
    ctx.judge("MarksTrace", ctx.execute(run_case, [case]))
