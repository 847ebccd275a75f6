------------------------------- MODULE GateTrace -------------------------------
EXTENDS Gate, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, now, reg, pages, codes, toks, refr, subs, jars, vou, was, ver
vars == <<t, l, now, reg, pages, codes, toks, refr, subs, jars, vou, was, ver>>
T == Trace[t]
Steps == T.steps
Ids == {c.id : c \in Range(T.clients)}
Always == 2000000000
\* vou: what the superior says and has said, was: what it said when the client registered, ver: how many times any of them changed
\* A provider may go by what a superior said as long as that is valid
Of(i) == CHOOSE c \in Range(T.clients) : c.id = i
Now(i) == {v \in vou[i] : now <= v.until}
At(i) == {[Of(i) EXCEPT !.vouched = v.on, !.only = IF reg[i] = "explicit" THEN w ELSE v.only] : v \in Now(i), w \in was[i]}
May(i) == \E v \in Now(i) : v.on
Must(i) == \A v \in Now(i) : v.on
If(c, x) == IF c THEN {x} ELSE {}
Refused(o) == o.kind = "refused" /\ o.status >= 400 /\ o.status < 500
Was(k, s) == s.op = k /\ s.obs.kind \notin {"refused", "other"}
\* --- what must be
Good(s) == s.op = "authz" /\ s.req.bad \in {"", "script"} /\ s.req.cid \in Ids
Asks(s) == Good(s) /\ \E c \in At(s.req.cid) : AuthzOk(c, s.req, reg, T.auto)
MustAsk(s) == Good(s) /\ \A c \in At(s.req.cid) : AuthzOk(c, s.req, reg, T.auto)
StateOf(s) == IF s.req.bad = "script" THEN T.script ELSE s.req.state
Skips(s) == Asks(s) /\ s.req.b > 0 /\ s.req.jar = "" /\ s.req.prompt # "login" /\ MaySkip(jars[s.req.b], s.req.cid, now)
LogsIn(s) == s.op = "login" /\ s.how = "" /\ LoginOk(s.page, pages, s.right)
Auth(s) == s.cid \in Ids /\ (\/ s.how \in {"key", "again"} /\ s.replay # "used" /\ s.bad # "no:client_assertion" /\ Proves(Of(s.cid), reg, "key", s.signer, "")
                             \/ s.how = "post" /\ s.secret # "" /\ s.bad # "no:client_id" /\ Proves(Of(s.cid), reg, "secret", "", s.secret))
Exchanges(s) ==
    /\ s.op = "token" /\ s.code > 0 /\ Auth(s)
    /\ s.bad \in {"", "no:client_id", "no:client_assertion"} \cup (IF s.grant = "refresh_token" THEN {"no:code", "no:redirect_uri"} ELSE {})
    /\ \/ s.grant = "authorization_code" /\ CodeOk(codes[s.code], s.cid, s.uri, now)
       \/ s.grant = "refresh_token" /\ refr[s.code].cid = s.cid
MustExchange(s) == Exchanges(s) /\ s.bad = "" /\ s.named = s.cid /\ s.replay = "" /\ s.grant = "authorization_code" /\ now < codes[s.code].at + CodeLife
Fetches(s) == s.op = "userinfo" /\ s.how \in {"header", "body"} /\ s.tok > 0 /\ TokenLives(toks[s.tok], now)
\* When a code is used a second time what it was exchanged for may end
MustFetch(s) == Fetches(s) /\ toks[s.tok].sure /\ now < toks[s.tok].at + TokenLife /\ now < toks[s.tok].login + TokenLife
\* --- subject identifiers
Sub(x, n) == [user |-> x.user, cid |-> x.cid, pair |-> Of(x.cid).pair, n |-> n]
SubOk(x, n) == \A y \in subs : SubFits(Sub(x, n), y)
NewSubs(s) ==
    IF Was("token", s) /\ s.code > 0 /\ s.obs.idt # <<>> THEN {Sub((IF s.grant = "refresh_token" THEN refr ELSE codes)[s.code], s.obs.idt[1].sub)}
    ELSE IF Was("userinfo", s) /\ s.tok > 0 THEN {Sub(toks[s.tok], s.obs.sub)} ELSE {}
\* --- judgements
JudgeAuthz(s) ==
    LET o == s.obs IN
    If(o.kind = "page" /\ ~Asks(s), "let_in")
    \cup If(MustAsk(s) /\ o.kind # "page" /\ ~(o.kind = "sent" /\ (Skips(s) \/ s.req.prompt = "none")), "turned_away")
    \cup If(Asks(s) /\ s.req.prompt = "none" /\ o.kind = "page" /\ (s.req.b = 0 \/ jars[s.req.b] = <<>>), "user_disturbed")
    \cup If(o.kind = "sent" /\ Asks(s) /\ o.state # StateOf(s), "wrong_code_answer")
    \cup If(o.kind = "sent" /\ (o.given \notin {<<>>, <<"code">>} \/ (o.given # <<>> /\ ~Skips(s)) \/ (o.given # <<>> /\ o.to # <<s.req.of, s.req.uri>>) \/ o.to[1] # s.req.cid \/ ~(s.req.cid \in Ids /\ \E c \in At(s.req.cid) : o.to[2] \in Allowed(c))), "sent_astray")
    \cup If(o.kind \notin {"page", "sent"} /\ ~Refused(o), "bad_answer")
JudgeLogin(s) ==
    LET o == s.obs IN
    IF o.kind = "sent" THEN If(~LogsIn(s), "code_for_nothing")
                            \cup If(LogsIn(s) /\ (o.to # pages[s.page].uri \/ o.given # <<"code">> \/ o.state # pages[s.page].state), "wrong_code_answer")
    ELSE If(LogsIn(s) /\ pages[s.page].ver = ver[pages[s.page].cid], "login_refused") \cup If(~Refused(o), "bad_answer")
JudgeToken(s) ==
    LET o == s.obs IN
    IF o.kind # "tokens" THEN If(MustExchange(s), "exchange_refused") \cup If(~Refused(o), "bad_answer")
    ELSE If(~Exchanges(s), "tokens_for_nothing")
         \cup (IF ~Exchanges(s) THEN {} ELSE
               LET c == Of(s.cid)
                   code == (IF s.grant = "refresh_token" THEN refr ELSE codes)[s.code] IN
               If(~(Range(o.scope) \subseteq Range(code.scope)), "wrong_scope")
               \cup If(s.grant = "authorization_code" /\ Range(o.scope) # Range(code.scope), "wrong_scope")
               \cup If(s.grant = "authorization_code" /\ Len(o.idt) # 1, "no_id_token")
               \cup If(o.life > TokenLife, "long_life")
               \cup (IF o.idt = <<>> THEN {} ELSE
                     LET i == o.idt[1] IN
                     If(~i.iss \/ ~i.sig \/ i.aud # <<s.cid>> \/ i.iat # now \/ i.exp <= now \/ i.alg # (IF c.alg = "" THEN "RS256" ELSE c.alg), "wrong_id_token")
                     \cup If(i.nonce # code.nonce, "wrong_nonce")
                     \cup If(~SubOk(code, i.sub), "wrong_subject")))
JudgeUserinfo(s) ==
    LET o == s.obs IN
    IF o.kind # "info" THEN If(MustFetch(s), "claims_refused") \cup If(~Refused(o), "bad_answer")
    ELSE IF ~Fetches(s) THEN {"claims_for_nothing"}
    ELSE LET x == toks[s.tok] IN
         If(Range(o.claims) # Claims(x.scope), "wrong_claims")
         \cup If(~(Range(o.who) \subseteq {x.user}), "claims_of_another")
         \cup If(~SubOk(x, o.sub), "wrong_subject")
         \cup If(o.jwt # (Of(x.cid).ualg # "") \/ ~o.sig, "not_signed_as_wanted")
JudgeRegister(s) ==
    LET o == s.obs IN
    If(o.kind = "registered" /\ ~May(s.cid), "registered_unvouched") \cup If(o.kind # "registered" /\ Must(s.cid), "registration_refused")
    \cup If(o.kind # "registered" /\ ~Refused(o), "bad_answer")
JudgeNoise(s) == If(s.obs.status >= 500, "server_fails")
JudgeJwks(s) ==
    LET o == s.obs IN
    IF s.use \notin DOMAIN T.own THEN If(~Refused(o), "bad_answer")
    ELSE If(o.kind # "keys", "keys_refused") \cup (IF o.kind = "keys" THEN If(o.secret, "secret_published") \cup If(o.keys # T.own[s.use], "wrong_keys") ELSE {})
Judge(s) ==
    CASE s.op = "authz" -> JudgeAuthz(s) [] s.op = "login" -> JudgeLogin(s) [] s.op = "token" -> JudgeToken(s)
      [] s.op = "userinfo" -> JudgeUserinfo(s) [] s.op = "register" -> JudgeRegister(s) [] s.op = "noise" -> JudgeNoise(s) [] s.op = "jwks" -> JudgeJwks(s) [] OTHER -> {}
\* --- who is known: those that have registered, and those that were taken in
Was_in == {i \in Ids : reg[i] # "no"}
NewReg(s) == [i \in Ids |-> IF s.op = "register" /\ i = s.cid /\ s.obs.kind = "registered" THEN "explicit"
                            ELSE IF reg[i] # "no" THEN reg[i] ELSE IF i \in Range(s.known) THEN "auto" ELSE "no"]
JudgeKnown(s) ==
    LET new == Range(s.known) \ Was_in
        may == IF s.op = "register" THEN {s.cid} ELSE IF s.op = "authz" /\ T.auto THEN {s.req.cid} ELSE IF s.op = "noise" /\ T.auto THEN Ids ELSE {} IN
    If(~(Was_in \subseteq Range(s.known)), "forgotten")
    \cup If(~(new \subseteq may) \/ \E i \in new : i \notin Ids \/ ~May(i), "someone_added")
    \cup If(MustAsk(s) /\ s.req.cid \notin Range(s.known), "not_added")
Echo(s) == If(s.obs.echo, "request_repeated_as_html")
Init ==
    /\ t \in 1..Len(Trace) /\ l = 0 /\ now = 0 /\ pages = <<>> /\ codes = <<>> /\ toks = <<>> /\ refr = <<>> /\ subs = {} /\ jars = <<<<>>, <<>>>>
    /\ vou = [i \in {c.id : c \in Range(Trace[t].clients)} |-> LET c == CHOOSE x \in Range(Trace[t].clients) : x.id = i IN {[on |-> c.vouched, only |-> c.only, until |-> Always]}]
    /\ was = [i \in {c.id : c \in Range(Trace[t].clients)} |-> {<<>>}]
    /\ ver = [i \in {c.id : c \in Range(Trace[t].clients)} |-> 0]
    /\ reg = [i \in {c.id : c \in Range(Trace[t].clients)} |-> "no"]
Next ==
    /\ l < Len(Steps) /\ l' = l + 1 /\ UNCHANGED t
    /\ LET s == Steps[l + 1]
           page == s.op = "authz" /\ s.obs.kind = "page"
           silent == s.op = "authz" /\ s.obs.kind = "sent" /\ "code" \in Range(s.obs.given)
           jar == IF silent /\ s.req.b > 0 THEN jars[s.req.b] ELSE <<>>
           code == s.op = "login" /\ s.obs.kind = "sent" /\ "code" \in Range(s.obs.given)
           tok == s.op = "token" /\ s.obs.kind = "tokens"
           from == IF tok /\ s.code > 0 THEN (IF s.grant = "refresh_token" THEN refr ELSE codes)[s.code]
                   ELSE [cid |-> "?", uri |-> <<>>, scope |-> <<>>, nonce |-> "", state |-> "", user |-> "?", at |-> 0, used |-> FALSE, login |-> 0]
           c == Judge(s) \cup JudgeKnown(s) \cup (IF s.op \notin {"tick", "vouch"} THEN Echo(s) ELSE {}) IN
       /\ now' = IF s.op = "tick" THEN now + s.d ELSE now
       /\ reg' = NewReg(s)
       /\ pages' = IF page THEN Append(pages, [cid |-> s.req.cid, uri |-> <<s.req.of, s.req.uri>>, scope |-> s.req.scope, nonce |-> s.req.nonce,
                                               state |-> StateOf(s), ver |-> ver[s.req.cid]]) ELSE pages
       /\ codes' = IF silent
                   THEN Append(codes, [cid |-> s.req.cid, uri |-> <<s.req.of, s.req.uri>>, scope |-> s.req.scope, nonce |-> s.req.nonce, state |-> StateOf(s),
                                       user |-> IF jar = <<>> THEN "?" ELSE jar[1].user, at |-> now, used |-> FALSE,
                                       login |-> IF jar = <<>> THEN 0 ELSE jar[1].at])
                   ELSE IF code THEN Append(codes, LET p == IF s.page > 0 THEN pages[s.page] ELSE
                                                            [cid |-> "?", uri |-> <<>>, scope |-> <<>>, nonce |-> "", state |-> ""] IN
                                              [cid |-> p.cid, uri |-> p.uri, scope |-> p.scope, nonce |-> p.nonce, state |-> p.state,
                                               user |-> s.user, at |-> now, used |-> FALSE, login |-> now])
                   ELSE IF tok /\ s.grant = "authorization_code" /\ s.code > 0 THEN [codes EXCEPT ![s.code].used = TRUE] ELSE codes
       /\ toks' = IF tok THEN Append(toks, [at |-> now, of |-> s.code, sure |-> s.grant = "authorization_code", cid |-> from.cid, scope |-> from.scope,
                                            user |-> from.user, login |-> from.login])
                  ELSE IF s.op = "token" /\ s.code > 0 /\ s.grant = "authorization_code" /\ codes[s.code].used
                       THEN [i \in DOMAIN toks |-> [toks[i] EXCEPT !.sure = @ /\ toks[i].of # s.code]] ELSE toks
       /\ refr' = IF tok /\ s.obs.refresh > 0 THEN Append(refr, [from EXCEPT !.at = now]) ELSE refr
       /\ jars' = IF code /\ s.b > 0 /\ s.page > 0 THEN [jars EXCEPT ![s.b] = <<[cid |-> pages[s.page].cid, user |-> s.user, at |-> now]>>] ELSE jars
       /\ vou' = IF s.op # "vouch" THEN vou ELSE [vou EXCEPT ![s.cid] = {[on |-> s.on, only |-> s.only, until |-> Always]}
                                                                        \cup {IF v.until = Always THEN [v EXCEPT !.until = now + T.life] ELSE v : v \in @}]
       /\ ver' = IF s.op = "vouch" \/ Was("register", s) THEN [ver EXCEPT ![s.cid] = @ + 1] ELSE ver
       /\ was' = IF Was("register", s) THEN [was EXCEPT ![s.cid] = {v.only : v \in Now(s.cid)}] ELSE was
       /\ subs' = subs \cup {x \in NewSubs(s) : x.cid \in Ids}
       /\ IF c = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([t |-> t, l |-> l + 1, clause |-> c, now |-> now, reg |-> reg, obs |-> s,
                                                            codes |-> codes, toks |-> toks]))
Spec == Init /\ [][Next]_vars
=============================================================================
