from p import p
S="src/fedservice/"
p("C11","A trust mark issuer stands by exactly the marks it has issued",
"A trust mark that is issued names the issuer, the identifier and the subject asked for, carries the time of issue, what the issuer has specified for that identifier and, if a lifetime is specified, expires exactly then; it is signed with the issuer's key, and identifiers the issuer does not know are refused. From then on, whatever else is issued, however much time passes and whether the issuer is restarted from a dump or from its files: find, the status endpoint (asked by identifier, subject and time of issue, or with the mark itself) say that a mark is active if and only if such a mark was issued and has not expired, and the lists give every subject with an unexpired mark of that identifier, once, and no other.",
["histories","crash_points"],"All sequences of issuing, waiting, restarting and asking.",
"Tests issue one mark and ask about it once; expiry, several marks for the same subject and restarts are about histories.",
[S+"trust_mark_entity/entity.py",S+"trust_mark_entity/__init__.py",S+"trust_mark_entity/server"],
[("issue","trust_mark_entity/entity.py TrustMarkEntity.create_trust_mark"),("database","trust_mark_entity/__init__.py SimpleDB/FileDB"),("endpoints","trust_mark_entity/server/trust_mark.py, trust_mark_status.py, trust_mark_list.py")],
"TLA+ (Marks.tla) model checked with TLC; histories TLC enumerates and longer random ones are run against a real issuer, its functions and endpoints, and every answer judged by TLC",
"")
p("C13","A trust mark is accepted only if someone trusted in the federation issued it",
"A verifier that is given a trust mark and a trust anchor accepts it if and only if it holds all that a trust mark must hold, is about the entity it should be about, has not expired, and its signature was made with a key in the configuration of an issuer that has a valid trust chain to that very anchor. If the mark says that it was delegated, then the anchor's own, verified, configuration must say who owns that identifier and with which keys, and the delegation must be issued by and signed by that owner, name this issuer and this identifier, and still be valid. When the issuer is to be asked about the status too, a mark is only accepted if the issuer, asked about this very mark, says it is active. What has been verified before does not change the answer, and the claims that come out are those of the mark.",
["inputs","histories","configurations"],"All marks, delegations, signatures and federations, and all sequences of verifications by the same verifier.",
"Tests verify one proper mark; forgery, other federations and delegation have unbounded many variants.",
[S+"entity/function/trust_mark_verifier.py",S+"entity/__init__.py",S+"entity/client/trust_mark_status.py"],
[("verification","entity/function/trust_mark_verifier.py TrustMarkVerifier.__call__"),("delegation","TrustMarkVerifier.verify_delegation"),("with the issuer","entity/__init__.py FederationEntity.verify_trust_mark")],
"TLA+ (TrustMark.tla) with an adversary that makes up marks and delegations, model checked with TLC; marks TLC enumerates and random marks in random federations verified by the code and judged by TLC",
"Not claimed: that marks issued by an anchor itself are accepted, that an issuer not listed by the anchor is refused, completeness when some statement above the issuer is faulty.")
p("C15","A superior states about a subordinate exactly what is registered for it",
"The fetch endpoint answers only about subordinates that are registered at that time and only in the superior's own name. The signed statement names the superior and the subordinate, vouches for exactly the keys that are registered, carries the authority hints (the superior itself if none are registered) and constraints that are registered, and the metadata and metadata policy that are set for that subordinate, else for its entity types, else as registered; nothing meant for other subordinates or types gets into it. Answering, however often and in whatever order, never changes what is registered, so the same question has the same answer until the registry is changed, and what is changed in the registry, or in its files, shows in the next answer. About itself it states its own public keys; private keys never leave.",
["histories","configurations"],"All registries, policies and sequences of changes and questions.",
"Tests fetch once from a fixed registry; defects of this kind show when an answer leaves its traces in the registry or in the next answer.",
[S+"entity/server/fetch.py",S+"entity/server/entity_configuration.py",S+"entity_statement/create.py"],
[("fetch","entity/server/fetch.py Fetch.process_request"),("statement","entity_statement/create.py create_entity_statement")],
"TLA+ (Authority.tla) model checked with TLC; histories TLC enumerates and random ones run against a real superior (dictionary and file registries, endpoint level), every statement verified and judged by TLC",
"Which counts when both a type policy and the registration state metadata is left open.")
p("C16","The subordinate listing gives exactly those that match",
"The list endpoint gives, once each, all registered subordinates that fulfil all the conditions of the request (entity type, intermediate, trust marked, a given trust mark) and no others; without conditions all of them. Conditions about trust marks are judged on what the subordinate itself says in its own configuration, signed with a key registered for it; configurations that are forged or belong to someone else never get a subordinate onto the list. Listing changes nothing. An extended list gives about each of them exactly what it says in its own configuration, and nothing that is said about another.",
["histories","inputs"],"All registries, requests and answers from subordinates.",
"Tests try a handful of queries on one registry with honest subordinates.",
[S+"entity/server/list.py"],
[("listing","entity/server/list.py List.process_request"),("trust marks","entity/server/list.py List.filter/collect_subordinates")],
"TLA+ (Authority.tla) model checked with TLC (filters compose); histories run against a real superior and simulated subordinates, every list judged by TLC",
"If the configuration of some subordinate cannot be had or verified, a refusal to list by trust marks is accepted.")
p("C17","A resolver answers only what a trust chain to the asked anchor proves",
"Whatever a federation looks like and however it changes, a resolve response is signed by the resolver, is about the asked subject, and carries a complete, valid trust chain from that subject to the asked trust anchor; its metadata is exactly what the policies of that chain make of the subject's own metadata, limited to the entity type if one was asked for; and it is not valid longer than any statement in the chain. Anyone that trusts the anchor gets the same metadata out of the returned chain. A subject in a steady, sound federation is always answered, whatever was cached before, when and in which order.",
["histories","inputs","configurations"],"All federations up to three levels with several anchors, all life times, cache contents, passing of time, changes in the federation and orders of questions.",
"Tests ask one question about one subject in one fresh federation.",
[S+"entity/server/resolve.py",S+"entity/function/trust_chain_collector.py"],
[("answer","entity/server/resolve.py Resolve.process_request"),("caches","entity/function/trust_chain_collector.py TrustChainCollector"),("chains","entity/function/__init__.py")],
"TLA+ (Resolve.tla) model checked with TLC; random federations and histories on a simulated network and clock run against the real resolver, every answer judged by TLC, including what a third party makes of the returned chain",
"Trust marks in resolve responses are not implemented by fedservice. How a refusal is expressed is open.")
p("C10","The trust chain that is used is the best one known that still holds",
"Among several trust chains the one is used that leads to the anchor highest in the priorities (an anchor without priority last), and chains that are saved per subject and anchor are the shortest to that anchor; what is looked up later is exactly what was saved last, never another subject's. A chain that has expired is never handed out as a usable one: when all that is kept for an entity has expired, new chains are collected and verified, and nothing else than these replaces what was kept; a chain that has not expired is used again without asking anyone. The metadata of an entity is that of a chain that is usable now. An exported chain is accepted by anyone else that trusts the anchor as a chain for that very subject.",
["histories","schedules"],"All sets of chains and priorities, and all sequences of collecting, saving, keeping, waiting, losing the network and asking.",
"Tests pick from one list with one order of anchors; expiry of what is kept and mixing of subjects need histories.",
[S+"entity/__init__.py",S+"__init__.py",S+"entity_statement/statement.py"],
[("choice","entity/__init__.py FederationEntity.pick_trust_chain/pick_from_stored_trust_chains"),("kept chains","FederationEntity.get_trust_chains/get_verified_metadata/store_trust_chains"),("saved chains","fedservice/__init__.py save_trust_chains/get_trust_chain"),("export","entity_statement/statement.py TrustChain.export_chain")],
"TLA+ (Select.tla) model checked with TLC; random histories on made up chains and on chains collected in a simulated federation run against a real entity, every choice judged by TLC",
"Which of several chains that are equally good is chosen is left open.")
p("C18","A registration is accepted exactly from those whom a trusted anchor vouches for",
"A provider or authorization server registers a client if and only if the request is that entity's own configuration (issuer and subject the same, signed with a key it states, which a superior it points at vouches for, not expired, not tampered with), there is a trust chain to an anchor the server trusts, and the metadata that results is acceptable. What is registered is what the policies of the chain to the preferred anchor make of the metadata in the request, under the client's own identifier (or one nobody has); the keys the server keeps for the client are exactly those the client stated; the answer is signed by the server, for that client only, says the same as what is registered, names the anchor, has not expired and has no private keys in it. A registration that is refused changes nothing, and no registration ever touches another client.",
["histories","inputs","configurations"],"All federations up to three levels with several anchors, requests from their members and from an adversary who mixes keys, names and hints, and sequences of them with time passing and the federation changing.",
"Tests register one honest client once. Refusals that leave traces, forged requests and policies of several levels are beyond samples.",
[S+"appserver/oidc/registration.py",S+"appserver/oauth2/registration.py",S+"entity/function/__init__.py"],
[("OpenID Connect","appserver/oidc/registration.py Registration.process_request"),("OAuth2","appserver/oauth2/registration.py Registration.process_request"),("chains","entity/function/__init__.py collect_trust_chains/verify_trust_chains/apply_policies")],
"TLA+ (Register.tla) with an adversary, model checked with TLC; random federations and histories of requests run against a real OpenID provider and a real authorization server, every response and the client database after it judged by TLC",
"A sound request is only required to be granted when everything above the entity is sound.")
p("C19","Only those a trusted anchor vouches for can use a server without registering",
"A request from a client that has not been registered is taken only if the server does automatic registration and a trust chain (one the server finds, or the one the client provides, which must then be about that very client and be valid now) leads from the client to an anchor the server trusts; otherwise it is refused. The client is then known under its own identifier with exactly the metadata, redirect URIs and keys that the policies of that chain give, and the response names the anchor of that chain. A request is attributed only to the client it names; if it is signed, only with keys that this client has in its present registration, and where signed requests are demanded no others are taken; its redirect URI is one of that client's own. A refused attempt removes or changes no client, a client registered explicitly is never changed by this, and a pushed request can be used once, only by the client that pushed it, and is then the request that was pushed.",
["histories","inputs","configurations"],"All federations up to three levels, provided chains and request objects made up by an adversary from genuine and forged parts, and sequences of requests, pushed requests, explicit registrations, changes and time.",
"Tests run one honest client's first request. Forged chains, mixed identities, key changes and repeated requests are histories and inputs without bound.",
[S+"appserver/oidc/authorization.py",S+"appserver/oauth2/authorization.py",S+"appserver/oauth2/pushed_authorization.py",S+"appserver/oidc/registration.py"],
[("OpenID Connect","appserver/oidc/authorization.py Authorization.do_automatic_registration/client_authentication"),("OAuth2","appserver/oauth2/authorization.py Authorization"),("pushed","appserver/oauth2/pushed_authorization.py PushedAuthorization")],
"TLA+ (Auto.tla) with an adversary that provides chains and requests, model checked with TLC; random histories run against a real OpenID provider and a real authorization server (authorization and pushed authorization endpoints), every outcome and the client database after it judged by TLC",
"Which of several valid chains is used is left open. Whether unsigned requests are taken is a matter of the server's configuration. The life time of pushed requests is not modelled.")
p("C20","Client and server agree on a registration both can trust",
"A client takes a registration response if and only if it is about that client, signed with a key of an entity that has a valid trust chain to the trust anchor the response names, which is an anchor the client trusts and below which it is itself, not tampered with and not expired. What it then goes by is what is said in the response with the policies of its own superiors up to that very anchor. When a registration with a real provider succeeds, the provider and the client have the same client identifier, secret and metadata, and the trust anchor is one both trust. A response that is refused changes nothing at the client.",
["histories","inputs","configurations"],"All federations up to three levels with several anchors on either side, responses made up by an adversary from genuine and forged parts, and sequences of responses and whole registrations with time passing and the federation changing.",
"Tests run one registration in a federation with one anchor. The checks a client makes are seen only with forged responses, other anchors and other policies.",
[S+"appclient/oidc/registration.py",S+"appclient/oauth2/registration.py",S+"appserver/oidc/registration.py",S+"appserver/oauth2/registration.py"],
[("OpenID Connect","appclient/oidc/registration.py Registration.parse_federation_registration_response/_signature_verifies"),("OAuth2","appclient/oauth2/registration.py Registration.parse_federation_registration_response")],
"TLA+ (Response.tla) with an adversary, model checked with TLC; random histories run against a real OpenID relying party and a real OAuth2 client, also together with a real provider, every outcome and what the client keeps judged by TLC",
"A client with several chains to the same anchor may refuse. Fifteen seconds of difference between clocks are accepted in the life time of a response.")
p("C21","An entity says about itself exactly what it is configured with, and no secret",
"Every statement an entity makes about itself (its entity configuration, a fetch of itself, its registration request, statements made by its context) has the entity as issuer and subject, is made now and lives as long as configured, carries exactly the entity's own active public keys, is signed with one of them, and has exactly the authority hints and trust marks that are configured when it is made, whether they come from a list, a file or a function and however these have changed; its metadata covers every part of the entity and is what they are configured with at that moment. No private or symmetric key and no client secret is ever in it, whatever registrations have been made. Making statements changes no configuration.",
["histories","configurations"],"All kinds of entities, all ways to configure, and all sequences of reconfigurations, key changes, registrations, time and statements.",
"Tests make one statement of an entity configured with lists. Files, functions, later changes and secrets from registrations need histories.",
[S+"entity_statement/create.py",S+"entity/context.py",S+"entity/server/entity_configuration.py",S+"entity/server/fetch.py",S+"appclient/__init__.py",S+"appclient/oidc/registration.py",S+"appclient/oauth2/registration.py"],
[("statement","entity_statement/create.py create_entity_statement"),("hints, marks","entity/context.py FederationContext.get_authority_hints/get_trust_marks"),("endpoints","entity/server/entity_configuration.py, entity/server/fetch.py"),("requests","appclient/*/registration.py create_entity_statement")],
"TLA+ (Self.tla) model checked with TLC; random histories of configuration, keys and statements run against real entities of five kinds, every statement judged by TLC",
"A fetch of oneself need only have the federation entity part of the metadata and may leave the trust marks out.")
p("C22","An answer counts only if the entity asked has signed it, about what was asked",
"When an entity asks another for its entity configuration, for a statement about someone or to resolve someone, an answer is taken if and only if it is a signed statement (whatever the sender calls it) by the very entity asked, about the very entity asked about, signed with a key known to be that entity's, not from the future and not expired. Nothing else is returned as an answer or remembered. Where the next question goes (a fetch or list endpoint) is decided by an entity configuration of the asked entity accepted in this way and remembered no longer than ten minutes before it expires; for a trust anchor's list by a configuration signed by that anchor and valid now. A refused or failed answer changes no keys and nothing that is remembered.",
["inputs","histories"],"All answers a network can give (signed, tampered, unsigned, mislabelled, replayed, of others, early, late, errors) to all sequences of questions, with keys learned and time passing in between.",
"Tests feed the client services well formed answers from honest mocks; what is refused, and what a sequence of refused answers leaves behind, is never looked at.",
[S+"entity/service.py",S+"entity/client/__init__.py",S+"entity/client/entity_configuration.py",S+"entity/client/entity_statement.py",S+"entity/client/resolve.py",S+"entity/client/list.py",S+"entity/function/trust_anchor.py"],
[("answers","entity/service.py FederationService.parse_response/gather_verify_arguments, entity/client/__init__.py FederationClient.do_request"),("what is remembered","entity/client/entity_configuration.py EntityConfiguration.post_parse_response"),("anchors","entity/function/trust_anchor.py get_verified_trust_anchor_statement")],
"TLA+ (Ask.tla) with hosts that answer anything, model checked with TLC; random sequences of questions with made up answers run against the real client services, every outcome, request and what is remembered judged by TLC",
"Who is asked is known (the issuer or entity_id of the question). An answer of another content type than the right one, or at the very second it expires, may be refused.")
p("C23","Searching a federation finds exactly the entities there are, and ends",
"A search from a trust anchor downwards for entities of a type ends in every federation, loops included, and finds every entity of that type that can be reached by listings of entities that are in order, whatever else in the federation does not answer, answers with an error or forges what it says; it finds nothing that is not listed or does not say so itself in a configuration signed with the keys its superior has for it. The who endpoint gives, for an anchor that is trusted (and for no other), exactly those of them with a valid trust chain that have the credential type asked for in their verified metadata and a valid trust mark with the identifier asked for, each once. No search changes the keys of a trust anchor or of the entity itself.",
["inputs","histories","configurations","fault_sequences"],"All federations of up to ten entities with loops, several anchors and faulty members, and sequences of searches while entities join and leave.",
"There is no test of the search at all. Faulty members and loops are shapes of federations that samples do not reach.",
[S+"entity/__init__.py",S+"entity/server/who.py",S+"entity/client/list.py",S+"entity/function/trust_anchor.py"],
[("search","entity/__init__.py FederationEntity.trawl/list_subordinates"),("who","entity/server/who.py Who.process_request"),("trust marks","entity/__init__.py FederationEntity.verify_trust_mark")],
"TLA+ (Trawl.tla): the search in every small federation model checked with TLC (safety and termination); random federations and histories run against a real entity over a simulated network, every result judged by TLC",
"Listings of subordinates with a valid trust chain are believed. What entities that are only partly in order give may or may not be found; an anchor that points at itself in the end is left open.")
p("C24","A client lets in only whom a provider vouched for by an anchor let in",
"A client learns what a provider is (endpoints, metadata, keys) only by way of a trust chain from that provider to a trusted anchor, the preferred one when there are several, with the policies of the provider's superiors applied, and only about that provider itself; keys of others are never changed by it, keys the provider no longer has are gone when it is asked again, and a refusal changes nothing. An authorization request then goes to that provider's own endpoint, with the client's own identifier and redirect URI, a fresh state and nonce, with exactly the request arguments it was configured with and given for this session (what another session asked for never comes along), in a request object that the client has signed with its own key, that lives for at most five minutes and can not be replayed. A user is let in only by an answer to such a request: an ID Token from the provider, signed with its keys, for this client and this request, not expired nor changed, and user information about the same user, asked for with the token from this answer at that provider only. Otherwise the answer is refused, and no other session is touched. A session is active, and an access token valid, exactly as long as the provider said.",
["inputs","histories","schedules","configurations"],"All federations with anchors, intermediates, a client and a provider, with broken and expired parts, and histories of discovery, changes in the federation, requests, answers (of the provider and of an adversary) in several concurrent sessions, time passing and sessions being cleared.",
"No test uses the client beyond building one request. What must be refused is the space of all answers an adversary can make, over all orders of sessions.",
[S+"appclient/stand_alone_client_entity.py",S+"appclient/oidc/authorization.py",S+"appclient/__init__.py"],
[("provider","appclient/stand_alone_client_entity.py _collect_metadata/_import_keys/do_provider_info"),("request","appclient/oidc/authorization.py Authorization._automatic_registration; init_authorization"),("answer","appclient/stand_alone_client_entity.py finalize/finalize_auth/get_access_and_id_token"),("session","has_active_authentication/get_valid_access_token/clear_session")],
"TLA+ (Login.tla): provider discovery and login against an adversary that composes answers, model checked with TLC; histories with a real client, a simulated federation and provider, every step judged by TLC",
"The library's cryptography and message verification (idpyoidc) are part of what is run, not of what is changed. Code flow answers without an ID Token are left open, as are refusals of hybrid flow answers and ID Tokens that expire this very second.")
p("C25","Entities in one process are what each was built from and share nothing",
"Every entity (federation entity or combination) has exactly the endpoints, services, functions, trust anchors, authority hints, trust marks, subordinates, policies, name, error margin, HTTP parameters, trust mark lifetimes and keys that it was configured with, or the documented defaults, together with what has been done to that entity since, and that is what its entity configuration, its subordinate listing and the marks it issues say. What is done to one entity (an anchor, a key, a trust mark, a subordinate, a policy added, a mark issued) never shows in another, not even in one that was built earlier or later from the same specification objects or from the same defaults, and building an entity never changes what the next one becomes. The parts of an entity belong to that entity alone: its endpoints are at its own address and its statements are about itself. It does not matter which part of the package is loaded first: every module can be loaded on its own.",
["inputs","histories","configurations"],"All sets of entities built in any order from shared and separate specification objects, as lists of names or as full specifications, given or defaulted, and all sequences of changes made to them in between.",
"Tests build a fixed federation and never look at what an entity leaves behind in what it was built from; several existing tests even pass or fail depending on what ran before them.",
[S+"utils.py",S+"build_entity.py",S+"defaults.py",S+"combo/__init__.py",S+"entity/__init__.py",S+"trust_mark_entity/entity.py"],
[("build","utils.py make_federation_entity/make_federation_combo; build_entity.py FederationEntityBuilder"),("defaults","defaults.py federation_endpoints/federation_services"),("combo","combo/__init__.py Combo/FederationCombo"),("entity","entity/__init__.py FederationEntity; entity/server, entity/client, entity/function")],
"TLA+ (Build.tla): entities as values that only their own operations change, model checked with TLC; the real entities are built and changed in generated orders from shared objects and everything observable of all of them is judged by TLC after every step",
"")
p("C26","What is published from files, and configured in files, is what the files say",
"A statement created from files is by the entity whose directory it is in and about the entity whose sub directory it is, with exactly the metadata, policy, constraints and authority hints in those files, with the subject's own public keys (never a private part, never a symmetric key, never another's keys), signed with a key of the issuer and valid for the time asked for or one day; what is not in the files is not in the statement, and whom there is no directory for gets no statement. A publisher answers about the pair that was asked about, from the files as they are now, whatever was asked before. A configuration that refers to files (at any depth, also in lists) becomes the same configuration with exactly those references replaced by what the files hold; a file that is missing gives nothing and a file of an unknown kind is refused.",
["inputs","histories","configurations"],"All directories of statements, names of entities (host names, URLs with paths and ports, quoted), changes of the files between questions, and all nested configurations.",
"Tests read one fixed directory once; mixing of subjects, keys and names needs several pairs and histories.",
[S+"fetch_entity_statement/fs2.py",S+"utils.py"],
[("statements","fetch_entity_statement/fs2.py FSFetchEntityStatement/FSPublisher"),("configuration","utils.py load_values_from_file"),("keys","entity_statement/create.py public_jwks")],
"TLA+ (Files.tla) model checked with TLC; histories of writing files and asking run against the real publisher on a scratch directory, every statement judged by TLC",
"Names that are not those of entities (e.g. containing '..') are not claimed.")
p("C27","Over HTTP a server answers exactly what it knows, and asking changes nothing",
"A trust anchor and a trust mark issuer as they are run on the web (the servers in setup_federation, dc4eu_federation and edu_federation) answer every request from their registries as they are at that moment: their own configuration, announcing exactly the addresses they can be asked at; a statement about precisely those that are registered, with the keys they are registered with; a list of exactly those registered that match what was asked for; the metadata of a subordinate with a chain to this anchor; a mark to whom it was issued for, as long as specified; whether a mark is active, and who has one, exactly by what was issued and has not run out. Everything else is refused with a 4xx status. Answers and refusals have the right status, say what they are (never HTML that repeats the request), and statements and marks are signed by the server and valid now. No request, whatever its parameters or method, makes the server fail or changes a registry, except that a mark issued is added. What the package's own client services make of the answers is the same.",
["inputs","histories","configurations"],"All sequences of requests (known and unknown names, missing, repeated and malformed parameters, forged and expired marks, other methods), with subordinates registered and removed, marks issued and time passing in between, at servers started from objects and from the shipped configurations.",
"No test calls a server over HTTP. What must not be answered, and what must not change, is the space of all requests in all orders.",
["setup_federation/trust_anchor/views.py","setup_federation/trust_mark_issuer/views.py","dc4eu_federation/trust_anchor/views.py","edu_federation/trust_anchor/views.py",S+"entity/server/__init__.py",S+"entity/client/__init__.py",S+"trust_mark_entity/server/trust_mark_status.py"],
[("servers","*_federation/trust_anchor/views.py, *_federation/trust_mark_issuer/views.py service_endpoint/wkof; setup_federation/entity.py init_app"),("endpoints","entity/server/fetch.py, list.py, resolve.py; trust_mark_entity/server/*.py"),("clients","entity/client/*.py; entity/client/__init__.py parse_request_response")],
"TLA+ (Http.tla): the answer as a function of registries, time and request, model checked with TLC; random histories of requests against the real Flask applications, also by way of the package's client services, every answer and the registries after it judged by TLC",
"Routes for endpoints that are not announced (e.g. /pid_query) are not claimed, nor is what happens to a request with malformed values beyond not being a server error and changing nothing.")
p("C28","An OpenID provider lets in only vouched-for clients, for the user that logged in",
"An OpenID provider of the federation, as it is run on the web, shows its login page to precisely those authorization requests that come from a client it has registered, or that a trust anchor of the provider leads to if clients may come unregistered, for a redirect URI that the client has and its superiors allow, signed (if at all) with a key of that client. A code is given only to who completes, with the right password, a login that the provider itself asked for, or to the same browser for the same client within an hour of that unless a new login is asked for, and it goes to that client's redirect URI with that request's state. A code is exchanged once, before it runs out, only by the client it was made for proving who it is with its own key or its own secret, for tokens of that scope and an ID Token by the provider, for that client, with that request's nonce. An access token gives the claims of that user that were asked for, no others, while it lives. A user is never mistaken for another. Nothing else gets anybody a code, a token or a claim, or a client registered; whatever is refused is refused with a 4xx status and never repeats the request as HTML, and no request makes the provider fail. The keys it publishes are its own and public.",
["inputs","histories","configurations"],"All sequences of authorization requests, registrations, logins, exchanges and requests for claims by several clients, honest or not (codes, tokens, keys, secrets, pages, redirect URIs of others, forged, replayed, expired, left out), with automatic registration on or off, superiors that restrict, and time passing.",
"No test runs a provider on the web or completes a login; who must not get in is the space of all requests in all orders.",
["edu_federation/openid_provider/views.py",S+"appserver/__init__.py",S+"appserver/oidc/authorization.py",S+"appserver/oidc/registration.py"],
[("provider","edu_federation/openid_provider/views.py service_endpoint/verify/keys/do_response"),("letting in","appserver/oidc/authorization.py Authorization; appserver/oidc/registration.py Registration"),("server","appserver/__init__.py ServerUnit")],
"TLA+ (Gate.tla): who is let in and what is handed out, model checked with TLC against clients that try everything with everybody's codes, pages and keys; random histories of requests against the real Flask application in a simulated federation, every answer and the registered clients judged by TLC",
"The library's (idpyoidc) code, token and session handling is part of what is run. client_secret_basic need not be accepted (entity identifiers contain ':'), nor refresh tokens, nor access tokens of a code that has been presented again.")
