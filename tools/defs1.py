from p import p
S="src/fedservice/"
p("C01","Naming constraints bind everyone below the statement that sets them",
"A trust chain is accepted only if the host name of every subject in it, the leaf's own configuration included, is allowed by all naming constraints stated at or above it: an excluded name is excluded for everybody at and below that statement and no subordinate can lift it, and permitted names can be narrowed by a subordinate but never widened. An entry with a leading dot covers only names below it, one without covers the name itself and those below, matching is by whole host name labels (case, scheme, port and path do not matter), and a statement that says nothing restricts nothing. A chain that satisfies all of the constraints is not refused because of them.",
["inputs","configurations"],"All chains (any length), all combinations of permitted/excluded lists on any statement, all subject identifiers.",
"The tests check a handful of constraint combinations on two level chains; the property quantifies over every combination of names and constraints down a chain.",
[S+"entity_statement/constraints.py",S+"entity/function/verifier.py"],
[("inheritance of naming constraints down the chain","entity_statement/constraints.py update_naming_constraints/add_constraints/update_specs"),("matching","entity_statement/constraints.py excluded/permitted/more_specific/host_part"),("enforcement during verification","entity/function/verifier.py TrustChainVerifier.trust_chain_verification")],
"TLA+ (Naming.tla) model checked with TLC; TLC-enumerated chains replayed on the code and traces judged by TLC",
"Random deeper chains, decorated URLs (upper case, port, path, query) are added to the enumerated ones.",
observe=["whether meets_restrictions / chain verification accepts the chain"])
p("C02","Path length limits are enforced for every statement of a chain",
"A trust chain where a statement sets a maximum path length m is accepted only if there are at most m further subordinate statements between that statement and the leaf's own configuration. Every such limit in the chain counts, a subordinate can tighten but never relax the limit it inherited, and zero means no intermediate below. A chain within all of its limits is not refused because of them.",
["inputs","configurations"],"All chain lengths and all placements and values of the limit.",
"The tests only exercise a couple of fixed limits on short chains.",
[S+"entity_statement/constraints.py",S+"entity/function/verifier.py"],
[("path length bookkeeping","entity_statement/constraints.py calculate_path_length/meets_restrictions")],
"TLA+ (Naming.tla, Chain.tla) model checked with TLC; enumerated and random chains judged by TLC")
p("C03","A verified trust chain is linked by signatures to a configured trust anchor",
"An entity accepts a trust chain only if it starts with a statement issued by one of the trust anchors it was configured with (or by itself) and signed with a key it was configured with for that issuer, and every following statement is issued by the subject of the one above and is validly signed with a key that the statement above vouches for. What was presented earlier, accepted or not, never changes which chains are accepted, which keys are trusted for the anchors, or which entities are anchors, and nobody's keys are learned from a chain that is not accepted. A properly linked and signed chain is accepted, and what is reported about it (anchor, issuer path, subjects, expiration) is what the statements say.",
["inputs","histories","configurations"],"All sequences of chains presented to one entity, with any statement altered, resigned, reordered, removed, spliced or issued by an outsider, and all configured anchors.",
"The tests verify well formed chains with a fresh entity; an attack depends on the choice of keys at every link and on which chains the entity processed before.",
[S+"entity/function/verifier.py",S+"entity/function/__init__.py",S+"utils.py",S+"entity/__init__.py"],
[("link and signature check","entity/function/verifier.py TrustChainVerifier.verify_trust_chain"),("trust anchor check","entity/function/verifier.py trusted_anchor"),("learning keys","entity/function/verifier.py"),("configured anchors","utils.py make_federation_entity; entity/__init__.py")],
"TLA+ (Chain.tla) with attacker model checked with TLC; histories of chains run on one entity and judged by TLC",
"Cryptography is the real library's: signatures are idealised in the specification as 'signed with key k'.",
state=[("key jar","keys the entity trusts for others","entity.keyjar"),("trust_anchors","configured anchors","entity.function.trust_chain_collector")],
observe=["result of verifying a chain","keys stored for the anchors and for others afterwards"])
p("C14","Critical extensions that are not understood are never ignored",
"A statement that lists a claim it contains as critical, or lists a policy operator it uses as critical, is accepted only if the one who reads it says it understands that claim or operator, and a trust chain holding such a statement at any position is not accepted. Unknown claims that are not listed as critical and critical ones that are understood do not make a statement refused. This holds whichever of several listed names is the one not understood.",
["inputs","configurations"],"All sets of claims, critical lists, policy operators and sets of understood extensions, at any position in a chain.",
"Tests have one example of each; the property is about any combination of what is listed, present and understood.",
[S+"message.py",S+"entity/function/verifier.py"],
[("critical check","message.py EntityStatement.verify"),("refusal of chains","entity/function/verifier.py has_unknown_critical")],
"TLA+ (Critical.tla) model checked with TLC; enumerated and random statements judged by TLC",
"Malformed lists (empty, naming an absent or a standard claim) are left undecided.")
p("C04","Nothing that has expired is accepted, stored chains included",
"A trust chain is accepted only if none of its statements has expired, and it is reported to expire when the first of its statements does. Trust chains and metadata that are handed out for an entity, also those kept from an earlier occasion, never depend on a statement that has expired, and when the kept ones have expired the chains are collected and verified anew. A chain none of whose statements has expired is not refused for its age.",
["inputs","histories","schedules"],"All expiration times on all statements of a chain and every sequence of requests and passages of time, while the federation changes.",
"Tests freeze the time at one or two moments; this is about every order of expirations and requests over the life time of an entity.",
[S+"entity/function/verifier.py",S+"entity_statement/statement.py",S+"entity/__init__.py",S+"utils.py"],
[("expired statement check","entity/function/verifier.py verify_trust_chain; utils.py statement_is_expired"),("chain expiration","entity/function/verifier.py trust_chain_expires_at"),("stored chains","entity/__init__.py get_stored_trust_chains/get_trust_chains/get_verified_metadata; entity_statement/statement.py is_expired")],
"TLA+ (Chain.tla, CacheMC.tla, CollectTrace.tla) model checked with TLC; recorded histories with a simulated clock judged by TLC",
"The clock is simulated (time.time and the datetime used for timestamps).",
state=[("stored trust chains","verified chains kept per entity","FederationEntity.trust_chain")])
p("C05","Trust chain collection ends and finds exactly the chains there are",
"Collecting trust chains for an entity ends in every federation, also where authority hints form loops, and returns exactly one chain for every path of distinct superiors that follows the authority hints upward until there is no way on or the requested trust anchor is reached. Each chain consists of the statements issued by each superior about the one below, and comes with the entity's own configuration. The verified chains that an entity gets for another are those of the paths that end in one of its trust anchors.",
["inputs","configurations","histories"],"All graphs of authority hints (loops, diamonds, self references, several anchors, tenants sharing a host), all leaf entities and stop conditions, after any earlier requests.",
"Tests use a few tree shaped federations; termination and completeness are about all graphs.",
[S+"entity/function/trust_chain_collector.py",S+"entity/function/__init__.py"],
[("walk upward","entity/function/trust_chain_collector.py collect_tree/collect_branch/__call__"),("unfolding","entity/function/__init__.py tree2chains/collect_trust_chains"),("finding a configuration","entity/function/trust_chain_collector.py get_entity_configuration")],
"TLA+ (Collect.tla) model checked with TLC incl. termination; every graph of the model and random histories run on the code, judged by TLC",
"Federations where a needed superior does not answer are left undecided (collection raises).",
observe=["result of collect_trust_chains and get_trust_chains","HTTP requests"])
p("C06","Collected statements are reused only while they stay valid long enough",
"When collecting, a statement or entity configuration received earlier is used only if it is still valid for at least the configured margin, otherwise it is read anew; one that is valid for longer than that is not read again. So a change that a superior or an entity makes (registration, authority hints) is acted upon at the latest when what was received before gets within the margin of its expiration. This holds for configurations and statements alike and however they came to be cached, also when what is remembered has been saved and read back in between.",
["histories","schedules"],"All sequences of collection, requests, passage of time (also while collecting) and changes in the federation, all life times and margins.",
"Tests never let time pass between collections.",
[S+"entity/function/trust_chain_collector.py",S+"entity_statement/cache.py",S+"entity/client/entity_configuration.py",S+"entity/client/entity_statement.py"],
[("cache with margin","entity_statement/cache.py ESCache"),("statement cache","trust_chain_collector.py _get_entity_statement"),("leaf configuration","trust_chain_collector.py too_old/__call__")],
"TLA+ (CacheMC.tla, CollectTrace.tla) model checked with TLC; recorded histories with a simulated clock judged by TLC",
state=[("config_cache","entity configurations received","TrustChainCollector"),("entity_statement_cache","statements received","TrustChainCollector")])
