from p import p
S="src/fedservice/"
p("C07","Metadata policies of superior and subordinate combine without losing a demand",
"When the policies that a superior and its subordinate state for the same claim are combined, the combination demands everything that both of them demand: what both list in one_of or subset_of is narrowed to what is common, what both list in add is joined, an essential claim stays essential, and a value or a default set by the superior cannot be changed. Where the two contradict each other (nothing in common, different values or defaults, essential withdrawn, one_of mixed with subset_of or superset_of, or a superset_of, default or add that falls outside what subset_of, one_of or superset_of allow) the combination is refused, and policies that do not contradict each other are not refused. Operators nobody knows are ignored.",
["inputs","configurations"],"All pairs of claim policies over all operators and values, and all metadata they later are applied to.",
"The tests list some thirty pairs; the property is about the product of all operators and values of both sides.",
[S+"entity/function/policy.py"],
[("combination per claim","entity/function/policy.py combine_claim_policy and the combine_*/do_* functions"),("combination of statements","entity/function/policy.py combine")],
"TLA+ (Policy.tla) model checked with TLC for soundness; every pair the model enumerates (all in the thorough tier) is combined by the code and judged by TLC",
"A set of two superset_of is intersected by the code (known finding). Undecided: value in the superior together with operators it already fulfils, add that does not give what superset_of demands, empty policies.")
p("C08","Metadata that comes out of a policy complies with the policy",
"When a metadata policy is applied to metadata the result complies with every operator of the policy: the claim has the value that is set, holds what is to be added, holds the default if it was missing, has just one value that is among those of one_of, holds nothing outside subset_of and everything in superset_of, and is there if it is essential. Metadata that cannot be made to comply is refused, metadata that can is not; nothing more is changed than the operators ask for, and claims without policy are left alone.",
["inputs"],"All policies and all metadata.",
"The tests apply a few policies to a few documents; compliance must hold for whatever an entity states about itself.",
[S+"entity/function/policy.py",S+"entity/function/policy_operator.py"],
[("order of application","entity/function/policy.py apply_metadata_policy, policy_operator.py POLICY_APPLICATION_ORDER"),("operators","entity/function/policy_operator.py Value/Add/Default/OneOf/SubsetOf/SupersetOf/Essential"),("apply","policy.py TrustChainPolicy.apply_policy")],
"TLA+ (Policy.tla) model checked with TLC; every small policy of the model on all small metadata, and random larger ones, applied by the code and judged by TLC",
"Values are abstracted to atoms (strings, numbers, URIs, dictionaries are substituted). A policy that contradicts itself is only checked for the exact outcome.")
p("C09","The metadata of a trust chain obeys every superior, entity type by entity type",
"The metadata a trust chain gives for an entity type is what the entity states about itself for that type, overridden by what its superiors state, after applying the combination of the policies that each superior in the chain states for that same type. If for one claim some superior's policy is contradicted by another's or cannot be fulfilled, if superiors state different values for the same claim, or if one statement holds both metadata and policy for a claim, no metadata comes out. Policies for one entity type never affect another, the combined policy that the chain remembers is the one that made the metadata, and the verified statements themselves are left as they were, so doing it again gives the same result.",
["inputs","configurations"],"All chain lengths, policies and metadata on every statement for any set of entity types and claims, and all metadata of the leaf.",
"Tests have a couple of fixed federations with one or two policies.",
[S+"entity/function/policy.py",S+"entity/function/__init__.py"],
[("gathering down the chain","entity/function/policy.py TrustChainPolicy.gather_policies/combine_metadata"),("application","policy.py TrustChainPolicy._policy/__call__; entity/function/__init__.py apply_policies")],
"TLA+ (Policy.tla, PolicyTrace.tla) model checked with TLC; random and enumerated policies placed on chains (built directly and as signed, verified chains), the outcome judged by TLC",
"Undecided: a policy that changes what a superior itself states as metadata.")
