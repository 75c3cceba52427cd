---------------------------- MODULE ExploreCache ----------------------------
\* The store of exploration results (src/db/exploration-cache.ts): by repository, index generation and
\* question (S03). Questions are abstract: the driver writes each down with its keys in ever different order.
EXTENDS Common
CONSTANTS Repos, Gens, Qs, Vals
VARIABLES known, cache, act
vars == <<known, cache, act>>
Init == known = {"ra"} /\ cache = EmptyFn /\ act = [name |-> "Init"]
\* nothing is stored for a repository that is not registered
PutIn(r, g, q, v) == cache' = (IF r \in known THEN Put(cache, <<r, g, q>>, v) ELSE cache) /\ UNCHANGED known /\ act' = [name |-> "Put", r |-> r, g |-> g, q |-> q, v |-> v, res |-> "ok"]
Wipe(r) == cache' = Drop(cache, { k \in DOMAIN cache : k[1] = r })
DropRepo(r) == Wipe(r) /\ UNCHANGED known /\ act' = [name |-> "Drop", r |-> r, res |-> "ok"]
Add(r) == r \notin known /\ known' = known \cup {r} /\ UNCHANGED cache /\ act' = [name |-> "Add", r |-> r, res |-> "ok"]
\* a repository that comes back starts with nothing
RemoveRepo(r) == r \in known /\ known' = known \ {r} /\ Wipe(r) /\ act' = [name |-> "RemoveRepo", r |-> r, res |-> "ok"]
Reopen == UNCHANGED <<known, cache>> /\ act' = [name |-> "Reopen", res |-> "ok"]
Next == \/ \E r \in Pick(Repos), g \in Pick(Gens), q \in Pick(Qs), v \in Pick(Vals) : PutIn(r, g, q, v)
        \/ \E r \in Pick(Repos) : DropRepo(r) \/ Add(r) \/ RemoveRepo(r)
        \/ Reopen
State == [hits |-> { <<k[1], k[2], k[3], cache[k]>> : k \in DOMAIN cache }]
Full == [known |-> known, cache |-> cache]
OnlyKnown == \A k \in DOMAIN cache : k[1] \in known
OnlyThat == [][\A k \in DOMAIN cache : (k \notin DOMAIN cache' \/ cache'[k] # cache[k]) => (IF act'.name = "Put" THEN k = <<act'.r, act'.g, act'.q>> ELSE act'.r = k[1])]_vars
=============================================================================
