------------------------------- MODULE Graph --------------------------------
\* The code graph: repositories, entities, edges, pending references (G01, G02, G03, G04).
EXTENDS Common
CONSTANTS Repos, Ids1, Ids2, Mods, Files, EKs, Names, Bodies, RKs, Raws, Metas, Models, Ems, Kinds, Spells, Bads, Batch, MaxBorn, Start
VARIABLES R, E, edges, U, born, act
\* R[p] = [g, st, li]; E[id] = [r, f, k, n, b, em, sum, g]; edges of <<from, kind, to>>; U of [r, a, k, raw, f, m]
\* g: how often this path / id has been given an identity; born remembers it after removal
vars == <<R, E, edges, U, born, act>>
Full == [R |-> R, E |-> E, edges |-> edges, U |-> U, born |-> born]
State == [R |-> R, E |-> E, edges |-> edges, U |-> U]
Ids == Ids1 \cup Ids2 \cup Mods
Home(i) == IF i \in Mods THEN "mod" ELSE IF i \in Ids1 THEN "r1" ELSE "r2"
Born(k) == Get(born, k, 0)
Ok(a, x) == act' = a @@ [res |-> [r |-> "ok", intact |-> x]]
Same == UNCHANGED <<R, E, edges, U, born>>
\* a refused call leaves every stored row as it was
Refuse(a, why) == Same /\ act' = a @@ [res |-> [r |-> why, intact |-> TRUE]]
Touching(es, gone) == {e \in es : e[1] \in gone \/ e[3] \in gone}
\* ---------------------------------------------------------------- repositories
AddRepo(p, sp) ==
  LET new == p \notin DOMAIN R b == IF new THEN Put(born, p, Born(p) + 1) ELSE born IN
  /\ b[p] <= MaxBorn /\ born' = b /\ R' = Put(R, p, [g |-> b[p], st |-> "pending", li |-> None]) /\ UNCHANGED <<E, edges, U>>
  /\ Ok([name |-> "AddRepo", p |-> p, sp |-> sp], FALSE)
BadRepo(why) == Refuse([name |-> "BadRepo", why |-> why], "invalid")
RemoveRepo(p, sp) ==
  LET gone == {i \in DOMAIN E : E[i].r = p} IN
  /\ R' = Drop(R, {p}) /\ E' = Drop(E, gone) /\ edges' = edges \ Touching(edges, gone) /\ U' = {u \in U : u.r # p} /\ UNCHANGED born
  /\ Ok([name |-> "RemoveRepo", p |-> p, sp |-> sp], FALSE)
Status(p, sp, st, li) ==
  /\ R' = IF p \in DOMAIN R THEN [R EXCEPT ![p].st = st, ![p].li = li] ELSE R
  /\ UNCHANGED <<E, edges, U, born>> /\ Ok([name |-> "Status", p |-> p, sp |-> sp, st |-> st, li |-> li], FALSE)
\* ---------------------------------------------------------------- entities
Shape(i, f, k, n, b, em) == [id |-> i, em |-> IF i \in Mods THEN None ELSE em, f |-> IF i \in Mods THEN None ELSE f, k |-> IF i \in Mods THEN "module" ELSE k, n |-> n, b |-> b, bad |-> None]
Shapes(is) == {Shape(i, f, k, n, b, em) : i \in Pick(is), f \in Pick(Files), k \in Pick(EKs), n \in Pick(Names), b \in Pick(Bodies), em \in Pick(Ems)}
\* one stored entity: a module is only ever created, anything else is overwritten; being stored again without its embedding forgets it
One(st, s, r) ==
  LET old == s.id \in DOMAIN st.E nb == IF old THEN st.b ELSE Put(st.b, s.id, Get(st.b, s.id, 0) + 1) IN
  IF old /\ s.id \in Mods THEN st
  ELSE [E |-> Put(st.E, s.id, [r |-> r, f |-> s.f, k |-> s.k, n |-> s.n, b |-> s.b, em |-> s.em, sum |-> IF old THEN st.E[s.id].sum ELSE None, g |-> nb[s.id]]), b |-> nb]
Stored(batch) == FoldLeft(LAMBDA st, s : One(st, s, Home(s.id)), [E |-> E, b |-> born], batch)
Why(batch) == LET bad == {n \in 1..Len(batch) : batch[n].bad # None} nor == {n \in 1..Len(batch) : Home(batch[n].id) # "mod" /\ Home(batch[n].id) \notin DOMAIN R} IN
  IF bad = {} /\ nor = {} THEN "ok" ELSE "refused"
\* a batch is stored as a whole or, if one element cannot be stored, not at all
Upsert(batch) ==
  LET a == [name |-> "Upsert", batch |-> batch] w == Why(batch) n == Stored(batch) IN
  IF w # "ok" THEN Refuse(a, w)
  ELSE /\ \A i \in DOMAIN n.b : n.b[i] <= MaxBorn
       /\ E' = n.E /\ born' = n.b /\ UNCHANGED <<R, edges, U>> /\ Ok(a, FALSE)
\* a parsed file replaces what was stored for it; what it no longer contains goes with its edges
Reindex(r, f, batch) ==
  LET a == [name |-> "Reindex", r |-> r, f |-> f, batch |-> batch] n == Stored(batch)
      gone == {i \in DOMAIN E : E[i].r = r /\ E[i].f = f} \ {batch[x].id : x \in 1..Len(batch)} IN
  IF r \notin DOMAIN R \/ (\E x \in 1..Len(batch) : batch[x].bad # None) THEN Refuse(a, "refused")
  ELSE /\ \A i \in DOMAIN n.b : n.b[i] <= MaxBorn
       /\ E' = Drop(n.E, gone) /\ born' = n.b /\ edges' = edges \ Touching(edges, gone) /\ UNCHANGED <<R, U>> /\ Ok(a, FALSE)
Away(gone, us, a) == E' = Drop(E, gone) /\ edges' = edges \ Touching(edges, gone) /\ U' = U \ us /\ UNCHANGED <<R, born>> /\ Ok(a, FALSE)
DeleteFile(r, f) == Away({i \in DOMAIN E : E[i].r = r /\ E[i].f = f}, {u \in U : u.r = r /\ u.f = f}, [name |-> "DeleteFile", r |-> r, f |-> f])
DeleteIds(is) == Away(is \cap DOMAIN E, {}, [name |-> "DeleteIds", ids |-> is])
DeleteRepoEntities(r) == Away({i \in DOMAIN E : E[i].r = r}, {}, [name |-> "DeleteRepoEntities", r |-> r])
Embed(i, m) == /\ E' = IF i \in DOMAIN E THEN [E EXCEPT ![i].em = m] ELSE E
               /\ UNCHANGED <<R, edges, U, born>> /\ Ok([name |-> "Embed", id |-> i, m |-> m], FALSE)
Summarise(i, s) == LET a == [name |-> "Summarise", id |-> i, s |-> s] IN
  IF i \notin DOMAIN E THEN Refuse(a, "refused") ELSE E' = [E EXCEPT ![i].sum = s] /\ UNCHANGED <<R, edges, U, born>> /\ Ok(a, FALSE)
Unsummarise(i) == /\ E' = IF i \in DOMAIN E THEN [E EXCEPT ![i].sum = None] ELSE E
                  /\ UNCHANGED <<R, edges, U, born>> /\ Ok([name |-> "Unsummarise", id |-> i], FALSE)
\* ---------------------------------------------------------------- edges and pending references
Rel(a, k, b) == [t |-> "edge", a |-> a, k |-> k, b |-> b, bad |-> None]
Ref(r, a, k, raw, f, m) == [t |-> "ref", r |-> r, a |-> a, k |-> k, raw |-> raw, f |-> f, m |-> m, bad |-> None]
Key(u) == <<u.r, u.a, u.k, u.raw>>
\* the same reference stored again replaces the earlier one; references of unknown repositories are dropped
Keep(us, x) == IF x.r \notin DOMAIN R \/ x.f = None THEN us ELSE {u \in us : Key(u) # Key(x)} \cup {[r |-> x.r, a |-> x.a, k |-> x.k, raw |-> x.raw, f |-> x.f, m |-> x.m]}
Relate(batch) ==
  LET a == [name |-> "Relate", batch |-> batch]
      new == {<<batch[n].a, batch[n].k, batch[n].b>> : n \in {n \in 1..Len(batch) : batch[n].t = "edge" /\ batch[n].k # "BOGUS" /\ {batch[n].a, batch[n].b} \subseteq DOMAIN E}} IN
  IF \E n \in 1..Len(batch) : batch[n].bad # None /\ (batch[n].t = "ref" => batch[n].r \in DOMAIN R) THEN Refuse(a, "refused")
  ELSE /\ edges' = edges \cup new /\ U' = FoldLeft(LAMBDA us, x : IF x.t = "ref" /\ x.bad = None THEN Keep(us, x) ELSE us, U, batch)
       /\ UNCHANGED <<R, E, born>> /\ Ok(a, FALSE)
Unrelate(es) == edges' = edges \ Range2(es) /\ UNCHANGED <<R, E, U, born>> /\ Ok([name |-> "Unrelate", es |-> es], FALSE)
\* promotion writes exactly that edge and drops the reference; without both endpoints the reference stays pending
Promote(ps, single) ==
  LET good == {n \in 1..Len(ps) : {ps[n].u.a, ps[n].to} \subseteq DOMAIN E} IN
  /\ edges' = edges \cup {<<ps[n].u.a, ps[n].u.k, ps[n].to>> : n \in good} /\ U' = U \ {ps[n].u : n \in good}
  /\ UNCHANGED <<R, E, born>> /\ Ok([name |-> "Promote", ps |-> ps, single |-> single], FALSE)
Meta(u, m) == U' = (U \ {u}) \cup (IF u \in U THEN {[u EXCEPT !.m = m]} ELSE {}) /\ UNCHANGED <<R, E, edges, born>> /\ Ok([name |-> "Meta", u |-> u, m |-> m], FALSE)
DropFileRefs(r, f) == U' = {u \in U : ~(u.r = r /\ u.f = f)} /\ UNCHANGED <<R, E, edges, born>> /\ Ok([name |-> "DropFileRefs", r |-> r, f |-> f], FALSE)
DropRepoRefs(r) == U' = {u \in U : u.r # r} /\ UNCHANGED <<R, E, edges, born>> /\ Ok([name |-> "DropRepoRefs", r |-> r], FALSE)
Reopen == Same /\ Ok([name |-> "Reopen"], TRUE)

Spoil(x) == {x} \cup {[x EXCEPT !.bad = w] : w \in Bads}
\* which of two versions of one thing in a batch counts is settled only when both can be stored
Slot(x) == IF "id" \in DOMAIN x THEN x.id ELSE IF "t" \in DOMAIN x /\ x.t = "ref" THEN Key(x) ELSE <<>>
Clean(x) == "bad" \notin DOMAIN x \/ x.bad = None
Pairs(S) == {<<x, y>> : x \in Pick(S), y \in Pick(S)}
Seqs(S) == {<<x>> : x \in Pick(S)} \cup (IF Batch > 1 THEN {q \in Pairs(S) : Slot(q[1]) = Slot(q[2]) => Clean(q[1]) /\ Clean(q[2])} ELSE {})
SpoiltShapes(is) == UNION {IF s.k = "module" THEN {s} ELSE Spoil(s) : s \in Shapes(is)}
Rels == {Rel(a, k, b) : a \in Pick(Ids), k \in Pick(RKs), b \in Pick(Ids)}
Refs == {Ref(r, a, k, w, f, m) : r \in Pick(Repos), a \in Pick(Ids \ Mods), k \in Pick(RKs \ {"BOGUS"}), w \in Pick(Raws), f \in Pick(Files), m \in Pick(Metas)}
ShapesOf(r, f) == {s \in Shapes({i \in Ids : Home(i) = r}) : TRUE}
\* promotions name references that are pending (they come from the listing)
Prom == {[u |-> u, to |-> t] : u \in Pick(U), t \in Pick(Ids)}
Do(k) ==
  CASE k = "AddRepo" -> \E p \in Pick(Repos), sp \in Pick(Spells) : AddRepo(p, sp)
    [] k = "BadRepo" -> \E w \in Pick({"empty", "relative", "system"}) : BadRepo(w)
    [] k = "RemoveRepo" -> \E p \in Pick(Repos), sp \in Pick(Spells) : RemoveRepo(p, sp)
    [] k = "Status" -> \E p \in Pick(Repos), sp \in Pick(Spells), st \in Pick({"ready", "error"}), li \in Pick({None, "t1"}) : Status(p, sp, st, li)
    [] k \in {"Upsert", "Upsert2", "Upsert3"} -> \E b \in Pick(Seqs(SpoiltShapes(Ids))) : Upsert(b)
    [] k = "Reindex" -> \E r \in Pick(Repos), f \in Pick(Files) : \E b \in Pick(Seqs({[s EXCEPT !.f = f] : s \in SpoiltShapes({i \in Ids : Home(i) = r})}) \cup {<<>>}) : Reindex(r, f, b)
    [] k = "DeleteFile" -> \E r \in Pick(Repos), f \in Pick(Files) : DeleteFile(r, f)
    [] k = "DeleteIds" -> \E is \in Pick(SUBSET Ids) : DeleteIds(is)
    [] k = "DeleteRepoEntities" -> \E r \in Pick(Repos) : DeleteRepoEntities(r)
    [] k = "Embed" -> \E i \in Pick(Ids), m \in Pick(Models) : Embed(i, m)
    [] k = "Summarise" -> \E i \in Pick(Ids \ Mods), s \in Pick({"s1", "s2"}) : Summarise(i, s)
    [] k = "Unsummarise" -> \E i \in Pick(Ids \ Mods) : Unsummarise(i)
    [] k \in {"Relate", "Relate2", "Relate3"} -> \E b \in Pick(Seqs(UNION {Spoil(x) : x \in Refs} \cup Rels)) : Relate(b)
    [] k = "Refer" -> \E b \in Pick(Seqs(UNION {Spoil(x) : x \in Refs})) : Relate(b)
    [] k = "Unrelate" -> \E b \in Pick(Seqs(Rels)) : Unrelate([n \in 1..Len(b) |-> <<b[n].a, b[n].k, b[n].b>>])
    [] k = "Promote" -> \E s \in Pick({TRUE, FALSE}) : IF s THEN \E p \in Prom : Promote(<<p>>, TRUE) ELSE \E ps \in Seqs(Prom) : Promote(ps, FALSE)
    [] k = "Meta" -> \E u \in Pick(U), m \in Pick(Metas) : Meta(u, m)
    [] k = "DropFileRefs" -> \E r \in Pick(Repos), f \in Pick(Files) : DropFileRefs(r, f)
    [] k = "DropRepoRefs" -> \E r \in Pick(Repos) : DropRepoRefs(r)
    [] k = "Reopen" -> Reopen
Can(k) == k \notin {"Promote", "Meta"} \/ U # {}
Init == /\ R = IF Start = "empty" THEN EmptyFn ELSE [p \in (IF Start \in {"one", "refs"} THEN {"r1"} ELSE Repos) |-> [g |-> 1, st |-> "pending", li |-> None]]
        /\ E = IF Start \in {"ents", "refs"} THEN [i \in Ids |-> [r |-> Home(i), f |-> IF i \in Mods THEN None ELSE CHOOSE f \in Files : TRUE, k |-> IF i \in Mods THEN "module" ELSE CHOOSE k \in EKs : TRUE,
                                              n |-> CHOOSE n \in Names : TRUE, b |-> CHOOSE b \in Bodies : TRUE, em |-> None, sum |-> None, g |-> 1]] ELSE EmptyFn
        /\ edges = {} /\ U = {} /\ born = [x \in DOMAIN R \cup DOMAIN E |-> 1] /\ act = [name |-> "Init"]
Next == \E k \in Pick({k \in Kinds : Can(k)}) : Do(k)
Spec == Init /\ [][Next]_vars
\* ------------------------------------------------------------- properties
EdgesHaveEndpoints == \A e \in edges : {e[1], e[3]} \subseteq DOMAIN E
EntitiesHaveRepos == \A i \in DOMAIN E : E[i].r = "mod" \/ E[i].r \in DOMAIN R
RefsHaveRepos == \A u \in U : u.r \in DOMAIN R
RefOnce == \A u, v \in U : Key(u) = Key(v) => u = v
AllOrNothing == [][act'.res.r # "ok" => Same]_vars
IdentityNeverReused == [][\A i \in DOMAIN E' : IF i \in DOMAIN E THEN E'[i].g = E[i].g ELSE E'[i].g > Born(i)]_vars
\* a reference only disappears into its edge or with its file or repository
NeverLost == [][\A u \in U : (\E v \in U' : Key(v) = Key(u)) \/ act'.name \in {"DeleteFile", "DropFileRefs", "DropRepoRefs", "RemoveRepo"} \/ (\E t \in DOMAIN E : <<u.a, u.k, t>> \in edges')]_vars
OthersUntouched == [][act'.name = "RemoveRepo" => \A i \in DOMAIN E : E[i].r # act'.p => i \in DOMAIN E' /\ E'[i] = E[i]]_vars
=============================================================================
