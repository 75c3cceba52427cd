---------------------------- MODULE Conversations ----------------------------
\* Conversation history (src/db/conversations.ts): sessions and turns per repository, closing, deleting,
\* forgetting, pruning, searching (S01). A session belongs to one repository; its turns may be saved
\* under another one, and before the session itself is.
EXTENDS Common
CONSTANTS Sids, Idxs, Repos,
          Texts,     \* contents of turns and summaries
          Vecs,      \* whether saved with a vector: a subset of BOOLEAN
          Kinds,     \* <<type, tier>> of compacted turns
          Statuses, Agents,
          Acts
VARIABLES sess,      \* by id: [repo, sum, agent, cat, status, seen, ttl, vec]; crowds as one entry [repo, ttl, n]
          order,     \* ids by creation
          recent,    \* ids by last activity
          turns,     \* by <<session, index>>: [repo, v, type, tier, vec]
          act
vars == <<sess, order, recent, turns, act>>
On(a) == a \in Acts
Home(s) == IF s \in {"s1", "s2", "ca"} THEN "ra" ELSE "rb"
Crowds == {"ca", "cb"}       \* 19 short sessions at a time, to reach the cap
CrowdSize == 19
CapPerRepo == 20
Init == sess = EmptyFn /\ order = <<>> /\ recent = <<>> /\ turns = EmptyFn /\ act = [name |-> "Init"]
Without(seq, S) == SelectSeq(seq, LAMBDA x : x \notin S)
Touch(s) == IF s \in DOMAIN sess THEN Append(Without(recent, {s}), s) ELSE recent
Sess == DOMAIN sess
\* ---- turns
Turn(r, v, k, vec) == [repo |-> r, v |-> v, type |-> k[1], tier |-> k[2], vec |-> vec]
SaveTurn(s, i, r, v, vec) ==
  /\ turns' = Put(turns, <<s, i>>, Turn(r, v, <<"turn", "hot">>, vec)) /\ recent' = Touch(s)
  /\ UNCHANGED <<sess, order>> /\ act' = [name |-> "SaveTurn", s |-> s, i |-> i, r |-> r, v |-> v, vec |-> vec, res |-> "ok"]
\* the outcome of compaction: several turns at once, no activity of their sessions
Compacted(s, i, s2, i2, r, v, k, vec) == On("Compact") /\ <<s, i>> # <<s2, i2>>
  /\ turns' = Put(Put(turns, <<s, i>>, Turn(r, v, k, vec)), <<s2, i2>>, Turn(r, v, k, ~vec /\ TRUE \in Vecs))
  /\ UNCHANGED <<sess, order, recent>> /\ act' = [name |-> "Compacted", s |-> s, i |-> i, s2 |-> s2, i2 |-> i2, r |-> r, v |-> v, type |-> k[1], tier |-> k[2], vec |-> vec, vec2 |-> ~vec /\ TRUE \in Vecs, res |-> "ok"]
\* ---- sessions
New(s) == s \notin Sess
Fresh(s, v, agent, status) == [repo |-> Home(s), sum |-> v, agent |-> agent, cat |-> None, status |-> status, seen |-> <<>>, ttl |-> 2, vec |-> FALSE]
Kept(st) == IF st = "paused" THEN "active" ELSE st
SaveSession(s, v, ag, st, vec) == (vec => On("SVec"))
  /\ LET old == IF New(s) THEN Fresh(s, v, "chat", "active") ELSE sess[s]
     IN sess' = Put(sess, s, [old EXCEPT !.sum = v, !.agent = IF ag = None THEN @ ELSE ag, !.status = IF st = None THEN @ ELSE Kept(st), !.vec = @ \/ vec])
  /\ order' = (IF New(s) THEN Append(order, s) ELSE order) /\ recent' = Append(Without(recent, {s}), s) /\ UNCHANGED turns
  /\ act' = [name |-> "SaveSession", s |-> s, v |-> v, ag |-> ag, st |-> st, vec |-> vec, res |-> "ok"]
Close(s, v, vec) == On("Close")
  /\ LET old == IF New(s) THEN Fresh(s, v, "chat", "active") ELSE sess[s]
     IN sess' = Put(sess, s, [old EXCEPT !.sum = v, !.seen = <<"e1", v>>, !.status = "completed", !.ttl = 2, !.vec = @ \/ vec])
  /\ order' = (IF New(s) THEN Append(order, s) ELSE order) /\ recent' = Append(Without(recent, {s}), s) /\ UNCHANGED turns
  /\ act' = [name |-> "Close", s |-> s, v |-> v, vec |-> vec, res |-> "ok"]
Change(s, name, f(_), x) ==
  /\ sess' = (IF New(s) THEN sess ELSE [sess EXCEPT ![s] = f(@)]) /\ recent' = Touch(s) /\ UNCHANGED <<order, turns>>
  /\ act' = [name |-> name, s |-> s, x |-> x, res |-> "ok"]
SetAgent(s, ag) == On("Set") /\ Change(s, "SetAgent", LAMBDA o : [o EXCEPT !.agent = ag, !.cat = "k-" \o ag], ag)
SetStatus(s, st) == On("Set") /\ Change(s, "SetStatus", LAMBDA o : [o EXCEPT !.status = Kept(st)], st)
Bump(s) == On("Set") /\ Change(s, "Bump", LAMBDA o : o, None)
\* ---- removal
Gone(S) == sess' = Drop(sess, S) /\ order' = Without(order, S) /\ recent' = Without(recent, S)
TurnsOf(S) == { k \in DOMAIN turns : k[1] \in S }
DelSession(s) ==
  /\ Gone({s}) /\ turns' = Drop(turns, TurnsOf({s}))
  /\ act' = [name |-> "DelSession", s |-> s, res |-> <<IF New(s) THEN 0 ELSE 1, Cardinality(TurnsOf({s}))>>]
DelTurns(s) == turns' = Drop(turns, TurnsOf({s})) /\ UNCHANGED <<sess, order, recent>> /\ act' = [name |-> "DelTurns", s |-> s, res |-> "ok"]
DelRecord(s) == Gone({s}) /\ UNCHANGED turns /\ act' = [name |-> "DelRecord", s |-> s, res |-> "ok"]
DelIds(K) == turns' = Drop(turns, K) /\ UNCHANGED <<sess, order, recent>> /\ act' = [name |-> "DelIds", ids |-> SetToSeq(K), res |-> "ok"]
\* forgetting a repository takes its sessions with all their turns, and the vectors of whatever else was saved under it
Forget(r) == LET S == { s \in Sess : sess[s].repo = r } IN
  /\ Gone(S)
  \* with no session of its own nothing is looked at; what becomes of the vectors of other sessions' turns then is left open
  /\ S # {} \/ \A k \in DOMAIN turns : turns[k].repo # r \/ ~turns[k].vec
  /\ turns' = [k \in DOMAIN turns \ TurnsOf(S) |-> [turns[k] EXCEPT !.vec = @ /\ turns[k].repo # r]]
  /\ act' = [name |-> "Forget", r |-> r, res |-> "ok"]
DelTurnsRepo(r) == turns' = Drop(turns, { k \in DOMAIN turns : turns[k].repo = r }) /\ UNCHANGED <<sess, order, recent>> /\ act' = [name |-> "DelTurnsRepo", r |-> r, res |-> "ok"]
\* ---- time
Tick == On("Time") /\ (\E s \in Sess : sess[s].ttl > 0) /\ sess' = [s \in Sess |-> [sess[s] EXCEPT !.ttl = IF @ > 0 THEN @ - 1 ELSE 0]] /\ UNCHANGED <<order, recent, turns>> /\ act' = [name |-> "Tick", res |-> "ok"]
Crowd(c) == On("Crowd") /\ New(c) /\ sess' = Put(sess, c, [repo |-> Home(c), ttl |-> 2, n |-> CrowdSize]) /\ order' = Append(order, c) /\ UNCHANGED <<recent, turns>> /\ act' = [name |-> "Crowd", s |-> c, n |-> CrowdSize, r |-> Home(c), res |-> "ok"]
Weight(s) == IF s \in Crowds THEN sess[s].n ELSE 1
RECURSIVE Sum(_)
Sum(seq) == IF seq = <<>> THEN 0 ELSE Weight(Head(seq)) + Sum(Tail(seq))
\* how many of s stay when only the youngest CapPerRepo of its repository do
Room(s) == LET mine == SelectSeq(order, LAMBDA x : sess[x].repo = sess[s].repo /\ sess[x].ttl > 0)
               k == IndexOf(mine, LAMBDA x : x = s)
               left == CapPerRepo - Sum(SubSeq(mine, k + 1, Len(mine)))
           IN IF left <= 0 THEN 0 ELSE IF left < Weight(s) THEN left ELSE Weight(s)
Prune == On("Time") /\
  LET expired == { s \in Sess : sess[s].ttl = 0 }
      live == Sess \ expired
      out == expired \cup { s \in live : Room(s) = 0 }
  IN /\ sess' = [s \in Sess \ out |-> IF s \in Crowds THEN [sess[s] EXCEPT !.n = Room(s)] ELSE sess[s]]
     /\ order' = Without(order, out) /\ recent' = Without(recent, out) /\ UNCHANGED turns
     /\ act' = [name |-> "Prune", res |-> <<Sum(SelectSeq(order, LAMBDA s : s \in expired)), Sum(SelectSeq(order, LAMBDA s : s \in live)) - FoldLeft(LAMBDA a, s : a + Room(s), 0, SelectSeq(order, LAMBDA s : s \in live))>>]
Reopen == On("Reopen") /\ UNCHANGED <<sess, order, recent, turns>> /\ act' = [name |-> "Reopen", res |-> "ok"]
TSids == IF On("Turns") THEN Sids ELSE {}
SSids == IF On("Sessions") THEN Sids ELSE {}
Next == \/ \E s \in Pick(TSids), i \in Pick(Idxs), r \in Pick(Repos), v \in Pick(Texts), vec \in Pick(Vecs) : SaveTurn(s, i, r, v, vec)
        \/ \E s, s2 \in Pick(TSids), i, i2 \in Pick(Idxs), r \in Pick(Repos), v \in Pick(Texts), k \in Pick(Kinds), vec \in Pick(Vecs) : Compacted(s, i, s2, i2, r, v, k, vec)
        \/ \E s \in Pick(SSids), v \in Pick(Texts), ag \in Pick({None} \cup Agents), st \in Pick({None} \cup Statuses), vec \in Pick(Vecs) : SaveSession(s, v, ag, st, vec)
        \/ \E s \in Pick(SSids), v \in Pick(Texts), vec \in Pick(Vecs) : Close(s, v, vec)
        \/ \E s \in Pick(SSids) : Bump(s) \/ DelSession(s) \/ DelRecord(s) \/ (\E a \in Pick(Agents) : SetAgent(s, a)) \/ (\E st \in Pick(Statuses) : SetStatus(s, st))
        \/ \E s \in Pick(TSids) : DelTurns(s)
        \/ \E k \in Pick(TSids \X Idxs), j \in Pick(TSids \X Idxs) : DelIds({k, j})
        \/ \E r \in Pick(Repos) : Forget(r) \/ (On("Turns") /\ DelTurnsRepo(r))
        \/ Tick \/ Prune \/ Reopen \/ \E c \in Pick(Crowds) : Crowd(c)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Real == { s \in Sess : s \notin Crowds }
Of(r, seq) == SelectSeq(seq, LAMBDA s : s \notin Crowds /\ sess[s].repo = r)
State == [ sess |-> [s \in Real |-> [repo |-> sess[s].repo, sum |-> sess[s].sum, agent |-> sess[s].agent, cat |-> sess[s].cat, status |-> sess[s].status, seen |-> sess[s].seen, ttl |-> sess[s].ttl]],
           crowds |-> [r \in {"ra", "rb"} |-> LET c == IF r = "ra" THEN "ca" ELSE "cb" IN IF c \in Sess THEN sess[c].n ELSE 0],
           turns |-> { <<k[1], k[2], turns[k].repo, turns[k].v, turns[k].type, turns[k].tier>> : k \in DOMAIN turns },
           \* what a session's history shows: its turns proper, in order
           shown |-> [s \in {"s1", "s2", "s3", "s4"} |-> LET I == { i \in 0..9 : <<s, i>> \in DOMAIN turns /\ turns[<<s, i>>].type = "turn" } IN [j \in 1..Cardinality(I) |-> SetToSortSeq(I, LAMBDA a, b : a < b)[j]]],
           byAge |-> [r \in {"ra", "rb"} |-> Reverse(Of(r, order))],
           byUse |-> [r \in {"ra", "rb"} |-> Reverse(Of(r, recent))],
           open |-> { s \in Real : sess[s].status = "active" },
           found |-> { <<turns[k].repo, k[1], k[2]>> : k \in { k \in DOMAIN turns : turns[k].vec /\ turns[k].type # "summary" } },
           seeds |-> [r \in {"ra", "rb"} |-> SelectSeq(Reverse(Of(r, order)), LAMBDA s : sess[s].vec /\ sess[s].status # "discarded")] ]
Full == [sess |-> sess, order |-> order, recent |-> recent, turns |-> turns]
-----------------------------------------------------------------------------
NoVec == {FALSE}
Both == BOOLEAN
TurnOnly == {<<"merged", "cold">>}
AllKinds == {<<"merged", "cold">>, <<"directive", "hot">>, <<"summary", "archive">>, <<"turn", "warm">>}
-----------------------------------------------------------------------------
\* every listing holds exactly what belongs there
Listed == \A r \in {"ra", "rb"} : Range2(Of(r, order)) = { s \in Real : sess[s].repo = r } /\ Range2(Of(r, recent)) = Range2(Of(r, order))
\* nothing but a deletion that means it takes a turn, and only saving changes one
TurnsStay == [][\A k \in DOMAIN turns :
    /\ k \notin DOMAIN turns' => \/ act'.name \in {"DelSession", "DelTurns"} /\ act'.s = k[1]
                                 \/ act'.name \in {"DelIds"}
                                 \/ act'.name = "DelTurnsRepo" /\ act'.r = turns[k].repo
                                 \/ act'.name = "Forget" /\ k[1] \in Sess /\ sess[k[1]].repo = act'.r
    /\ (k \in DOMAIN turns' /\ turns'[k].v # turns[k].v) => act'.name \in {"SaveTurn", "Compacted"}]_vars
\* pruning never leaves more than the cap, and never takes a younger session while an older one stays
Capped == [][act'.name = "Prune" => \A r \in {"ra", "rb"} : FoldLeft(LAMBDA a, s : a + (IF s \in Crowds THEN sess'[s].n ELSE 1), 0, SelectSeq(order', LAMBDA s : sess'[s].repo = r)) <= CapPerRepo]_vars
=============================================================================
