------------------------------ MODULE ChatPool ------------------------------
\* The daemon's chat sessions (D04): which are alive, which idle cleanup may close, which can be
\* brought back from the store, and that each closes exactly once, also when requests race.
EXTENDS Common
CONSTANTS Ids,      \* session ids in the order in which they are given out
          Repos, Acts
VARIABLES pool,     \* live sessions, least recently used first: [id, age] (age in ticks of just under the limit)
          rows,     \* stored session rows: repository by id
          born,     \* how many ids were given out
          closed,   \* how often each session was closed during the last step
          act
vars == <<pool, rows, born, closed, act>>
On(a) == a \in Acts
Init == pool = <<>> /\ rows = EmptyFn /\ born = 0 /\ closed = EmptyFn /\ act = [name |-> "Init"]
Live(p) == { p[i].id : i \in 1..Len(p) }
Out(p, S) == SelectSeq(p, LAMBDA s : s.id \notin S)
At(p, i) == p[CHOOSE k \in 1..Len(p) : p[k].id = i]
Push(p, i, r) == Append(Out(p, {i}), [id |-> i, repo |-> r, age |-> 0])
\* older than the limit, except the most recently used one
Idle(p) == { p[k].id : k \in { k \in 1..Len(p) : k < Len(p) /\ p[k].age >= 2 } }
Given == { Ids[k] : k \in 1..born }
Once(S) == [i \in S |-> 1]
\* every request as a function of the pool: what it answers, the pool after, the sessions it closes
Info(p, i) == IF i \in Live(p) THEN [repo |-> At(p, i).repo, age |-> At(p, i).age] ELSE None
Do(o, i, p) ==
  CASE o = "get" -> [r |-> i \in Live(p), p |-> IF i \in Live(p) THEN Push(p, i, At(p, i).repo) ELSE p, c |-> {}]
    [] o = "status" -> [r |-> TRUE, p |-> p, c |-> {}]
    [] o = "close" -> [r |-> i \in Live(p), p |-> Out(p, {i}), c |-> {i} \cap Live(p)]
    [] o = "restore" -> [r |-> i \in Live(p) \/ i \in DOMAIN rows, p |-> IF i \in Live(p) \/ i \notin DOMAIN rows THEN p ELSE Push(p, i, rows[i]), c |-> {}]
    [] o = "cleanup" -> [r |-> TRUE, p |-> Out(p, Idle(p)), c |-> Idle(p)]
    [] o = "dispose" -> [r |-> TRUE, p |-> <<>>, c |-> Live(p)]
Create(r) == On("Create") /\ born < Len(Ids)
  /\ LET i == Ids[born + 1] IN pool' = Push(pool, i, r) /\ rows' = Put(rows, i, r)
  /\ born' = born + 1 /\ closed' = EmptyFn /\ act' = [name |-> "Create", repo |-> r, res |-> Ids[born + 1]]
One(o, i) == LET d == Do(o, i, pool) IN pool' = d.p /\ closed' = Once(d.c) /\ UNCHANGED <<rows, born>> /\ act' = [name |-> "One", op |-> o, i |-> i, res |-> d.r]
Status(i) == On("Status") /\ closed' = EmptyFn /\ UNCHANGED <<pool, rows, born>> /\ act' = [name |-> "Status", i |-> i, res |-> Info(pool, i)]
\* two requests at the same time behave as if one had come after the other
Pair(a, i, b, j) == On("Pair") /\ (\E x \in {TRUE, FALSE} :
     LET d == IF x THEN Do(a, i, pool) ELSE Do(b, j, pool)
         e == IF x THEN Do(b, j, d.p) ELSE Do(a, i, d.p)
     IN pool' = e.p /\ closed' = [k \in d.c \cup e.c |-> (IF k \in d.c THEN 1 ELSE 0) + (IF k \in e.c THEN 1 ELSE 0)]
        /\ act' = [name |-> "Pair", a |-> a, i |-> i, b |-> b, j |-> j, res |-> IF x THEN <<d.r, e.r>> ELSE <<e.r, d.r>>])
  /\ UNCHANGED <<rows, born>>
\* purging a session: its row goes, and it leaves the pool without being closed
Purge(i) == On("Purge") /\ rows' = Drop(rows, {i}) /\ pool' = Out(pool, {i}) /\ closed' = EmptyFn /\ UNCHANGED born /\ act' = [name |-> "Purge", i |-> i, res |-> "ok"]
DropIt(i) == On("Purge") /\ pool' = Out(pool, {i}) /\ closed' = EmptyFn /\ UNCHANGED <<rows, born>> /\ act' = [name |-> "Drop", i |-> i, res |-> "ok"]
Tick == On("Tick") /\ Len(pool) > 0 /\ (\E k \in 1..Len(pool) : pool[k].age < 2) /\ pool' = [k \in 1..Len(pool) |-> [pool[k] EXCEPT !.age = IF @ < 2 THEN @ + 1 ELSE 2]]
  /\ closed' = EmptyFn /\ UNCHANGED <<rows, born>> /\ act' = [name |-> "Tick", res |-> "ok"]
\* the daemon stops (every live session is closed) and a new one starts with the same store
Restart == On("Restart") /\ pool' = <<>> /\ closed' = Once(Live(pool)) /\ UNCHANGED <<rows, born>> /\ act' = [name |-> "Restart", res |-> "ok"]
Races == {<<"close", "close">>, <<"close", "restore">>, <<"close", "get">>, <<"cleanup", "close">>, <<"cleanup", "get">>, <<"restore", "restore">>, <<"dispose", "close">>}
Next == \/ \E r \in Pick(Repos) : Create(r)
        \/ \E i \in Pick(Given) : Status(i) \/ Purge(i) \/ DropIt(i) \/ \E o \in Pick({"get", "close", "restore"}) : One(o, i)
        \/ (On("Tick") /\ One("cleanup", None))
        \/ \E q \in Pick(Races), i, j \in Pick(Given) : Pair(q[1], i, q[2], j)
        \/ Tick \/ Restart
Spec == Init /\ [][Next]_vars
State == [live |-> [i \in Live(pool) |-> [repo |-> At(pool, i).repo, age |-> At(pool, i).age]], rows |-> rows, closed |-> closed]
Full == [pool |-> pool, rows |-> rows, born |-> born, closed |-> closed]
-----------------------------------------------------------------------------
TwoIds == <<"s1", "s2">>
ThreeIds == <<"s1", "s2", "s3">>
FourIds == <<"s1", "s2", "s3", "s4">>
-----------------------------------------------------------------------------
NoTwice == \A i \in DOMAIN closed : closed[i] = 1
\* a session leaves the pool only by a request naming it, by stopping, or by cleanup when idle; cleanup spares the last used
Leaves == [][\A i \in Live(pool) \ Live(pool)' : \/ act'.name \in {"Restart", "Purge", "Drop", "Pair"}
                                                \/ (act'.name = "One" /\ (act'.i = i \/ (act'.op = "cleanup" /\ At(pool, i).age >= 2 /\ i # Last(pool).id)))]_vars
ClosedLeft == [][act'.name \in {"One", "Restart"} => DOMAIN closed' = Live(pool) \ Live(pool)']_vars
OwnRepo == \A i \in Live(pool) : i \in DOMAIN rows => At(pool, i).repo = rows[i]
=============================================================================
