------------------------------ MODULE TodoRpc -------------------------------
\* The todos.* requests: who may change what, automatic completion, item order, cleanup rails, events (T03).
EXTENDS Common
CONSTANTS ListIds, ItemIds, ComIds, Sessions, Callers, Kinds, ItemSt, Targets, MaxDay, MaxTr, Seeds, Start
VARIABLES L, order, day, act
\* L[id] = [s, par, own, src, st, tr, upd, its, title]; fl = how many filler items; its = the other items in order: [i, st, why, cs]; cs = comments [c, by, body, ack]
vars == <<L, order, day, act>>
Full == [L |-> L, order |-> order, day |-> day]
State == [L |-> L, day |-> day]

Family(x) == x \notin {"user", "nobody", "hacker"}
Who(c) == IF c \in {"user", "system"} \/ Family(c) THEN c ELSE "user"     \* an unknown or absent caller is the read-only user
ListTo == [active |-> {"completed", "archived"}, completed |-> {"active", "archived"}, archived |-> {"active"}]
ItemTo == [pending |-> {"in_progress", "cancelled"}, in_progress |-> {"blocked", "completed", "cancelled", "pending"},
           blocked |-> {"in_progress", "pending", "cancelled"}, completed |-> {}, cancelled |-> {}]
CanL(a, b) == a = b \/ b \in ListTo[a]
CanI(a, b) == a = b \/ b \in ItemTo[a]
Terminal == {"completed", "cancelled"}
Items == UNION {Range2([n \in 1..Len(L[l].its) |-> L[l].its[n].i]) : l \in DOMAIN L}
ListOf(i) == CHOOSE l \in DOMAIN L : \E n \in 1..Len(L[l].its) : L[l].its[n].i = i
Pos(l, i) == IndexOf(L[l].its, LAMBDA x : x.i = i)
Coms == UNION {UNION {Range2([m \in 1..Len(L[l].its[n].cs) |-> L[l].its[n].cs[m].c]) : n \in 1..Len(L[l].its)} : l \in DOMAIN L}
ComAt(c) == CHOOSE p \in UNION {{<<l, n, m>> : n \in 1..Len(L[l].its), m \in 1..3} : l \in DOMAIN L} : p[2] <= Len(L[p[1]].its) /\ p[3] <= Len(L[p[1]].its[p[2]].cs) /\ L[p[1]].its[p[2]].cs[p[3]].c = c
Free(all, used) == IF all \ used = {} THEN {} ELSE {CHOOSE x \in all \ used : TRUE}
RECURSIVE Walk(_, _, _)
Walk(p, child, ses) == IF p = None THEN TRUE ELSE p # child /\ p \in DOMAIN L /\ L[p].s = ses /\ Walk(L[p].par, child, ses)

Ev(k, l, f) == [k |-> k, l |-> l, v |-> f[l]]
Same == UNCHANGED <<L, order, day>>
Refuse(a, why) == Same /\ act' = a @@ [res |-> [r |-> why, ev |-> <<>>]]
Done(a, f, evs) == /\ L' = f /\ UNCHANGED <<order, day>> /\ act' = a @@ [res |-> [r |-> "ok", ev |-> evs]]
\* who may change a list
Guard(l, c) == IF l \notin DOMAIN L THEN "invalid_ids" ELSE IF Who(c) = "system" THEN "system_cannot_write_lists" ELSE IF L[l].own # Who(c) THEN "owner_mismatch" ELSE "ok"
Touch(l, f) == [f EXCEPT ![l].upd = day]

Create(c, own, s, par, seeds, big) ==
  LET a == [name |-> "Create", caller |-> c, own |-> own, s |-> s, par |-> par, seeds |-> seeds, big |-> big]
      o == IF own = None /\ Who(c) # "user" THEN Who(c) ELSE own IN
  IF o = None \/ o # Who(c) THEN Refuse(a, "invalid_owner")
  ELSE IF big THEN Refuse(a, "field_too_large")
  ELSE \E l \in Free(ListIds, DOMAIN L \cup {L[x].par : x \in DOMAIN L}) :
    IF ~Walk(par, l, s) THEN Refuse(a, "invalid_parent")
    ELSE LET new == SetToSeq(ItemIds \ Items) IN
      /\ Len(new) >= seeds
      /\ L' = Put(L, l, [s |-> s, par |-> par, own |-> o, src |-> o, st |-> "active", tr |-> 1, upd |-> day, title |-> "t0", fl |-> 0,
                         its |-> [n \in 1..seeds |-> [i |-> new[n], st |-> "pending", why |-> None, cs |-> <<>>]]])
      /\ order' = Append(order, l) /\ UNCHANGED day
      /\ act' = a @@ [l |-> l, new |-> SubSeq(new, 1, seeds), res |-> [r |-> "ok", ev |-> <<Ev("listCreated", l, L')>>]]
OnList(a, l, c, kind, f(_)) == LET g == Guard(l, c) IN IF g # "ok" THEN Refuse(a, g) ELSE LET n == Touch(l, [L EXCEPT ![l] = f(@)]) IN Done(a, n, <<Ev(kind, l, n)>>)
Title(l, c, t) == OnList([name |-> "Title", l |-> l, caller |-> c, t |-> t], l, c, "listUpdated", LAMBDA x : [x EXCEPT !.title = t])
BigBody(l, c) == LET a == [name |-> "BigBody", l |-> l, caller |-> c] g == Guard(l, c) IN Refuse(a, IF g = "ok" THEN "field_too_large" ELSE g)
Status(l, c, via, st) ==
  LET a == [name |-> "Status", l |-> l, caller |-> c, via |-> via, st |-> st] IN
  IF Guard(l, c) = "ok" /\ ~CanL(L[l].st, st) THEN Refuse(a, "invalid_transition")
  ELSE OnList(a, l, c, IF via = "archive" THEN "listArchived" ELSE "listUpdated", LAMBDA x : [x EXCEPT !.st = st])
Transfer(l, c, to) ==
  LET a == [name |-> "Transfer", l |-> l, caller |-> c, to |-> to] IN
  IF ~Family(to) THEN Refuse(a, "invalid_owner")
  ELSE OnList(a, l, c, "listUpdated", LAMBDA x : [x EXCEPT !.own = to, !.tr = @ + 1])
Reparent(l, c, p) ==
  LET a == [name |-> "Reparent", l |-> l, caller |-> c, par |-> p] IN
  IF Guard(l, c) = "ok" /\ ~Walk(p, l, L[l].s) THEN Refuse(a, "invalid_parent")
  ELSE OnList(a, l, c, "listUpdated", LAMBDA x : [x EXCEPT !.par = p])
PutAfter(s, n, x) == SubSeq(s, 1, n) \o <<x>> \o SubSeq(s, n + 1, Len(s))
AddItem(l, c, after, big) ==
  LET a == [name |-> "AddItem", l |-> l, caller |-> c, after |-> after, big |-> big] g == Guard(l, c) IN
  IF big THEN Refuse(a, "field_too_large")
  ELSE IF g # "ok" THEN Refuse(a, g)
  ELSE IF after # None /\ Pos(l, after) = 0 THEN Refuse(a, "invalid_ids")
  ELSE \E i \in Free(ItemIds, Items) :
    LET n == [L EXCEPT ![l].its = PutAfter(@, IF after = None THEN Len(@) ELSE Pos(l, after), [i |-> i, st |-> "pending", why |-> None, cs |-> <<>>])] IN
    Done(a @@ [i |-> i], n, <<Ev("itemCreated", l, n)>>)
\* many more items put directly behind one item, one after another; they stay pending and are left out of its
Fill(l, after, n) ==
  /\ L[l].fl = 0 /\ L' = [L EXCEPT ![l].fl = n] /\ UNCHANGED <<order, day>>
  /\ act' = [name |-> "Fill", l |-> l, after |-> after, n |-> n, caller |-> L[l].own, res |-> [r |-> "ok", ev |-> <<Ev("itemCreated", l, L')>>]]
AllDone(x) == x.st = "active" /\ x.fl = 0 /\ Len(x.its) > 0 /\ \A n \in 1..Len(x.its) : x.its[n].st \in Terminal
UpdateItem(i, c, st, why) ==
  LET a == [name |-> "UpdateItem", i |-> i, caller |-> c, st |-> st, why |-> why] IN
  IF i \notin Items THEN Refuse(a, "invalid_ids")
  ELSE LET l == ListOf(i) g == Guard(l, c) n == Pos(l, i) old == L[l].its[n] IN
    IF g # "ok" THEN Refuse(a, g)
    ELSE LET w == IF why = None THEN old.why ELSE why s == IF st = None THEN old.st ELSE st IN
      IF (st # None /\ ~CanI(old.st, st)) \/ (st = "blocked" /\ w \in {None, " "}) THEN Refuse(a, "invalid_transition")
      ELSE LET f == [L EXCEPT ![l].its[n].st = s, ![l].its[n].why = w] IN
        IF AllDone(f[l]) THEN LET h == Touch(l, [f EXCEPT ![l].st = "completed"]) IN Done(a, h, <<Ev("itemUpdated", l, f), Ev("listUpdated", l, h)>>)
        ELSE Done(a, f, <<Ev("itemUpdated", l, f)>>)
Reorder(i, c, after) ==
  LET a == [name |-> "Reorder", i |-> i, caller |-> c, after |-> after] IN
  IF i \notin Items THEN Refuse(a, "invalid_ids")
  ELSE LET l == ListOf(i) g == Guard(l, c) x == L[l].its[Pos(l, i)] rest == SelectSeq(L[l].its, LAMBDA y : y.i # i) p == IndexOf(rest, LAMBDA y : y.i = after) IN
    IF g # "ok" THEN Refuse(a, g) ELSE IF after # None /\ p = 0 THEN Refuse(a, "invalid_ids")
    ELSE LET n == [L EXCEPT ![l].its = PutAfter(rest, IF after = None THEN 0 ELSE p, x)] IN Done(a, n, <<Ev("itemUpdated", l, n)>>)
RemoveItem(i, c) ==
  LET a == [name |-> "RemoveItem", i |-> i, caller |-> c] IN
  IF i \notin Items THEN Refuse(a, "invalid_ids")
  ELSE LET l == ListOf(i) g == Guard(l, c) n == [L EXCEPT ![l].its = SelectSeq(@, LAMBDA y : y.i # i)] IN
    IF g # "ok" THEN Refuse(a, g) ELSE Done(a, n, <<Ev("itemRemoved", l, n)>>)
Clear(l, c) ==
  LET a == [name |-> "Clear", l |-> l, caller |-> c] g == Guard(l, c) IN
  IF g # "ok" THEN Refuse(a, g) ELSE LET n == [L EXCEPT ![l].its = SelectSeq(@, LAMBDA y : y.st \notin Terminal)] IN Done(a, n, <<Ev("listUpdated", l, n)>>)
Gone(ls) == L' = Drop(L, ls) /\ order' = SelectSeq(order, LAMBDA x : x \notin ls) /\ UNCHANGED day
DeleteList(l, c) ==
  LET a == [name |-> "DeleteList", l |-> l, caller |-> c] g == IF Who(c) = "system" THEN "system_cannot_write_lists" ELSE Guard(l, c) IN
  IF g # "ok" THEN Refuse(a, g) ELSE Gone({l}) /\ act' = a @@ [res |-> [r |-> "ok", ev |-> <<Ev("listDeleted", l, L)>>]]
\* bulk deletion: a filter is required, never age alone, and only the system may use more than session ids
Cleanup(c, ses, sts, srcs, age, dry) ==
  LET a == [name |-> "Cleanup", caller |-> c, ses |-> ses, sts |-> sts, srcs |-> srcs, age |-> age, dry |-> dry]
      scoped == ses # {} \/ sts # {} \/ srcs # {}
      hit == {l \in DOMAIN L : (ses = {} \/ L[l].s \in ses) /\ (sts = {} \/ L[l].st \in sts) /\ (srcs = {} \/ L[l].src \in srcs) /\ (age = -1 \/ L[l].upd < day - age)}
      hs == SelectSeq(order, LAMBDA l : l \in hit)
      n == FoldLeft(LAMBDA x, l : x + Len(L[l].its) + L[l].fl, 0, hs) IN
  IF ~scoped \/ (Who(c) # "system" /\ (ses = {} \/ sts # {} \/ srcs # {} \/ age # -1)) THEN Refuse(a, "invalid_cleanup_query")
  ELSE /\ IF dry THEN Same ELSE Gone(hit)
       /\ act' = a @@ [res |-> [r |-> "ok", lists |-> Len(hs), items |-> n, dry |-> dry, ev |-> IF dry THEN <<>> ELSE [x \in 1..Len(hs) |-> Ev("listDeleted", hs[x], L)]]]
Retention == \* the daily sweep drops lists archived and untouched for more than 90 days (2 time units)
  LET hit == {l \in DOMAIN L : L[l].st = "archived" /\ L[l].upd < day - 2} hs == SelectSeq(order, LAMBDA l : l \in hit) IN
  Gone(hit) /\ act' = [name |-> "Retention", res |-> [r |-> "ok", ev |-> [x \in 1..Len(hs) |-> Ev("listDeleted", hs[x], L)]]]
Tick == day < MaxDay /\ day' = day + 1 /\ UNCHANGED <<L, order>> /\ act' = [name |-> "Tick", res |-> [r |-> "ok", ev |-> <<>>]]
Comment(i, c, big) ==
  LET a == [name |-> "Comment", i |-> i, caller |-> c, big |-> big] IN
  IF big THEN Refuse(a, "field_too_large")
  ELSE IF i \notin Items THEN Refuse(a, "invalid_ids")
  ELSE \E k \in Free(ComIds, Coms) : LET l == ListOf(i) n == [L EXCEPT ![l].its[Pos(l, i)].cs = Append(@, [c |-> k, by |-> Who(c), body |-> "b0", ack |-> FALSE])] IN
    Done(a @@ [c |-> k], n, <<Ev("commentAdded", l, n)>>)
OnComment(a, k, c, own, f(_), kind) ==
  IF k \notin Coms THEN Refuse(a, "invalid_ids")
  ELSE LET p == ComAt(k) n == [L EXCEPT ![p[1]].its[p[2]].cs = f(p[3])] IN
    IF own /\ (Who(c) \in {"user", "system"} \/ L[p[1]].own # Who(c)) THEN Refuse(a, "comment_ack_not_owner")
    ELSE IF ~own /\ L[p[1]].its[p[2]].cs[p[3]].by # Who(c) THEN Refuse(a, "comment_author_mismatch")
    ELSE Done(a, n, <<Ev(kind, p[1], n)>>)
CsOf(k) == LET p == ComAt(k) IN L[p[1]].its[p[2]].cs
Edit(k, c, b) == OnComment([name |-> "Edit", c |-> k, caller |-> c, body |-> b], k, c, FALSE, LAMBDA m : [CsOf(k) EXCEPT ![m].body = b], "commentUpdated")
Uncomment(k, c) == OnComment([name |-> "Uncomment", c |-> k, caller |-> c], k, c, FALSE, LAMBDA m : RemoveIdx(CsOf(k), m), "commentRemoved")
Ack(k, c) == OnComment([name |-> "Ack", c |-> k, caller |-> c], k, c, TRUE, LAMBDA m : [CsOf(k) EXCEPT ![m].ack = TRUE], "commentUpdated")
\* agents never see the user's own lists; archived ones only on request; roots first
See(c, s, arch) ==
  LET ids == SelectSeq(order, LAMBDA l : L[l].s = s /\ (arch \/ L[l].st # "archived") /\ (Who(c) \in {"user", "system"} \/ L[l].own # "user")) IN
  Same /\ act' = [name |-> "See", caller |-> c, s |-> s, arch |-> arch, res |-> [r |-> "ok", ev |-> <<>>,
     ids |-> SelectSeq(ids, LAMBDA l : L[l].par = None) \o SelectSeq(ids, LAMBDA l : L[l].par # None)]]

Ls == DOMAIN L \cup {"ghost"}
Do(k) ==
  CASE k = "Create" -> \E c \in Pick(Callers), o \in Pick(Callers \cup {None}), s \in Pick(Sessions), p \in Pick(Ls \cup {None}), n \in Pick({n \in Seeds : n <= Cardinality(ItemIds \ Items)}), b \in Pick({FALSE, FALSE, TRUE}) : Create(c, o, s, p, n, b)
    [] k = "Title" -> \E c \in Pick(Callers), l \in Pick(Ls), t \in Pick({"t1", "t2"}) : Title(l, c, t)
    [] k = "BigBody" -> \E c \in Pick(Callers), l \in Pick(Ls) : BigBody(l, c)
    [] k = "Status" -> \E c \in Pick(Callers), l \in Pick(Ls) : \E v \in Pick({<<"archive", "archived">>, <<"unarchive", "active">>, <<"update", "completed">>, <<"update", "archived">>, <<"update", "bogus">>}) : Status(l, c, v[1], v[2])
    [] k = "Transfer" -> \E c \in Pick(Callers), l \in Pick({x \in Ls : x = "ghost" \/ L[x].tr < MaxTr}), t \in Pick(Targets) : Transfer(l, c, t)
    [] k = "Reparent" -> \E c \in Pick(Callers), l \in Pick(Ls), p \in Pick(Ls \cup {None}) : Reparent(l, c, p)
    [] k = "AddItem" -> \E c \in Pick(Callers), l \in Pick(Ls), a \in Pick(Items \cup {None, "ghost"}), b \in Pick({FALSE, TRUE}) : AddItem(l, c, a, b)
    [] k = "UpdateItem" -> \E c \in Pick(Callers), i \in Pick(Items \cup {"ghost"}), s \in Pick(ItemSt), w \in Pick({None, " ", "r"}) : UpdateItem(i, c, s, w)
    [] k = "Reorder" -> \E c \in Pick(Callers), i \in Pick(Items \cup {"ghost"}), a \in Pick(Items \cup {None, "ghost"}) : Reorder(i, c, a)
    [] k = "Remove" -> \E c \in Pick(Callers), i \in Pick(Items \cup {"ghost"}) : RemoveItem(i, c)
    [] k = "Clear" -> \E c \in Pick(Callers), l \in Pick(Ls) : Clear(l, c)
    [] k = "DeleteList" -> \E c \in Pick(Callers), l \in Pick(Ls) : DeleteList(l, c)
    [] k = "Cleanup" -> \E c \in Pick(Callers), s \in Pick({{}, Sessions} \cup {{x} : x \in Sessions}), t \in Pick({{}, {"archived"}, {"active", "completed"}}), r \in Pick({{}, {"planner"}}), g \in Pick({-1, 1}), d \in Pick(BOOLEAN) : Cleanup(c, s, t, r, g, d)
    [] k = "Retention" -> Retention
    [] k = "Tick" -> Tick
    [] k = "Comment" -> \E c \in Pick(Callers), i \in Pick(Items \cup {"ghost"}), b \in Pick(BOOLEAN) : Comment(i, c, b)
    [] k = "Edit" -> \E c \in Pick(Callers), x \in Pick(Coms \cup {"ghost"}) : Edit(x, c, "b1")
    [] k = "Uncomment" -> \E c \in Pick(Callers), x \in Pick(Coms \cup {"ghost"}) : Uncomment(x, c)
    [] k = "Ack" -> \E c \in Pick(Callers), x \in Pick(Coms \cup {"ghost"}) : Ack(x, c)
    [] k = "Fill" -> \E l \in Pick({x \in DOMAIN L : L[x].fl = 0 /\ L[x].own \notin {"user", "system"} /\ Len(L[x].its) > 0}) : \E n \in Pick(1..Len(L[l].its)) : Fill(l, L[l].its[n].i, 60)
    [] k = "See" -> \E c \in Pick(Callers), s \in Pick(Sessions), b \in Pick(BOOLEAN) : See(c, s, b)
\* in random behaviours only kinds that can move at all
Can(k) == CASE k \in {"Create"} -> ListIds \ (DOMAIN L \cup {L[x].par : x \in DOMAIN L}) # {} /\ \E n \in Seeds : n <= Cardinality(ItemIds \ Items)
            [] k = "AddItem" -> ItemIds \ Items # {} [] k = "Comment" -> ComIds \ Coms # {} [] k = "Tick" -> day < MaxDay [] k = "Fill" -> \E l \in DOMAIN L : L[l].fl = 0 /\ L[l].own \notin {"user", "system"} /\ Len(L[l].its) > 0 [] OTHER -> TRUE
Own1 == CHOOSE o \in Callers : o # "system" /\ Who(o) = o
Blank(l, o, its) == [s |-> CHOOSE s \in Sessions : TRUE, par |-> None, own |-> o, src |-> o, st |-> "active", tr |-> 1, upd |-> 0, title |-> "t0", fl |-> 0, its |-> its]
Init == /\ L = CASE Start = "empty" -> EmptyFn
                 [] Start = "list" -> [l \in ListIds |-> Blank(l, Own1, <<>>)]
                 [] Start = "items" -> [l \in {CHOOSE l \in ListIds : TRUE} |-> Blank(l, Own1, [n \in 1..Cardinality(ItemIds) |-> [i |-> SetToSeq(ItemIds)[n], st |-> "pending", why |-> None, cs |-> <<>>]])]
        /\ order = SetToSeq(DOMAIN L) /\ day = 0 /\ act = [name |-> "Init"]
Next == \E k \in Pick({k \in Kinds : Can(k)}) : Do(k)
Spec == Init /\ [][Next]_vars
\* ------------------------------------------------------------- properties
\* nobody but the owner changes a list; the system only removes; comments are the exception
Bare(x) == [x EXCEPT !.its = [n \in 1..Len(x.its) |-> [x.its[n] EXCEPT !.cs = <<>>]]]
OnlyOwner == [][act'.name \in {"Tick", "Retention", "Cleanup"} \/ \A l \in DOMAIN L :
    (IF l \notin DOMAIN L' THEN TRUE ELSE Bare(L'[l]) # Bare(L[l])) => Who(act'.caller) = L[l].own /\ Who(act'.caller) # "system"]_vars
RefusedChangesNothing == [][(act'.res.r # "ok") => UNCHANGED <<L, order>> /\ act'.res.ev = <<>>]_vars
EveryChangeAnnounced == [][\A l \in DOMAIN L \cup DOMAIN L' : (l \in DOMAIN L /\ l \in DOMAIN L' /\ L[l] = L'[l]) \/
    \E n \in 1..Len(act'.res.ev) : act'.res.ev[n].l = l]_vars
LastEventIsCurrent == [][\A l \in DOMAIN L' : \A n \in 1..Len(act'.res.ev) : (act'.res.ev[n].l = l /\ \A m \in (n+1)..Len(act'.res.ev) : act'.res.ev[m].l # l) => act'.res.ev[n].v = L'[l]]_vars
SourceNeverChanges == [][\A l \in DOMAIN L \cap DOMAIN L' : L'[l].src = L[l].src /\ L'[l].s = L[l].s /\ L'[l].tr >= L[l].tr]_vars
RECURSIVE Above(_, _)
Above(l, n) == IF n = 0 \/ l \notin DOMAIN L \/ L[l].par = None THEN {} ELSE {L[l].par} \cup Above(L[l].par, n - 1)
Forest == \A l \in DOMAIN L : l \notin Above(l, Cardinality(ListIds))
=============================================================================
