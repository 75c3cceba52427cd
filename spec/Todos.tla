------------------------------- MODULE Todos --------------------------------
\* Session-scoped todo lists: a forest of lists, their items and the items' comments (T01),
\* and what two operations issued at the same time may do to them (T02).
EXTENDS Common
CONSTANTS ListIds, ItemIds, ComIds, Sessions, Owners, Ords, Kinds, ItemSt, Reasons, MaxTr, Conc, Start
VARIABLES L, order, I, C, act
\* L[id] = [s, par, st, own, src, tr, title]; order = lists in creation order
\* I[id] = [l, st, ord, why, done]; C = sequence of comments in creation order
vars == <<L, order, I, C, act>>
S0 == [L |-> L, order |-> order, I |-> I, C |-> C]

ListTo == [active |-> {"completed", "archived"}, completed |-> {"active", "archived"}, archived |-> {"active"}]
ItemTo == [pending |-> {"in_progress", "cancelled"}, in_progress |-> {"blocked", "completed", "cancelled", "pending"},
           blocked |-> {"in_progress", "pending", "cancelled"}, completed |-> {}, cancelled |-> {}]
CanL(a, b) == a = b \/ b \in ListTo[a]
CanI(a, b) == a = b \/ (a \in DOMAIN ItemTo /\ b \in ItemTo[a])
Blank(r) == r \in {None, "", " "}

\* walking up from a proposed parent: "ok" or why it is refused
RECURSIVE Walk(_, _, _, _)
Walk(s, p, child, ses) ==
  IF p = None THEN "ok" ELSE IF p = child THEN "cycle"
  ELSE IF p \notin DOMAIN s.L THEN "missing" ELSE IF s.L[p].s # ses THEN "session" ELSE Walk(s, s.L[p].par, child, ses)

DropItems(s, its) == [s EXCEPT !.I = Drop(s.I, its), !.C = SelectSeq(s.C, LAMBDA c : c.i \notin its)]
DropList(s, l) == LET t == DropItems(s, {i \in DOMAIN s.I : s.I[i].l = l}) IN
  [t EXCEPT !.L = Drop(t.L, {l}), !.order = SelectSeq(t.order, LAMBDA x : x # l)]
RECURSIVE DropLists(_, _)
DropLists(s, ls) == IF ls = {} THEN s ELSE LET l == CHOOSE l \in ls : TRUE IN DropLists(DropList(s, l), ls \ {l})
OK(s) == [s |-> s, r |-> "ok"]
No(s, why) == [s |-> s, r |-> why]

Apply(s, o) ==
  CASE o.k = "newList" ->
        LET w == Walk(s, o.par, o.l, o.s) IN IF w # "ok" THEN No(s, w) ELSE
        OK([s EXCEPT !.L = Put(s.L, o.l, [s |-> o.s, par |-> o.par, st |-> "active", own |-> o.own, src |-> o.src, tr |-> <<<<o.src, o.own, o.src>>>>, title |-> "t0"]), !.order = Append(s.order, o.l)])
    [] o.k = "newItem" -> IF o.l \notin DOMAIN s.L THEN No(s, "missing")
        ELSE OK([s EXCEPT !.I = Put(s.I, o.i, [l |-> o.l, st |-> "pending", ord |-> o.ord, why |-> None, done |-> FALSE])])
    [] o.k = "listStatus" -> IF o.l \notin DOMAIN s.L THEN No(s, "missing") ELSE IF ~CanL(s.L[o.l].st, o.st) THEN No(s, "transition")
        ELSE OK([s EXCEPT !.L[o.l].st = o.st])
    [] o.k = "listTitle" -> IF o.l \notin DOMAIN s.L THEN No(s, "missing") ELSE OK([s EXCEPT !.L[o.l].title = o.title])
    [] o.k = "item" -> IF o.i \notin DOMAIN s.I THEN No(s, "missing")
        ELSE LET c == s.I[o.i] st == IF o.st = None THEN c.st ELSE o.st why == IF o.why = None THEN c.why ELSE o.why IN
             IF o.st # None /\ ~CanI(c.st, o.st) THEN No(s, "transition")
             ELSE IF o.st = "blocked" /\ Blank(why) THEN No(s, "reason")
             ELSE OK([s EXCEPT !.I[o.i] = [c EXCEPT !.st = st, !.why = IF why = "" THEN None ELSE why, !.done = @ \/ o.st = "completed"]])
    [] o.k = "itemOrder" -> IF o.i \notin DOMAIN s.I THEN No(s, "missing") ELSE OK([s EXCEPT !.I[o.i].ord = o.ord])
    [] o.k = "transfer" -> IF o.l \notin DOMAIN s.L THEN No(s, "missing")
        ELSE OK([s EXCEPT !.L[o.l].own = o.to, !.L[o.l].tr = Append(@, <<s.L[o.l].own, o.to, IF o.ini = None THEN s.L[o.l].own ELSE o.ini>>)])
    [] o.k = "reparent" -> IF o.l \notin DOMAIN s.L THEN No(s, "missing")
        ELSE LET w == Walk(s, o.par, o.l, s.L[o.l].s) IN IF w # "ok" THEN No(s, w) ELSE OK([s EXCEPT !.L[o.l].par = o.par])
    [] o.k = "comment" -> OK([s EXCEPT !.C = Append(s.C, [c |-> o.c, i |-> o.i, by |-> o.by, body |-> "b0", edited |-> FALSE, ack |-> FALSE])])
    [] o.k = "editComment" -> LET n == IndexOf(s.C, LAMBDA c : c.c = o.c) IN IF n = 0 THEN No(s, "missing") ELSE OK([s EXCEPT !.C[n].body = o.body, !.C[n].edited = TRUE])
    [] o.k = "ack" -> LET n == IndexOf(s.C, LAMBDA c : c.c = o.c) IN IF n = 0 THEN No(s, "missing") ELSE OK([s EXCEPT !.C[n].ack = TRUE])
    [] o.k = "delComment" -> OK([s EXCEPT !.C = SelectSeq(s.C, LAMBDA c : c.c # o.c)])
    [] o.k = "delItem" -> OK(DropItems(s, {o.i}))
    [] o.k = "delList" -> OK(DropList(s, o.l))
    [] o.k = "delSession" -> OK(DropLists(s, {l \in DOMAIN s.L : s.L[l].s = o.s}))

\* ------------------------------------------------------------- what a client sees
Visible(x, s, arch) == LET ids == SelectSeq(x.order, LAMBDA l : x.L[l].s = s /\ (arch \/ x.L[l].st # "archived")) IN
  SelectSeq(ids, LAMBDA l : x.L[l].par = None) \o SelectSeq(ids, LAMBDA l : x.L[l].par # None)
StateOf(x) == [L |-> x.L, I |-> x.I, C |-> x.C, shown |-> [s \in Sessions |-> Visible(x, s, FALSE)], all |-> [s \in Sessions |-> Visible(x, s, TRUE)]]

Free(all, used) == IF all \ used = {} THEN {} ELSE {CHOOSE x \in all \ used : TRUE}
UsedC == {C[n].c : n \in 1..Len(C)}
OpsOf(k) ==
  CASE k = "newList" -> {[k |-> k, l |-> l, s |-> s, par |-> p, own |-> o, src |-> r] : l \in Free(ListIds, DOMAIN L \cup {L[x].par : x \in DOMAIN L}), s \in Sessions, p \in DOMAIN L \cup {None, "ghost"}, o \in Owners, r \in Owners}
    [] k = "newItem" -> {[k |-> k, i |-> i, l |-> l, ord |-> n] : i \in Free(ItemIds, DOMAIN I), l \in DOMAIN L \cup {"ghost"}, n \in Ords}
    [] k = "listStatus" -> {[k |-> k, l |-> l, st |-> s] : l \in DOMAIN L \cup {"ghost"}, s \in {"active", "completed", "archived", "gone"}}
    [] k = "listTitle" -> {[k |-> k, l |-> l, title |-> s] : l \in DOMAIN L, s \in {"t1", "t2"}}
    [] k = "item" -> {[k |-> k, i |-> i, st |-> s, why |-> w] : i \in DOMAIN I \cup {"ghost"}, s \in ItemSt, w \in Reasons}
    [] k = "itemOrder" -> {[k |-> k, i |-> i, ord |-> n] : i \in DOMAIN I, n \in Ords}
    [] k = "transfer" -> {[k |-> k, l |-> l, to |-> t, ini |-> n] : l \in {x \in DOMAIN L : Len(L[x].tr) < MaxTr}, t \in Owners, n \in Owners \cup {None}}
    [] k = "reparent" -> {[k |-> k, l |-> l, par |-> p] : l \in DOMAIN L \cup {"ghost"}, p \in DOMAIN L \cup {None, "ghost"}}
    [] k = "comment" -> {[k |-> k, c |-> c, i |-> i, by |-> b] : c \in Free(ComIds, UsedC), i \in DOMAIN I, b \in Owners}
    [] k = "editComment" -> {[k |-> k, c |-> c, body |-> b] : c \in UsedC \cup {"ghost"}, b \in {"b1", "b2"}}
    [] k = "ack" -> {[k |-> k, c |-> c] : c \in UsedC \cup {"ghost"}}
    [] k = "delComment" -> {[k |-> k, c |-> c] : c \in UsedC \cup {"ghost"}}
    [] k = "delItem" -> {[k |-> k, i |-> i] : i \in DOMAIN I \cup {"ghost"}}
    [] k = "delList" -> {[k |-> k, l |-> l] : l \in DOMAIN L \cup {"ghost"}}
    [] k = "delSession" -> {[k |-> k, s |-> s] : s \in Sessions}
Become(s) == L' = s.L /\ order' = s.order /\ I' = s.I /\ C' = s.C

Op(k) == \E o \in Pick(OpsOf(k)) : LET x == Apply(S0, o) IN Become(x.s) /\ act' = [name |-> "Op", op |-> o, res |-> <<x.r>>]
\* two operations in flight together: some serial order explains both answers and the outcome
Coarse(r) == IF r = "ok" THEN "ok" ELSE "refused"
Pair(o1, o2, first) == LET x == Apply(S0, IF first = 1 THEN o1 ELSE o2) y == Apply(x.s, IF first = 1 THEN o2 ELSE o1) IN
  [s |-> y.s, res |-> IF first = 1 THEN <<Coarse(x.r), Coarse(y.r)>> ELSE <<Coarse(y.r), Coarse(x.r)>>]
Both(k1, k2) == \E o1 \in Pick(OpsOf(k1)), o2 \in Pick(OpsOf(k2)) : \E first \in Pick({1, 2}) :
  LET p == Pair(o1, o2, first) q == Pair(o1, o2, 3 - first) IN
  /\ Become(p.s)
  /\ act' = [name |-> "Both", o1 |-> o1, o2 |-> o2, res |-> p.res] @@ (IF TLCGet("config").mode = "simulate" THEN [alts |-> <<[res |-> q.res, s |-> StateOf(q.s)]>>] ELSE EmptyFn)
\* creating with the same fresh id twice, or commenting on something that vanishes meanwhile, is not specified
Pairs == {p \in Kinds \X Kinds : ~(p[1] \in {"newList", "newItem", "comment"} /\ p[2] \in {"newList", "newItem", "comment"})
           /\ {"comment", "delSession"} \cap {p[1], p[2]} = {}}  \* clearing a session is a sweep over its lists, one by one

Seed == CASE Start = "empty" -> [L |-> EmptyFn, order |-> <<>>, I |-> EmptyFn, C |-> <<>>]
  [] Start = "lists" -> [L |-> [l \in ListIds |-> [s |-> CHOOSE s \in Sessions : TRUE, par |-> None, st |-> "active", own |-> CHOOSE o \in Owners : TRUE, src |-> CHOOSE o \in Owners : TRUE,
                                   tr |-> <<<<CHOOSE o \in Owners : TRUE, CHOOSE o \in Owners : TRUE, CHOOSE o \in Owners : TRUE>>>>, title |-> "t0"]],
                         order |-> SetToSeq(ListIds), I |-> EmptyFn, C |-> <<>>]
  [] Start = "items" -> LET l0 == CHOOSE l \in ListIds : TRUE IN [L |-> [l \in {l0} |-> [s |-> CHOOSE s \in Sessions : TRUE, par |-> None, st |-> "active", own |-> CHOOSE o \in Owners : TRUE, src |-> CHOOSE o \in Owners : TRUE,
                                   tr |-> <<<<CHOOSE o \in Owners : TRUE, CHOOSE o \in Owners : TRUE, CHOOSE o \in Owners : TRUE>>>>, title |-> "t0"]],
                         order |-> <<l0>>, I |-> [i \in ItemIds |-> [l |-> l0, st |-> "pending", ord |-> CHOOSE n \in Ords : TRUE, why |-> None, done |-> FALSE]], C |-> <<>>]
Init == L = Seed.L /\ order = Seed.order /\ I = Seed.I /\ C = Seed.C /\ act = [name |-> "Init"]
Live(k) == OpsOf(k) # {}
Next == IF Conc THEN \E p \in Pick({p \in Pairs : Live(p[1]) /\ Live(p[2])}) : Both(p[1], p[2]) ELSE \E k \in Pick({k \in Kinds : Live(k)}) : Op(k)
Spec == Init /\ [][Next]_vars

State == StateOf(S0)
Full == [L |-> L, order |-> order, I |-> I, C |-> C]
\* ------------------------------------------------------------- properties
RECURSIVE Above(_, _)
Above(l, n) == IF n = 0 \/ l \notin DOMAIN L \/ L[l].par = None THEN {} ELSE {L[l].par} \cup Above(L[l].par, n - 1)
Forest == \A l \in DOMAIN L : l \notin Above(l, Cardinality(ListIds))
SameSession == \A l \in DOMAIN L : L[l].par \in DOMAIN L => L[L[l].par].s = L[l].s
Owned == \A l \in DOMAIN L : L[l].own = L[l].tr[Len(L[l].tr)][2]
Chained == \A l \in DOMAIN L : \A n \in 2..Len(L[l].tr) : L[l].tr[n][1] = L[l].tr[n-1][2]
NoOrphans == (\A i \in DOMAIN I : I[i].l \in DOMAIN L) /\ (\A n \in 1..Len(C) : C[n].i \in DOMAIN I)
DoneMatches == \A i \in DOMAIN I : I[i].done <=> I[i].st = "completed"
BlockedHasReason == \A i \in DOMAIN I : I[i].st = "blocked" => I[i].why # None
TransfersGrow == [][\A l \in DOMAIN L \cap DOMAIN L' : Len(L'[l].tr) >= Len(L[l].tr) /\ SubSeq(L'[l].tr, 1, Len(L[l].tr)) = L[l].tr]_vars
TerminalStays == [][\A i \in DOMAIN I \cap DOMAIN I' : I[i].st \in {"completed", "cancelled"} => I'[i].st = I[i].st]_vars
=============================================================================
