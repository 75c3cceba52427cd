----------------------------- MODULE Compaction -----------------------------
\* Compaction of conversation history (src/db/compaction.ts, src/db/directives.ts) (S02).
\* A turn is a cell (session and index). What it says is the set of cells whose text it carries; vectors
\* are pairs of small integers, so that similarity is exact; time of creation is an age in days and a rank.
EXTENDS Common
CONSTANTS Fills,     \* sequences of cells filled at the start
          Ages, Ds, Assts, VecsC,
          MaxTs, MaxDs,     \* the caps compaction is run with
          Scopes,           \* the repositories it is run for ("all": every one)
          Acts, MaxTick
VARIABLES turns, ticks, act
vars == <<turns, ticks, act>>
On(a) == a \in Acts
Order == <<"s1.0", "s1.1", "s1.2", "s2.0", "s2.1", "s3.0">>
SesOf(c) == CASE c \in {"s1.0", "s1.1", "s1.2"} -> "s1" [] c \in {"s2.0", "s2.1"} -> "s2" [] OTHER -> "s3"
IdxOf(c) == CASE c \in {"s1.0", "s2.0", "s3.0"} -> 0 [] c \in {"s1.1", "s2.1"} -> 1 [] OTHER -> 2
Repos == {"ra", "rb"}
Cells == DOMAIN turns
Max2(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Min2(a, b) == IF a < b THEN a ELSE b
\* ---- vectors
NoV == <<0, 0>>
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Direction(v) == IF v = NoV THEN v ELSE <<v[1] \div Gcd(v[1], v[2]), v[2] \div Gcd(v[1], v[2])>>
Sim(a, b, n) == LET dot == a[1] * b[1] + a[2] * b[2] IN
  /\ a # NoV /\ b # NoV
  /\ dot * dot * 10000 > n * (a[1] * a[1] + a[2] * a[2]) * (b[1] * b[1] + b[2] * b[2])
Alike(a, b) == Sim(turns[a].vec, turns[b].vec, 7225)      \* 0.85
Same(a, b) == Sim(turns[a].vec, turns[b].vec, 8464)       \* 0.92
Centre(S) == Direction(FoldLeft(LAMBDA v, c : <<v[1] + turns[c].vec[1], v[2] + turns[c].vec[2]>>, NoV, SetToSeq(S)))
\* ---- what one run does to one repository
Mine(r) == { c \in Cells : turns[c].repo = r }
Raw(r) == { c \in Mine(r) : turns[c].type = "turn" }
Dirs(r) == { c \in Raw(r) : turns[c].d }
Plain(r) == { c \in Raw(r) : ~turns[c].d }
Warm(r) == { c \in Plain(r) : turns[c].age > 7 /\ turns[c].age < 30 /\ turns[c].tier = "hot" }
Cold(r) == { c \in Plain(r) : turns[c].age > 30 /\ turns[c].age < 90 }
Old(r) == { c \in Plain(r) : turns[c].age > 90 }
RECURSIVE Grow(_, _)
Grow(S, T) == LET U == T \cup { x \in S : \E y \in T : Alike(x, y) } IN IF U = T THEN T ELSE Grow(S, U)
Clusters(r) == { C \in { Grow(Cold(r), {c}) : c \in Cold(r) } : Cardinality(C) > 1 }
Latest(C) == CHOOSE c \in C : \A x \in C : turns[x].ord <= turns[c].ord
Lowest(C) == CHOOSE c \in C : \A x \in C : IdxOf(c) <= IdxOf(x)
Saying(S) == UNION { turns[c].words : c \in S }
Cut(a) == IF a = "long" THEN "cut" ELSE a
Sessions(r) == { { c \in Old(r) : SesOf(c) = s } : s \in { SesOf(c) : c \in Old(r) } }
New(r, type, tier, words, asst, vec) == [repo |-> r, type |-> type, tier |-> tier, d |-> FALSE, words |-> words, asst |-> asst, age |-> 0, ord |-> 99, vec |-> vec]
NewDirs(r) == [c \in Dirs(r) |-> New(r, "directive", "hot", turns[c].words, "none", turns[c].vec)]
NewWarm(r) == [c \in Warm(r) |-> New(r, "turn", "warm", turns[c].words, Cut(turns[c].asst), turns[c].vec)]
Merged(r) == [c \in { Latest(C) : C \in Clusters(r) } |-> LET C == CHOOSE D \in Clusters(r) : c \in D IN
   New(r, "merged", "cold", Saying(C), IF \E x \in C : turns[x].asst # "short" THEN "cut" ELSE "short", Centre(C))]
Collapsed(r) == [c \in { Lowest(S) : S \in Sessions(r) } |-> LET S == CHOOSE T \in Sessions(r) : c \in T IN
   New(r, "summary", "archive", Saying(S), "sum", Centre(S))]
NewPlain(r) == NewWarm(r) @@ Merged(r) @@ Collapsed(r)
Touched(r) == Dirs(r) \cup Warm(r) \cup UNION Clusters(r) \cup Old(r)
Rem(r) == { c \in Mine(r) \ Touched(r) : turns[c].type # "directive" }
\* the first n of S
First(S, n, Before(_, _)) == { c \in S : Cardinality({ x \in S : Before(x, c) }) < n }
Prio(c) == CASE turns[c].tier = "archive" -> 0 [] turns[c].tier = "cold" -> 1 [] turns[c].tier = "warm" -> 2 [] OTHER -> 3
Lower(a, b) == Prio(a) < Prio(b) \/ (Prio(a) = Prio(b) /\ turns[a].ord < turns[b].ord)
Older(a, b) == turns[a].ord < turns[b].ord
Over(have, cap) == IF have > cap THEN have - cap ELSE 0
CapN(r, mt) == Min2(Over(Cardinality(Rem(r)) + Cardinality(DOMAIN NewPlain(r)), mt), Cardinality(Rem(r)))
Capped(r, mt) == First(Rem(r), CapN(r, mt), Lower)
AllDirs(r) == Dirs(r) \cup { c \in Mine(r) : turns[c].type = "directive" }
DirN(r, md) == Over(Cardinality(AllDirs(r)), md)
DirCapped(r, md) == First(AllDirs(r), DirN(r, md), Older)
Left(r, mt, md) == ((Mine(r) \ Touched(r)) \ Capped(r, mt)) \ DirCapped(r, md)
Rivals(a, b) == a # b /\ turns[a].tier = turns[b].tier /\ (turns[a].type = "directive") = (turns[b].type = "directive") /\ Same(a, b)
Doubles(r, mt, md) == { c \in Left(r, mt, md) : \E x \in Left(r, mt, md) : Rivals(c, x) /\ Older(c, x) }
\* what goes first among equals is left open
Clear(r, mt, md) ==
  /\ Cardinality(Capped(r, mt)) = CapN(r, mt) /\ Cardinality(DirCapped(r, md)) = DirN(r, md)
  /\ \A C \in Clusters(r) : \A a, b \in C : (a # b /\ turns[a].ord = turns[b].ord) => a # Latest(C) /\ b # Latest(C)
  /\ \A a, b \in Left(r, mt, md) : Rivals(a, b) => turns[a].ord # turns[b].ord
  /\ \A a, b, c \in Left(r, mt, md) : (Rivals(a, b) /\ Rivals(b, c) /\ a # c) => Rivals(a, c)
Adds(r, md) == LET N == NewDirs(r) @@ NewPlain(r) IN [c \in DOMAIN N \ DirCapped(r, md) |-> N[c]]
Gone(r, mt, md) == (Touched(r) \cup Capped(r, mt) \cup DirCapped(r, md) \cup Doubles(r, mt, md)) \ DOMAIN Adds(r, md)
\* ranks close up again
Settle(ts) == LET os == { ts[c].ord : c \in DOMAIN ts } IN [c \in DOMAIN ts |-> [ts[c] EXCEPT !.ord = Cardinality({ o \in os : o <= ts[c].ord })]]
In(R) == IF R = "all" THEN Repos ELSE {R}
AllAdds(R, md) == LET A(r) == IF r \in In(R) THEN Adds(r, md) ELSE EmptyFn IN A("ra") @@ A("rb")
AllGone(R, mt, md) == UNION { Gone(r, mt, md) : r \in In(R) }
Stored(R, md) == AllAdds(R, md) @@ turns
Done(R, mt, md) == Drop(Stored(R, md), AllGone(R, mt, md))
-----------------------------------------------------------------------------
Init == turns = EmptyFn /\ ticks = 0 /\ act = [name |-> "Init"]
Saved(r, c, age, d, a, v, o) == [repo |-> r, type |-> "turn", tier |-> "hot", d |-> d, words |-> {c}, asst |-> a, age |-> age, ord |-> o, vec |-> v]
\* cells saved in the order given; the older the sooner
Fill(f, g) == On("Fill") /\ turns = EmptyFn
  /\ \A i, j \in 1..Len(f) : i < j => g[i].age >= g[j].age
  /\ turns' = [c \in Range2(f) \cup {"s3.0"} |-> IF c = "s3.0" THEN Saved("rb", c, 100, FALSE, "short", <<1, 0>>, 1)
                 ELSE LET k == IndexOf(f, LAMBDA x : x = c) IN Saved("ra", c, g[k].age, g[k].d, g[k].asst, g[k].vec, k + 1)]
  /\ UNCHANGED ticks
  /\ act' = [name |-> "Fill", f |-> [k \in 1..Len(f) |-> [c |-> f[k], age |-> g[k].age, d |-> g[k].d, asst |-> g[k].asst, vec |-> g[k].vec]], res |-> "ok"]
Save(c, r, d, a, v) == On("Save") /\ turns' = Settle(Put(turns, c, Saved(r, c, 0, d, a, v, 99))) /\ UNCHANGED ticks
  /\ act' = [name |-> "Save", c |-> c, r |-> r, d |-> d, asst |-> a, vec |-> v, res |-> "ok"]
Compact(R, mt, md, dry) == On("Compact") /\ Cells # {} /\ (\A r \in In(R) : Clear(r, mt, md))
  /\ turns' = (IF dry THEN turns ELSE Settle(Done(R, mt, md))) /\ UNCHANGED ticks
  /\ act' = [name |-> "Compact", r |-> R, mt |-> mt, md |-> md, dry |-> dry, res |-> "ok"]
\* the process goes at the n-th write: nothing is lost, what is superseded may stay
Crash(R, n) == On("Crash") /\ Cells # {} /\ (\A r \in In(R) : Clear(r, 500, 50))
  /\ \/ turns' = turns
     \/ turns' = Settle(Stored(R, 50))
     \/ n > 1 /\ turns' = Settle(Done(R, 500, 50))
  /\ UNCHANGED ticks /\ act' = [name |-> "Crash", r |-> R, n |-> n, res |-> "ok"]
Tick(n) == On("Tick") /\ ticks < MaxTick /\ Cells # {} /\ ticks' = ticks + 1
  /\ turns' = [c \in Cells |-> [turns[c] EXCEPT !.age = IF @ + n > 120 THEN 120 ELSE @ + n]]
  /\ act' = [name |-> "Tick", n |-> n, res |-> "ok"]
Shapes == [age : Ages, d : Ds, asst : Assts, vec : VecsC]
Next == \/ \E f \in Pick(Fills) : \E g \in (IF On("Fill") THEN [1..Len(f) -> Shapes] ELSE {}) : Fill(f, g)
        \/ \E c \in Pick(Range2(Order)), r \in Pick(Repos), d \in Pick(Ds), a \in Pick(Assts), v \in Pick(VecsC) : Save(c, r, d, a, v)
        \/ \E R \in Pick(Scopes), mt \in Pick(MaxTs), md \in Pick(MaxDs), dry \in Pick(IF On("Dry") THEN BOOLEAN ELSE {FALSE}) : Compact(R, mt, md, dry)
        \/ \E R \in Pick(Scopes), n \in 1..3 : Crash(R, n)
        \/ \E n \in Pick({20, 40}) : Tick(n)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
State == [turns |-> [c \in Cells |-> [repo |-> turns[c].repo, type |-> turns[c].type, tier |-> turns[c].tier, words |-> SelectSeq(Order, LAMBDA x : x \in turns[c].words), asst |-> turns[c].asst, age |-> turns[c].age, vec |-> turns[c].vec]]]
Full == [turns |-> turns, ticks |-> ticks]
-----------------------------------------------------------------------------
F3 == {<<"s1.0", "s1.1", "s2.0">>, <<"s1.1", "s2.0", "s1.0">>}
F3a == {<<"s1.1", "s2.0", "s1.0">>}
F4 == {<<"s1.2", "s1.1", "s2.0", "s2.1">>}
OneV == {<<1, 0>>}
NoneV == {NoV}
TwoV == {<<1, 0>>, <<0, 1>>}
AllV == {<<1, 0>>, <<0, 1>>, <<2, 1>>, <<1, 1>>, NoV}
-----------------------------------------------------------------------------
\* every directive stays one, whatever its age, unless the cap or a newer one of the same sense takes it
DirectivesStay == [][act'.name \in {"Compact", "Crash"} =>
   \A c \in Cells : (turns[c].type = "directive" \/ (turns[c].type = "turn" /\ turns[c].d)) =>
     \/ c \in DOMAIN turns' /\ turns'[c].words = turns[c].words /\ (turns'[c].type = "directive" \/ turns'[c] = [turns[c] EXCEPT !.ord = turns'[c].ord])
     \/ act'.name = "Compact" /\ Cardinality(AllDirs(turns[c].repo)) > act'.md
     \/ turns[c].type = "directive" /\ \E x \in Cells : turns[x].type = "directive" /\ Rivals(c, x) /\ Older(c, x)]_vars
\* a recent turn goes only to the cap or to a newer one that says the same; others may not be touched
RecentStay == [][act'.name = "Compact" =>
   \A c \in Cells : (turns[c].type = "turn" /\ ~turns[c].d /\ turns[c].age < 7) =>
     \/ c \in DOMAIN turns' /\ turns'[c] = [turns[c] EXCEPT !.ord = turns'[c].ord]
     \/ Cardinality(Mine(turns[c].repo)) > act'.mt
     \/ \E x \in Cells : Rivals(c, x) /\ Older(c, x)]_vars
\* with room to spare and nothing alike, everything said is still said
Said == [][(act'.name = "Compact" /\ act'.mt >= 6 /\ act'.md >= 6 /\ (\A a, b \in Cells : a # b => ~Same(a, b)) => UNION { turns'[c].words : c \in DOMAIN turns' } = UNION { turns[c].words : c \in Cells })]_vars
CrashKeeps == [][act'.name = "Crash" => \A c \in Cells : turns[c].type = "turn" /\ (\A x \in Cells : ~Rivals(c, x)) => \E x \in DOMAIN turns' : turns[c].words \subseteq turns'[x].words]_vars
Elsewhere == [][act'.name \in {"Compact", "Crash"} /\ act'.r # "all" => \A c \in Cells : turns[c].repo # act'.r => c \in DOMAIN turns' /\ turns'[c] = [turns[c] EXCEPT !.ord = turns'[c].ord]]_vars
=============================================================================
