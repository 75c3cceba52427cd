------------------------------- MODULE Common -------------------------------
\* Shared vocabulary of all insrc specifications.
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt, Functions

None == "-"                       \* absent value
Range2(s) == {s[i] : i \in 1..Len(s)}
\* function update that may extend the domain
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, ks) == [x \in DOMAIN f \ ks |-> f[x]]
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
EmptyFn == [x \in {} |-> None]
RemoveIdx(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
SetIdx(s, i, v) == [s EXCEPT ![i] = v]
IndexOf(s, P(_)) == IF \E i \in 1..Len(s) : P(s[i]) THEN CHOOSE i \in 1..Len(s) : P(s[i]) /\ \A j \in 1..(i-1) : ~P(s[j]) ELSE 0
\* in -simulate mode pick one argument at random instead of enumerating all (same behaviours, much faster)
Pick(S) == IF S # {} /\ TLCGet("config").mode = "simulate" THEN {RandomElement(S)} ELSE S
\* insertion of a set into an (arbitrary but fixed) sequence
SortBy(S, Less(_, _)) == SetToSortSeq(S, Less)
=============================================================================
