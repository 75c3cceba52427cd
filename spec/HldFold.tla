------------------------------- MODULE HldFold -------------------------------
\* The effective high-level design: base + approved amendments (src/workflow/amendments/{applier,effective,store}.ts,
\* gates.requireApprovedHld, cli/services/workflow.approveAmendmentById).
\* The state is the effective design itself; adopting = proposing + approving one amendment.
EXTENDS Common
CONSTANTS Tpls, MaxAdopt
VARIABLES body, adopted, act
vars == <<body, adopted, act>>
C(id, name, owner, cons) == [id |-> id, name |-> name, owner |-> owner, cons |-> cons, marks |-> <<>>]
Base == [ cs |-> <<C("sc1", "TodoStore", "s1", <<"s2">>), C("sc2", "TagIndex", "s2", <<>>)>>,
          bs |-> <<[id |-> "s1", owns |-> <<"sc1">>, deps |-> <<>>], [id |-> "s2", owns |-> <<"sc2">>, deps |-> <<"sc1">>], [id |-> "s3", owns |-> <<>>, deps |-> <<>>]>>,
          nf |-> [performance |-> "fast", security |-> None],
          ph |-> <<[name |-> "A", st |-> <<"s1", "s2">>], [name |-> "B", st |-> <<"s3", "s1">>], [name |-> "C", st |-> <<>>]>> ]
\* members every base contract declares itself
Declared == {"id", "list"}
Init == body = Base /\ adopted = 0 /\ act = [name |-> "Init"]
CIdx(b, id) == IndexOf(b.cs, LAMBDA c : c.id = id)
BIdx(b, id) == IndexOf(b.bs, LAMBDA c : c.id = id)
PIdx(b, n) == IndexOf(b.ph, LAMBDA c : c.name = n)
Has(s, x) == x \in Range2(s)
Member(c, m) == m \in Declared \/ \E i \in 1..Len(c.marks) : c.marks[i] = <<"+", m>>
AppendNew(s, x) == IF Has(s, x) THEN s ELSE Append(s, x)
Names(b) == [i \in 1..Len(b.ph) |-> b.ph[i].name]
Dedup(s) == FoldLeft(LAMBDA acc, x : AppendNew(acc, x), <<>>, s)
\* ---- when an amendment fits a design
Fits(b, a) ==
  LET ci == IF "c" \in DOMAIN a THEN CIdx(b, a.c) ELSE 1
      c == IF ci > 0 THEN b.cs[ci] ELSE b.cs[1]
  IN ci > 0 /\
     CASE a.t \in {"fieldAdd", "methodAdd"} -> ~Member(c, a.m) /\ ~a.bad
       [] a.t = "fieldRemove" -> Member(c, a.m) /\ ~a.bad
       [] a.t = "rename" -> c.name = a.old /\ ~a.bad /\ ~\E i \in 1..Len(b.cs) : i # ci /\ b.cs[i].name = a.new
       [] a.t = "reassign" -> c.owner = a.old /\ a.old # a.new /\ BIdx(b, a.new) > 0
       [] a.t = "consumer" -> a.s # c.owner /\ ~Has(c.cons, a.s)
       [] a.t = "story" -> BIdx(b, a.s) = 0 /\ \A i \in 1..Len(a.deps) : CIdx(b, a.deps[i]) > 0
       [] a.t = "retarget" -> b.nf[a.p] # None /\ b.nf[a.p] = a.old
       [] a.t = "reorder" -> Len(a.order) = Len(b.ph) /\ Range2(a.order) = Range2(Names(b))
       [] a.t = "split" -> PIdx(b, a.p) > 0 /\ UNION { Range2(a.into[i].st) : i \in 1..Len(a.into) } = Range2(b.ph[PIdx(b, a.p)].st)
       [] a.t = "merge" -> /\ Len(a.ps) >= 2 /\ Cardinality(Range2(a.ps)) = Len(a.ps)
                           /\ \A i \in 1..Len(a.ps) : PIdx(b, a.ps[i]) > 0
                           /\ LET is == { PIdx(b, a.ps[i]) : i \in 1..Len(a.ps) } IN Max(is) - Min(is) + 1 = Len(a.ps)
Apply(b, a) ==
  LET ci == IF "c" \in DOMAIN a THEN CIdx(b, a.c) ELSE 1 IN
  CASE a.t \in {"fieldAdd", "methodAdd"} -> [b EXCEPT !.cs[ci].marks = Append(@, <<"+", a.m>>)]
    [] a.t = "fieldRemove" -> [b EXCEPT !.cs[ci].marks = Append(@, <<"-", a.m>>)]
    [] a.t = "rename" -> [b EXCEPT !.cs[ci].name = a.new]
    [] a.t = "reassign" -> [b EXCEPT !.cs[ci].owner = a.new,
          !.bs = [i \in 1..Len(b.bs) |-> IF b.bs[i].id = a.old THEN [b.bs[i] EXCEPT !.owns = SelectSeq(@, LAMBDA x : x # a.c)]
                                        ELSE IF b.bs[i].id = a.new THEN [b.bs[i] EXCEPT !.owns = AppendNew(@, a.c)] ELSE b.bs[i]]]
    [] a.t = "consumer" -> [b EXCEPT !.cs[ci].cons = Append(@, a.s),
          !.bs = [i \in 1..Len(b.bs) |-> IF b.bs[i].id = a.s THEN [b.bs[i] EXCEPT !.deps = AppendNew(@, a.c)] ELSE b.bs[i]]]
    [] a.t = "story" -> [b EXCEPT !.bs = Append(@, [id |-> a.s, owns |-> <<>>, deps |-> a.deps])]
    [] a.t = "retarget" -> [b EXCEPT !.nf[a.p] = a.new]
    [] a.t = "reorder" -> [b EXCEPT !.ph = [i \in 1..Len(a.order) |-> b.ph[PIdx(b, a.order[i])]]]
    [] a.t = "split" -> LET k == PIdx(b, a.p) IN [b EXCEPT !.ph = SubSeq(@, 1, k - 1) \o a.into \o SubSeq(@, k + 1, Len(@))]
    [] a.t = "merge" -> LET is == { PIdx(b, a.ps[i]) : i \in 1..Len(a.ps) } IN
         [b EXCEPT !.ph = SubSeq(@, 1, Min(is) - 1) \o <<[name |-> a.new, st |-> Dedup(FlattenSeq([i \in 1..Len(a.ps) |-> b.ph[Min(is) + i - 1].st]))]>> \o SubSeq(@, Max(is) + 1, Len(@))]
\* a removal of something already removed is left open by the documentation: never offered
Offered(b, a) == ~(a.t = "fieldRemove" /\ CIdx(b, a.c) > 0 /\ Has(b.cs[CIdx(b, a.c)].marks, <<"-", a.m>>))
A(n, a, r) == act' = [name |-> n] @@ a @@ [res |-> r]
Adopt(a) == /\ Offered(body, a) /\ adopted < MaxAdopt
            /\ body' = (IF Fits(body, a) THEN Apply(body, a) ELSE body)
            /\ adopted' = (IF Fits(body, a) THEN adopted + 1 ELSE adopted)
            /\ A("Adopt", [a |-> a], IF Fits(body, a) THEN "ok" ELSE "refused")
\* a proposal that stays pending, or is rejected, has no effect whatever its content
Propose(a) == Offered(body, a) /\ UNCHANGED <<body, adopted>> /\ A("Propose", [a |-> a], "ok")
Decline(a) == Offered(body, a) /\ UNCHANGED <<body, adopted>> /\ A("Decline", [a |-> a], "ok")
Next == \E a \in Pick(Tpls) : Adopt(a) \/ (a.noise /\ (Propose(a) \/ Decline(a)))
State == body
Full == [body |-> body, adopted |-> adopted]
N(a, x) == a @@ [noise |-> x]
Add(t, c, m, bad) == [t |-> t, c |-> c, m |-> m, bad |-> bad]
Ren(c, o, n, bad) == [t |-> "rename", c |-> c, old |-> o, new |-> n, bad |-> bad]
Contracts == { N(x, FALSE) : x \in { Add("fieldAdd", "sc1", "tag", FALSE), Add("fieldAdd", "sc1", "ta", FALSE), Add("fieldAdd", "sc1", "id", FALSE), Add("fieldAdd", "sc9", "tag", FALSE), Add("fieldAdd", "sc2", "list", FALSE),
     Add("methodAdd", "sc1", "find", FALSE), Add("methodAdd", "sc2", "tag", FALSE), Add("methodAdd", "sc1", "drop", TRUE), Add("methodAdd", "sc1", "list", FALSE), Add("methodAdd", "sc1", "tag", FALSE),
     Add("fieldRemove", "sc1", "id", FALSE), Add("fieldRemove", "sc1", "tag", FALSE), Add("fieldRemove", "sc2", "list", TRUE), Add("fieldRemove", "sc2", "nope", FALSE), 
     Ren("sc1", "TodoStore", "Store", FALSE), Ren("sc1", "TodoStore", "TagIndex", FALSE), Ren("sc2", "TagIndex", "TodoStore", FALSE), Ren("sc1", "Store", "TodoStore", FALSE), Ren("sc2", "TagIndex", "Tags", TRUE) } }
   \cup { N(Add("fieldAdd", "sc1", "tag", FALSE), TRUE) }
Re(c, o, n) == [t |-> "reassign", c |-> c, old |-> o, new |-> n]
Con(c, s) == [t |-> "consumer", c |-> c, s |-> s]
St(s, d) == [t |-> "story", s |-> s, deps |-> d]
Bounds == { N(x, FALSE) : x \in { Re("sc1", "s1", "s2"), Re("sc1", "s2", "s3"), Re("sc1", "s2", "s1"), Re("sc1", "s1", "s4"), Re("sc2", "s2", "s2"), Re("sc2", "s1", "s2"), Re("sc2", "s2", "s1"),
     Con("sc1", "s1"), Con("sc1", "s2"), Con("sc1", "s3"), Con("sc2", "s3"), Con("sc2", "s4"), Con("sc9", "s3"), St("s4", <<"sc1">>), St("s4", <<>>), St("s3", <<>>), St("s5", <<"sc2", "sc9">>), St("s5", <<"sc2", "sc1">>) } }
   \cup { N(Con("sc1", "s3"), TRUE) }
Ro(o) == [t |-> "reorder", order |-> o]
Sp(p, into) == [t |-> "split", p |-> p, into |-> into]
Mg(ps, n) == [t |-> "merge", ps |-> ps, new |-> n]
P(n, s) == [name |-> n, st |-> s]
Rollout == { N(x, FALSE) : x \in { Ro(<<"B", "A", "C">>), Ro(<<"C", "A", "B">>), Ro(<<"A", "B">>), Ro(<<"A", "B", "B">>), Ro(<<"A", "B", "D">>), Ro(<<"A2", "A1", "B", "C">>), Ro(<<"C", "AB">>), Ro(<<"A", "A", "B", "C">>),
     Sp("A", <<P("A1", <<"s1">>), P("A2", <<"s2">>)>>), Sp("A", <<P("A1", <<"s1">>), P("A2", <<"s1">>)>>), Sp("A", <<P("A1", <<"s1", "s9">>), P("A2", <<"s2">>)>>), Sp("B", <<P("B1", <<"s3", "s1">>)>>), Sp("Z", <<P("Z1", <<>>)>>), Sp("A", <<P("A", <<"s2", "s1">>)>>),
     Mg(<<"A", "B">>, "AB"), Mg(<<"B", "A">>, "AB"), Mg(<<"A", "C">>, "AC"), Mg(<<"A">>, "A"), Mg(<<"A", "Z">>, "AZ"), Mg(<<"A2", "B", "C">>, "Rest"), Mg(<<"Y", "Z">>, "Q"), Mg(<<"B", "C">>, "C") } }
   \cup { N(Mg(<<"A", "B">>, "AB"), TRUE) }
Rt(p, o, n) == [t |-> "retarget", p |-> p, old |-> o, new |-> n]
NonFun == { N(x, FALSE) : x \in { Rt("performance", "fast", "faster"), Rt("performance", "faster", "fast"), Rt("performance", "slow", "fast"), Rt("security", None, "tls"), Rt("security", "tls", "mtls") } }
Everything == Contracts \cup Bounds \cup Rollout \cup NonFun
ContractsNf == Contracts \cup NonFun
\* ---- properties
RefusedIsNoop == [][ act'.name # "Adopt" \/ act'.res = "refused" => body' = body ]_vars
\* a contract has one owner, which lists it, and no two contracts share a name
OneOwner == \A i \in 1..Len(body.cs) : \A j \in 1..Len(body.bs) : Has(body.bs[j].owns, body.cs[i].id) <=> body.cs[i].owner = body.bs[j].id
UniqueNames == \A i, j \in 1..Len(body.cs) : i # j => body.cs[i].name # body.cs[j].name
StoriesOnce == \A i, j \in 1..Len(body.bs) : i # j => body.bs[i].id # body.bs[j].id
\* regrouping phases never loses or invents a story
RolloutKeeps == UNION { Range2(body.ph[i].st) : i \in 1..Len(body.ph) } = {"s1", "s2", "s3"}
=============================================================================
