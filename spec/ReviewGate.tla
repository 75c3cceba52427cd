----------------------------- MODULE ReviewGate -----------------------------
\* Reviews holding back approval (src/workflow/gates.ts approve*, review/resolve.ts, code-review/gate.ts).
\* One epic with a definition D, a story design L and a build record B; each may carry a review whose findings
\* f1 (high, with a text fix), f2 (medium, no text fix) and f3 (low) are resolved one by one. CR = the story's code review.
EXTENDS Common
CONSTANTS Docs, Reviews, Hows, Finds, Overs, CRs, Acts
VARIABLES doc, cr, act
vars == <<doc, cr, act>>
Fs == {"f1", "f2", "f3"}
Absent == [st |-> "absent", ov |-> None, rv |-> "none", res |-> EmptyFn, fixed |-> FALSE]
Init == doc = [k \in Docs |-> Absent] /\ cr = "none" /\ act = [name |-> "Init"]
InRv(rv) == CASE rv = "none" -> {} [] rv = "h" -> {"f1"} [] rv = "low" -> {"f3"} [] rv = "all" -> Fs
Open(d) == { f \in InRv(d.rv) : f \notin DOMAIN d.res }
Blocking(d) == Open(d) \ {"f3"}
Verdict(d) == IF Blocking(d) # {} THEN "block" ELSE "pass"
Real(ov) == ov = "because"
On(a) == a \in Acts
A(n, a, r) == act' = [name |-> n] @@ a @@ [res |-> r]
Order(S) == SelectSeq(<<"B", "D", "L">>, LAMBDA k : k \in S)

Write(k, rv) == On("Write") /\ doc' = [doc EXCEPT ![k] = [Absent EXCEPT !.st = "draft", !.rv = rv]] /\ UNCHANGED cr /\ A("Write", [k |-> k, rv |-> rv], "ok")
CodeReview(v) == On("CodeReview") /\ cr' = v /\ UNCHANGED doc /\ A("CodeReview", [v |-> v], "ok")
Reject(k) == On("Reject") /\ UNCHANGED cr
   /\ doc' = (IF doc[k].st = "absent" THEN doc ELSE [doc EXCEPT ![k].st = "rejected"]) /\ A("Reject", [k |-> k], IF doc[k].st = "absent" THEN "missing" ELSE "ok")
Resolve(k, f, how) ==
  LET d == doc[k]
      ok == d.st # "absent" /\ f \in InRv(d.rv) /\ (how = "apply" => f = "f1" /\ ~d.fixed)
      st == CASE how \in {"accept", "apply"} -> "resolved" [] how = "override" -> "overridden" [] how = "defer" -> "deferred"
      nd == [d EXCEPT !.res = Put(@, f, st), !.fixed = @ \/ how = "apply"]
  IN /\ On("Resolve") /\ UNCHANGED cr
     /\ doc' = IF ok THEN [doc EXCEPT ![k] = nd] ELSE doc
     /\ A("Resolve", [k |-> k, f |-> f, how |-> how], IF ok THEN [status |-> st, verdict |-> Verdict(nd), left |-> Cardinality(Blocking(nd))] ELSE "error")
Stamp(d, ov) == [d EXCEPT !.st = "approved", !.ov = IF Blocking(d) # {} THEN ov ELSE @]
Approve(k, ov) == On("Approve") /\ UNCHANGED cr
  /\ LET d == doc[k]
         r == IF d.st = "absent" THEN "missing" ELSE IF Blocking(d) # {} /\ ~Real(ov) THEN "blocked" ELSE "ok" IN
     /\ doc' = IF r = "ok" THEN [doc EXCEPT ![k] = Stamp(d, ov)] ELSE doc
     /\ A("Approve", [k |-> k, ov |-> ov], r)
Gate(k, ov, enf) == IF k = "D" THEN None ELSE IF cr \in {"none", "torn", "odd"} THEN "no-review" ELSE IF cr # "block" THEN cr
                    ELSE IF ~enf THEN "advisory" ELSE IF Real(ov) THEN "overridden" ELSE "blocked"
Out(k, ov, enf) == IF Gate(k, ov, enf) = "blocked" THEN "code-review" ELSE IF Gate(k, ov, enf) = "no-review" /\ k = "B" /\ enf /\ ~Real(ov) THEN "no-code-review"
                   ELSE IF Blocking(doc[k]) # {} /\ ~Real(ov) THEN "review" ELSE "approved"
Target(ks, ov, enf) ==
  [ approved |-> Order({ k \in ks : Out(k, ov, enf) = "approved" }),
    skipped |-> [ i \in 1..Len(Order({ k \in ks : Out(k, ov, enf) # "approved" })) |-> LET k == Order({ x \in ks : Out(x, ov, enf) # "approved" })[i] IN <<k, Out(k, ov, enf)>> ],
    gates |-> [ i \in 1..Len(Order(ks \ {"D"})) |-> LET k == Order(ks \ {"D"})[i] IN <<k, Gate(k, ov, enf)>> ] ]
DoTarget(ks, ov, enf) == doc' = [ k \in Docs |-> IF k \in ks /\ Out(k, ov, enf) = "approved" THEN Stamp(doc[k], ov) ELSE doc[k] ]
One(k, ov, enf) == On("One") /\ UNCHANGED cr /\ A("One", [k |-> k, ov |-> ov, enf |-> enf], IF doc[k].st = "absent" THEN "missing" ELSE Target({k}, ov, enf))
  /\ DoTarget(IF doc[k].st = "absent" THEN {} ELSE {k}, ov, enf)
Pending == { k \in Docs : doc[k].st = "draft" }
Batch(ov, enf) == On("Batch") /\ UNCHANGED cr /\ A("Batch", [ov |-> ov, enf |-> enf], IF Pending = {} THEN "nothing" ELSE Target(Pending, ov, enf)) /\ DoTarget(Pending, ov, enf)
Next == \/ \E k \in Pick(Docs), rv \in Pick(Reviews) : Write(k, rv)
        \/ \E v \in Pick(CRs) : CodeReview(v)
        \/ \E k \in Pick(Docs) : Reject(k)
        \/ \E k \in Pick(Docs), f \in Pick(Finds), how \in Pick(Hows) : Resolve(k, f, how)
        \/ \E k \in Pick(Docs), ov \in Pick(Overs) : Approve(k, ov)
        \/ \E k \in Pick(Docs), ov \in Pick(Overs), enf \in Pick(BOOLEAN) : One(k, ov, enf)
        \/ \E ov \in Pick(Overs), enf \in Pick(BOOLEAN) : Batch(ov, enf)
View(d) == IF d.st = "absent" THEN Absent @@ [verdict |-> "pass", pending |-> <<>>] ELSE d @@ [verdict |-> Verdict(d), pending |-> SelectSeq(<<"f1", "f2">>, LAMBDA f : f \in Open(d))]
State == [docs |-> [k \in Docs |-> View(doc[k])], cr |-> cr]
Full == [doc |-> doc, cr |-> cr]
D1 == {"D"}
D3 == {"D", "L", "B"}
DL == {"L", "B"}
AllRv == {"none", "h", "low", "all"}
SomeRv == {"none", "h"}
OneRv == {"all", "low"}
AllHows == {"accept", "override", "defer", "apply"}
AcceptOnly == {"accept"}
AllFinds == {"f1", "f2", "f3", "f9"}
F1 == {"f1"}
AllOvers == {None, "", "because"}
AllCR == {"none", "pass", "warn", "block", "torn", "odd"}
SomeCR == {"none", "pass", "block"}
NoCR == {"none"}
ResolveActs == {"Write", "Reject", "Resolve", "Approve"}
BatchActs == {"Write", "CodeReview", "Reject", "Resolve", "Batch"}
TargetActs == {"Write", "CodeReview", "One"}
AllActs == ResolveActs \cup BatchActs \cup TargetActs
\* ---- properties
NeverApprovedBlocked == [][ \A k \in Docs : doc[k].st # "approved" /\ doc'[k].st = "approved" => Blocking(doc[k]) = {} \/ doc'[k].ov = "because" ]_vars
OverrideRecorded == \A k \in Docs : doc[k].ov \in {None, "because"}
BatchKeepsRejected == [][ act'.name = "Batch" => \A k \in Docs : doc[k].st \in {"approved", "rejected", "absent"} => doc'[k] = doc[k] ]_vars
BuildNeedsReview == [][ act'.name \in {"One", "Batch"} /\ act'.enf /\ act'.ov # "because" => \A k \in Docs \cap {"B"} : doc[k].st # "approved" /\ doc'[k].st = "approved" => cr \in {"pass", "warn"} ]_vars
=============================================================================
