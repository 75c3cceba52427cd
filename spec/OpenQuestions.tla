---------------------------- MODULE OpenQuestions ----------------------------
\* Open questions of the documents of an epic and the stages they hold back
\* (src/workflow/questions.ts, mcp/workflow-step/{questions-gate,phases/resolve-question,phases/review-deferred}.ts).
\* D holds back design.epic, H holds back design.story, L1/L2 hold back the plan of their own story.
EXTENDS Common
CONSTANTS Docs, Lists, Hows
VARIABLES docs, act
vars == <<docs, act>>
\* a text = <<id, wording>>: a tagged question keeps its id when reworded, an untagged one is a new question
Absent == [ex |-> FALSE, qs |-> <<>>, res |-> EmptyFn]
Init == docs = [d \in Docs |-> Absent] /\ act = [name |-> "Init"]
A(n, a, r) == act' = [name |-> n] @@ a @@ [res |-> r]
IdOf(q) == q[1]
Ids(d) == { IdOf(docs[d].qs[i]) : i \in 1..Len(docs[d].qs) }
OpenOf(x) == SelectSeq(x.qs, LAMBDA q : IdOf(q) \notin DOMAIN x.res)
IdSeq(s) == [i \in 1..Len(s) |-> IdOf(s[i])]
\* a newly written document has no decisions
Write(d, l) == docs' = [docs EXCEPT ![d] = [ex |-> TRUE, qs |-> l, res |-> EmptyFn]] /\ A("Write", [d |-> d, l |-> l], "ok")
\* the question list of a document is edited, its decisions stay on record
Reword(d, l) == /\ docs[d].ex /\ docs' = [docs EXCEPT ![d].qs = l] /\ A("Reword", [d |-> d, l |-> l], "ok")
Decide(d, q, how) ==
  LET ok == docs[d].ex /\ q \in Ids(d) /\ how # "resolved:"
      nd == [docs[d] EXCEPT !.res = Put(@, q, how)]
  IN /\ docs' = (IF ok THEN [docs EXCEPT ![d] = nd] ELSE docs)
     /\ A("Decide", [d |-> d, q |-> q, how |-> how],
          IF how = "resolved:" THEN <<"bad-input">> ELSE IF ~ok THEN <<"unknown-question">> ELSE IF OpenOf(nd) = <<>> THEN <<"ready">> ELSE <<"more", IdSeq(OpenOf(nd))>>)
\* stages without a gated upstream refuse decisions
NotGated(w) == UNCHANGED docs /\ A("NotGated", [w |-> w], <<"not-a-gated-stage">>)
Next == \/ \E d \in Pick(Docs), l \in Pick(Lists) : Write(d, l) \/ Reword(d, l)
        \/ \E d \in Pick(Docs), q \in Pick({"sc2", "p", "p2", "zz"}), how \in Pick(Hows) : Decide(d, q, how)
        \/ \E w \in {"define", "build"} : NotGated(w)
Order == SelectSeq(<<"D", "H", "L1", "L2">>, LAMBDA d : d \in Docs)
Deferred == FlattenSeq([ i \in 1..Len(Order) |-> LET d == Order[i]
                          qs == SelectSeq(docs[d].qs, LAMBDA q : IdOf(q) \in DOMAIN docs[d].res /\ docs[d].res[IdOf(q)] = "deferred") IN [ j \in 1..Len(qs) |-> <<d, qs[j][1], qs[j][2]>> ] ])
View(d) == [ex |-> docs[d].ex, qs |-> docs[d].qs, res |-> docs[d].res, held |-> IdSeq(OpenOf(docs[d]))]
State == [docs |-> [d \in Docs |-> View(d)], deferred |-> Deferred]
Full == docs
Lists4 == { <<>>, <<<<"sc2", "a">>, <<"p", "x">>>>, <<<<"p", "x">>>>, <<<<"sc2", "b">>, <<"p2", "x">>>>, <<<<"p", "x">>, <<"p2", "x">>>> }
Lists2 == { <<<<"sc2", "a">>, <<"p", "x">>>>, <<<<"sc2", "b">>>> }
Hows5 == {"resolved:yes", "resolved:no", "resolved:", "ignored", "deferred"}
Hows2 == {"resolved:yes", "deferred"}
DD == {"D"}
HH == {"H"}
LL == {"L1"}
DH == {"L1", "L2"}
All == {"D", "H", "L1", "L2"}
\* ---- properties
OnlyNamed == [][ act'.name = "Decide" => \A d \in Docs : (d # act'.d => docs'[d] = docs[d]) /\ \A q \in DOMAIN docs[d].res \ {act'.q} : docs'[d].res[q] = docs[d].res[q] ]_vars
HeldUntilDecided == [][ \A d \in Docs : act'.name # "Write" /\ act'.name # "Reword" => \A q \in Range2(IdSeq(OpenOf(docs[d]))) : q \in Range2(IdSeq(OpenOf(docs'[d]))) \/ (act'.name = "Decide" /\ act'.d = d /\ act'.q = q) ]_vars
=============================================================================
