------------------------------ MODULE EpicFlow ------------------------------
\* The document chain of one epic (src/workflow/gates.ts, amendments/*, chain.ts, runners/build/admission.ts,
\* the finalizers of orchestrator.ts and the first runner of every stage):
\* definition D -> high-level design H (+ amendments) -> story designs L[s] -> plans P[s] -> builds,
\* a brainstormed spec S, and a standalone story design SL.
EXTENDS Common
CONSTANTS Stories,     \* set of story ids of a fresh definition, a prefix of <<"s1","s2">>
          MaxHld, MaxAm, MaxExtra, Acts, StartReady
VARIABLES D, H, L, P, S, SL, am, order, act
vars == <<D, H, L, P, S, SL, am, order, act>>

Doc == [st |-> "absent", reason |-> None]
Base == SelectSeq(<<"s1", "s2">>, LAMBDA s : s \in Stories)
Init == /\ D = IF StartReady THEN [st |-> "approved", reason |-> None, stories |-> Base] ELSE [st |-> "absent", reason |-> None, stories |-> <<>>]
        /\ H = IF StartReady THEN [st |-> "approved", reason |-> None, run |-> 1] ELSE [st |-> "absent", reason |-> None, run |-> 0]
        /\ L = [s \in Stories |-> [st |-> "absent", reason |-> None, run |-> 0, ams |-> <<>>, ack |-> FALSE]]
        /\ P = [s \in Stories |-> [st |-> "absent", reason |-> None, run |-> 0, ams |-> <<>>]]
        /\ S = Doc /\ SL = Doc
        /\ am = <<>> /\ order = <<>> /\ act = [name |-> "Init"]
\* ---------------------------------------------------------------- gates
Cls(d) == IF d.st = "absent" THEN "missing" ELSE IF d.st = "approved" THEN "ok" ELSE "refused"
ReqEpic == Cls(D)
ReqHld == Cls(H)
Fresh(s) == L[s].run = H.run /\ L[s].ams = order
ReqLld(s) == IF Cls(L[s]) # "ok" THEN Cls(L[s]) ELSE IF L[s].ack THEN "ok" ELSE IF H.st = "absent" THEN "missing" ELSE IF Fresh(s) THEN "ok" ELSE "refused"
PlanUp(s) == IF ReqLld(s) # "ok" THEN ReqLld(s) ELSE IF ReqHld # "ok" THEN ReqHld ELSE ReqEpic
Admit(s) == IF P[s].st = "absent" THEN "plan-missing" ELSE IF P[s].st # "approved" THEN "plan-unapproved"
            ELSE IF L[s].st = "absent" THEN "missing" ELSE IF P[s].run = L[s].run /\ P[s].ams = L[s].ams THEN "admitted" ELSE "plan-stale"
StageStory(s) == ReqEpic = "ok" /\ ReqHld = "ok"
Stale(s) == IF L[s].st = "absent" \/ H.st = "absent" THEN None
            ELSE IF Fresh(s) THEN "fresh" ELSE IF L[s].run # H.run THEN "hld-rerun"
            ELSE LET i == IndexOf(order, LAMBDA a : a \notin Range2(L[s].ams)) IN "amendment-" \o ToString(order[i])
Pending == { i \in 1..Len(am) : am[i] = "pending" }
ChainStory(s) == IF s \notin Stories THEN <<"run-lld", s>>
                 ELSE IF Stale(s) \notin {None, "fresh"} /\ ~L[s].ack THEN <<"refresh-stale", s>>
                 ELSE IF L[s].st = "absent" THEN <<"run-lld", s>> ELSE IF L[s].st # "approved" THEN <<"approve-lld", s>> ELSE <<>>
Chain == IF D.st \in {"absent", "rejected"} THEN <<"run-define", None>>
         ELSE IF D.st # "approved" THEN <<"approve-define", None>>
         ELSE IF Pending # {} THEN <<"review-amendment", None>>
         ELSE IF H.st = "absent" THEN <<"run-hld", None>>
         ELSE IF H.st # "approved" THEN <<"approve-hld", None>>
         ELSE LET todo == SelectSeq(D.stories, LAMBDA s : ChainStory(s) # <<>>)
              IN IF todo # <<>> THEN ChainStory(todo[1]) ELSE <<"push-tracker", None>>
\* ---------------------------------------------------------------- actions
On(a) == a \in Acts
A(n, a, r) == act' = [name |-> n] @@ a @@ [res |-> r]
NoArg == [x \in {} |-> None]
UnchDocs == UNCHANGED <<D, H, L, P, S, SL>>
UnchAm == UNCHANGED <<am, order>>

WriteDefine == On("WriteDefine") /\ D' = [st |-> "draft", reason |-> None, stories |-> Base] /\ UNCHANGED <<H, L, P, S, SL>> /\ UnchAm /\ A("WriteDefine", NoArg, "ok")
WriteHld == On("WriteHld") /\ H.run < MaxHld /\ H' = [st |-> "draft", reason |-> None, run |-> H.run + 1] /\ UNCHANGED <<D, L, P, S, SL>> /\ UnchAm /\ A("WriteHld", NoArg, "ok")
\* finishing a story design / a plan checks its upstream once more
WriteLld(s) == On("WriteLld") /\ UnchAm /\ UNCHANGED <<D, H, P, S, SL>>
  /\ LET r == IF ReqEpic = "ok" /\ ReqHld = "ok" THEN "ok" ELSE "refused" IN
     /\ L' = IF r = "ok" THEN [L EXCEPT ![s] = [st |-> "draft", reason |-> None, run |-> H.run, ams |-> order, ack |-> FALSE]] ELSE L
     /\ A("WriteLld", [s |-> s], r)
WritePlan(s) == On("WritePlan") /\ UnchAm /\ UNCHANGED <<D, H, L, S, SL>>
  /\ P' = (IF ReqLld(s) = "ok" THEN [P EXCEPT ![s] = [st |-> "draft", reason |-> None, run |-> L[s].run, ams |-> L[s].ams]] ELSE P)
  /\ A("WritePlan", [s |-> s], IF ReqLld(s) = "ok" THEN "ok" ELSE "refused")
WriteSpec == On("WriteSpec") /\ S' = [Doc EXCEPT !.st = "draft"] /\ UNCHANGED <<D, H, L, P, SL>> /\ UnchAm /\ A("WriteSpec", NoArg, "ok")
WriteSolo == On("WriteSpec") /\ SL' = [Doc EXCEPT !.st = "draft"] /\ UNCHANGED <<D, H, L, P, S>> /\ UnchAm /\ A("WriteSolo", NoArg, "ok")

Decided(d, how) == IF how = "approve" THEN [d EXCEPT !.st = "approved", !.reason = None] ELSE [d EXCEPT !.st = "rejected", !.reason = how]
\* how: "approve", or a rejection reason; "" is a blank reason
Decide(k, s, how) ==
  LET d == CASE k = "D" -> D [] k = "H" -> H [] k = "L" -> L[s] [] k = "P" -> P[s] [] k = "S" -> S [] k = "SL" -> SL
      r == IF d.st = "absent" THEN "missing" ELSE IF how = "" THEN "error" ELSE "ok"
  IN /\ On("Decide") /\ UnchAm
     /\ A("Decide", [k |-> k, s |-> s, how |-> how], r)
     /\ IF r # "ok" THEN UnchDocs
        ELSE /\ D' = IF k = "D" THEN Decided(D, how) ELSE D
             /\ H' = IF k = "H" THEN Decided(H, how) ELSE H
             /\ L' = IF k = "L" THEN [L EXCEPT ![s] = Decided(@, how)] ELSE L
             /\ P' = IF k = "P" THEN [P EXCEPT ![s] = Decided(@, how)] ELSE P
             /\ S' = IF k = "S" THEN Decided(S, how) ELSE S
             /\ SL' = IF k = "SL" THEN Decided(SL, how) ELSE SL
Kinds == {<<"D", None>>, <<"H", None>>} \cup ({"L"} \X Stories) \cup (IF On("WritePlan") THEN {"P"} \X Stories ELSE {}) \cup (IF On("WriteSpec") THEN {<<"S", None>>, <<"SL", None>>} ELSE {})

AppendStory(dup) == On("AppendStory") /\ UnchAm /\ UNCHANGED <<H, L, P, S, SL>>
  /\ LET new == "s" \o ToString(Len(D.stories) + 1) IN
     IF D.st = "absent" THEN D' = D /\ A("AppendStory", [dup |-> dup], "missing")
     ELSE IF dup THEN D' = D /\ A("AppendStory", [dup |-> dup], "error")
     ELSE /\ Len(D.stories) < Cardinality(Stories) + MaxExtra
          /\ D' = [D EXCEPT !.stories = Append(@, new)] /\ A("AppendStory", [dup |-> dup], new)

Ack(s, blank) == On("Ack") /\ UnchAm /\ UNCHANGED <<D, H, P, S, SL>>
  /\ LET r == IF L[s].st = "absent" THEN "missing" ELSE IF blank THEN "error" ELSE "ok" IN
     /\ L' = IF r = "ok" THEN [L EXCEPT ![s].ack = TRUE] ELSE L
     /\ A("Ack", [s |-> s, blank |-> blank], r)

\* how: "new"; "reuse" an id already given out; "decided" = a record that is not pending
Propose(how) == On("Propose") /\ UnchDocs /\ UNCHANGED order
  /\ ((how = "reuse") => am # <<>>)
  /\ IF how = "new" THEN Len(am) < MaxAm /\ am' = Append(am, "pending") /\ A("Propose", [how |-> how], Len(am) + 1)
     ELSE am' = am /\ A("Propose", [how |-> how], "error")
DecideAm(i, how) == On("DecideAm") /\ UnchDocs
  /\ LET r == IF i > Len(am) THEN (IF how = "" THEN "error" ELSE "missing") ELSE IF how = "" \/ am[i] # "pending" THEN "error" ELSE "ok" IN
     /\ A("DecideAm", [i |-> i, how |-> how], r)
     /\ am' = IF r = "ok" THEN [am EXCEPT ![i] = IF how = "approve" THEN "approved" ELSE "rejected"] ELSE am
     /\ order' = IF r = "ok" /\ how = "approve" THEN Append(order, i) ELSE order

Next == \/ WriteDefine \/ WriteHld \/ WriteSpec \/ WriteSolo
        \/ \E s \in Pick(Stories) : WriteLld(s) \/ WritePlan(s)
        \/ \E k \in Pick(Kinds), how \in Pick({"approve", "approve", "not good", ""}) : Decide(k[1], k[2], how)
        \/ \E dup \in Pick(BOOLEAN) : AppendStory(dup)
        \/ \E s \in Pick(Stories), b \in Pick(BOOLEAN) : Ack(s, b)
        \/ \E h \in Pick({"new", "reuse", "decided"}) : Propose(h)
        \/ \E i \in Pick(1..(Len(am) + 1)), h \in Pick({"approve", "not good", ""}) : DecideAm(i, h)
\* ---------------------------------------------------------------- what anyone can observe
Vis(d) == [st |-> d.st, reason |-> d.reason]
State == [ docs |-> [D |-> Vis(D), H |-> Vis(H), L |-> [s \in Stories |-> Vis(L[s])], P |-> [s \in Stories |-> Vis(P[s])], S |-> Vis(S), SL |-> Vis(SL)],
           stories |-> D.stories,
           next |-> IF D.st = "absent" THEN None ELSE "s" \o ToString(Len(D.stories) + 1),
           epic |-> ReqEpic, hld |-> ReqHld, spec |-> Cls(S), solo |-> Cls(SL),
           design |-> IF ReqHld = "ok" THEN order ELSE <<>>,
           lld |-> [s \in Stories |-> ReqLld(s)], planUp |-> [s \in Stories |-> PlanUp(s)], plan |-> [s \in Stories |-> Cls(P[s])],
           admit |-> [s \in Stories |-> Admit(s)], stale |-> [s \in Stories |-> Stale(s)],
           stage |-> [epic |-> ReqEpic = "ok", story |-> [s \in Stories |-> StageStory(s)], plan |-> [s \in Stories |-> PlanUp(s) = "ok"], spec |-> Cls(S) = "ok"],
           chain |-> Chain, ams |-> am, order |-> order, counts |-> [p |-> Cardinality(Pending), a |-> Len(order), r |-> Len(am) - Len(order) - Cardinality(Pending)] ]
Full == [D |-> D, H |-> H, L |-> L, P |-> P, S |-> S, SL |-> SL, am |-> am, order |-> order]
\* ---------------------------------------------------------------- properties
One == {"s1"}
Two == {"s1", "s2"}
AllActs == {"WriteDefine", "WriteHld", "WriteLld", "WritePlan", "WriteSpec", "Decide", "AppendStory", "Ack", "Propose", "DecideAm"}
GateActs == {"WriteDefine", "WriteHld", "WriteLld", "WritePlan", "Decide"}
DocActs == {"WriteDefine", "WriteHld", "WriteSpec", "Decide", "AppendStory"}
AmActs == {"Propose", "DecideAm"}
StaleActs == {"WriteHld", "WriteLld", "Decide", "Ack", "Propose", "DecideAm"}
BuildActs == {"WriteHld", "WriteLld", "WritePlan", "Decide", "Propose", "DecideAm"}
\* nothing downstream is admitted unless what it builds on is approved right now
NoUnapproved == \A s \in Stories :
   /\ PlanUp(s) = "ok" => D.st = "approved" /\ H.st = "approved" /\ L[s].st = "approved"
   /\ Admit(s) = "admitted" => P[s].st = "approved"
   /\ ReqLld(s) = "ok" => L[s].st = "approved" /\ (L[s].ack \/ (L[s].run = H.run /\ L[s].ams = order))
RejectRevokes == [][ act'.name = "Decide" /\ act'.res = "ok" /\ act'.how # "approve" => (act'.k = "D" => ReqEpic' # "ok") /\ (act'.k = "H" => ReqHld' # "ok") /\ (\A s \in Stories : act'.k = "L" /\ act'.s = s => ReqLld(s)' # "ok") ]_vars
DecidedOnce == [][ \A i \in 1..Len(am) : am[i] # "pending" => am'[i] = am[i] ]_vars
OrderIsApproval == Range2(order) = { i \in 1..Len(am) : am[i] = "approved" } /\ \A i, j \in 1..Len(order) : i # j => order[i] # order[j]
OrderGrows == [][ IsPrefix(order, order') ]_vars
StoriesUnique == \A i, j \in 1..Len(D.stories) : i # j => D.stories[i] # D.stories[j]
ChainSound == LET c == Chain IN
   /\ c[1] \in {"run-lld", "approve-lld", "refresh-stale", "push-tracker"} => D.st = "approved" /\ H.st = "approved" /\ Pending = {}
   /\ c[1] = "push-tracker" => \A i \in 1..Len(D.stories) : D.stories[i] \in Stories /\ L[D.stories[i]].st = "approved"
=============================================================================
