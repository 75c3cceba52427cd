---------------------------- MODULE TrackerPush ----------------------------
\* Approvals that push an epic, its stories and their tasks to an issue tracker which may fail at any call (W11).
EXTENDS Common
CONSTANTS Stories, Tasks,   \* story ids; the task ids of every plan, in order
          Fails,            \* what may go wrong during one approval
          Confs,            \* tracker configurations the user may choose
          Marks,            \* what people make of an issue: "closed" | "blocked" | "in-progress" | "open"
          Acts
VARIABLES conf,   \* "tasks" | "github" | "plain" (artifacts are not checked in) | "none" | "broken" (asked for, but without a repository to target)
          D,      \* the definition: the epic's issue and its stories' issues as recorded there
          H,      \* the epic design: [st, ref]
          L, P,   \* per story: design [st, ref], plan [st, refs]
          gh,     \* the tracker: sequence of [what, of, id, linked, listed, mark], an issue's number is its position
          act
vars == <<conf, D, H, L, P, gh, act>>
On(a) == a \in Acts
Init == /\ conf \in {"tasks"}
        /\ D = [epic |-> 0, stories |-> EmptyFn, sync |-> EmptyFn]
        /\ H = [st |-> "draft", ref |-> 0]
        /\ L = [s \in Stories |-> [st |-> "draft", ref |-> 0]]
        /\ P = [s \in Stories |-> [st |-> "draft", refs |-> EmptyFn]]
        /\ gh = <<>>
        /\ act = [name |-> "Init"]
Issue(what, of, id, linked, listed) == [what |-> what, of |-> of, id |-> id, linked |-> linked, listed |-> listed, mark |-> "open"]
Working == conf \in {"tasks", "github", "plain"}
Is(fail, c) == fail.c = c
\* what was checked in is what the artifacts say in the end, references included
CheckedIn(fail) == IF conf \notin {"tasks", "github"} \/ Is(fail, "git") THEN "no" ELSE "current"
A(name, args, status) == act' = [name |-> name] @@ args @@ [res |-> [approved |-> TRUE, push |-> status, checkedIn |-> CheckedIn(args.fail)]]
Quiet == UNCHANGED <<conf, D, H, L, P>>
Epics == { i \in 1..Len(gh) : gh[i].what = "epic" }

ApproveEpic(fail) == LET
    found == IF D.epic # 0 THEN D.epic ELSE IF Epics # {} /\ ~Is(fail, "list") THEN Max(Epics) ELSE 0
    stop == H.ref # 0 \/ ~Working \/ Is(fail, "auth")
    made == ~stop /\ found = 0 /\ ~Is(fail, "create")
    ref == IF made THEN Len(gh) + 1 ELSE found
  IN
  /\ On("Epic")
  /\ H' = [st |-> "approved", ref |-> IF stop THEN H.ref ELSE ref]
  /\ D' = IF stop \/ ref = 0 THEN D ELSE [D EXCEPT !.epic = ref]
  /\ gh' = IF made THEN Append(gh, Issue("epic", 0, None, FALSE, TRUE)) ELSE gh
  /\ UNCHANGED <<conf, L, P>>
  /\ A("ApproveEpic", [fail |-> fail], IF H.ref # 0 THEN "already-exists" ELSE IF stop THEN "skipped" ELSE IF made THEN "created" ELSE IF ref = 0 THEN "failed" ELSE "already-exists")

ApproveStory(s, fail) == LET
    known == Get(D.stories, s, 0)
    has == L[s].ref # 0
    stop == has \/ ~Working \/ Is(fail, "auth") \/ D.epic = 0
    made == ~stop /\ known = 0 /\ ~Is(fail, "create")
    ref == IF made THEN Len(gh) + 1 ELSE known
  IN
  /\ On("Story")
  /\ L' = [L EXCEPT ![s] = [st |-> "approved", ref |-> IF stop THEN @.ref ELSE ref]]
  /\ D' = IF stop \/ ref = 0 THEN D ELSE [D EXCEPT !.stories = Put(@, s, ref)]
  /\ gh' = IF made THEN Append(gh, Issue("story", D.epic, s, ~Is(fail, "link"), ~Is(fail, "body") /\ gh[D.epic].listed)) ELSE gh
  /\ UNCHANGED <<conf, H, P>>
  /\ A("ApproveStory", [s |-> s, fail |-> fail], IF has THEN "already-exists" ELSE IF stop THEN "skipped" ELSE IF made THEN "created" ELSE IF ref = 0 THEN "failed" ELSE "already-exists")

\* the tasks still without an issue, in the order of the plan; the fail.k-th creation of this approval fails
ApprovePlan(s, fail) == LET
    parent == IF Get(D.stories, s, 0) # 0 THEN D.stories[s] ELSE L[s].ref
    stop == conf # "tasks" \/ Is(fail, "auth") \/ parent = 0
    todo == SelectSeq(Tasks, LAMBDA t : Get(P[s].refs, t, 0) = 0)
    n == IF stop THEN 0 ELSE IF Is(fail, "create") THEN Min({Len(todo), fail.k - 1}) ELSE Len(todo)
    short == ~stop /\ n < Len(todo)
  IN
  /\ On("Plan")
  /\ P' = [P EXCEPT ![s] = [st |-> "approved", refs |-> [t \in DOMAIN @.refs \cup { todo[i] : i \in 1..n } |-> IF t \in DOMAIN @.refs THEN @.refs[t] ELSE Len(gh) + (CHOOSE i \in 1..n : todo[i] = t)]]]
  /\ gh' = gh \o [i \in 1..n |-> Issue("task", parent, <<s, todo[i]>>, ~Is(fail, "link"), FALSE)]
  /\ UNCHANGED <<conf, D, H, L>>
  /\ A("ApprovePlan", [s |-> s, fail |-> fail], IF stop THEN "skipped" ELSE IF short THEN "failed" ELSE IF n > 0 THEN "created" ELSE "already-exists")

\* A stage is produced again: a new draft that knows nothing of the tracker. (A new plan has new tasks: not modelled.)
Redo(k, s) == /\ On("Redo")
  /\ (IF k = "H" THEN (H.st = "approved" /\ H' = [st |-> "draft", ref |-> 0] /\ UNCHANGED L) ELSE (L[s].st = "approved" /\ L' = [L EXCEPT ![s] = [st |-> "draft", ref |-> 0]] /\ UNCHANGED H))
  /\ UNCHANGED <<conf, D, P, gh>>
  /\ act' = [name |-> "Redo", k |-> k, s |-> s, res |-> "ok"]
Reject(k, s) == /\ On("Reject")
  /\ (IF k = "H" THEN (H.st = "approved" /\ H' = [H EXCEPT !.st = "rejected"] /\ UNCHANGED <<L, P>>)
      ELSE IF k = "L" THEN (L[s].st = "approved" /\ L' = [L EXCEPT ![s].st = "rejected"] /\ UNCHANGED <<H, P>>)
      ELSE (P[s].st = "approved" /\ P' = [P EXCEPT ![s].st = "rejected"] /\ UNCHANGED <<H, L>>))
  /\ UNCHANGED <<conf, D, gh>>
  /\ act' = [name |-> "Reject", k |-> k, s |-> s, res |-> "ok"]
\* somebody files the epic by hand, labelled as the tool would
ByHand == /\ On("ByHand") /\ Epics = {} /\ Working
          /\ gh' = Append(gh, Issue("epic", 0, None, FALSE, FALSE)) /\ Quiet
          /\ act' = [name |-> "ByHand", res |-> "ok"]
Mark(i, m) == /\ On("Sync") /\ i \in DOMAIN gh /\ gh[i].mark # m /\ gh' = [gh EXCEPT ![i].mark = m] /\ Quiet
              /\ act' = [name |-> "Mark", i |-> i, m |-> m, res |-> "ok"]
Sync(fail) == LET stop == D.epic = 0 \/ ~Working \/ Is(fail, "auth")  bad == fail.c = "view" /\ fail.k <= 1 + Cardinality(DOMAIN D.stories) IN
  /\ On("Sync")
  /\ D' = IF stop \/ bad THEN D ELSE [D EXCEPT !.sync = Put([s \in DOMAIN D.stories |-> gh[D.stories[s]].mark], "epic", gh[D.epic].mark)]
  /\ UNCHANGED <<conf, H, L, P, gh>>
  /\ act' = [name |-> "Sync", fail |-> fail, res |-> IF stop THEN "skipped" ELSE IF bad THEN "failed" ELSE "synced"]
Configure(c) == /\ conf' = c /\ c # conf /\ UNCHANGED <<D, H, L, P, gh>>
                /\ act' = [name |-> "Configure", c |-> c, res |-> "ok"]
Next == \/ \E f \in Pick(Fails) : ApproveEpic(f)
        \/ \E s \in Pick(Stories), f \in Pick(Fails) : ApproveStory(s, f)
        \/ \E s \in Pick(Stories), f \in Pick(Fails) : ApprovePlan(s, f)
        \/ \E s \in Pick(Stories) : Redo("L", s)
        \/ Redo("H", None)
        \/ \E s \in Pick(Stories), k \in Pick({"L", "P"}) : Reject(k, s)
        \/ Reject("H", None)
        \/ ByHand
        \/ \E i \in 1..3, m \in Pick(Marks) : Mark(i, m)
        \/ \E f \in Pick(Fails) : Sync(f)
        \/ \E c \in Pick(Confs) : Configure(c)
Spec == Init /\ [][Next]_vars
State == [D |-> D, H |-> H, L |-> L, P |-> P, gh |-> gh]
Full == [conf |-> conf, D |-> D, H |-> H, L |-> L, P |-> P, gh |-> gh]
-----------------------------------------------------------------------------
OneStory == {"s1"}
TwoStories == {"s1", "s2"}
TwoTasks == <<"t1", "t2">>
ThreeTasks == <<"t1", "t2", "t3">>
F(c) == [c |-> c, k |-> 1]
NoFail == {F("none")}
SomeFails == {F("none"), F("auth"), F("create"), [c |-> "create", k |-> 2]}
AllFails == SomeFails \cup {F("list"), F("label"), F("typed"), F("link"), F("body"), F("comment"), F("milestone"), F("git"), [c |-> "create", k |-> 3]}
SyncFails == {F("none"), F("auth"), F("view"), [c |-> "view", k |-> 2], [c |-> "view", k |-> 3]}
AllConfs == {"tasks", "github", "plain", "none", "broken"}
AllActs == {"Epic", "Story", "Plan", "Redo", "Reject", "ByHand", "Sync"}
RedoActs == AllActs \ {"Sync"}
SyncActs == {"Epic", "Story", "Sync"}
PushActs == {"Epic", "Story", "Plan", "Reject"}
-----------------------------------------------------------------------------
\* No story and no task ever has two issues; the epic only if someone made one by hand behind the tool's back.
OneEach == \A i, j \in 1..Len(gh) : (i # j /\ gh[i].what # "epic") => <<gh[i].what, gh[i].id>> # <<gh[j].what, gh[j].id>>
OneEpic == ~On("ByHand") => Cardinality(Epics) <= 1
\* Every recorded reference is to the issue of that very thing, and every issue the tool made is recorded.
Refs == /\ D.epic # 0 => gh[D.epic].what = "epic"
        /\ \A s \in DOMAIN D.stories : gh[D.stories[s]].what = "story" /\ gh[D.stories[s]].id = s
        /\ \A s \in Stories : L[s].ref # 0 => L[s].ref = Get(D.stories, s, 0)
        /\ \A s \in Stories : \A t \in DOMAIN P[s].refs : gh[P[s].refs[t]].id = <<s, t>>
Recorded == \A i \in 1..Len(gh) : CASE gh[i].what = "story" -> Get(D.stories, gh[i].id, 0) = i [] gh[i].what = "task" -> Get(P[gh[i].id[1]].refs, gh[i].id[2], 0) = i [] OTHER -> TRUE
\* Hierarchy: a story is pushed under the epic's issue, a task under its story's.
Under == \A i \in 1..Len(gh) : CASE gh[i].what = "story" -> gh[i].of \in 1..(i-1) /\ gh[gh[i].of].what = "epic" [] gh[i].what = "task" -> gh[i].of \in 1..(i-1) /\ gh[gh[i].of].id = gh[i].id[1] [] OTHER -> TRUE
\* Whatever fails, the approval stands.
Stands == [][act'.name = "ApproveEpic" => H'.st = "approved"]_vars
Grows == [][Len(gh') >= Len(gh) /\ \A i \in DOMAIN gh : [gh'[i] EXCEPT !.mark = gh[i].mark] = gh[i]]_vars
=============================================================================
