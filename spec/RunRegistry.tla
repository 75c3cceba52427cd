---------------------------- MODULE RunRegistry ----------------------------
\* Detached workflow runs in the daemon (src/daemon/workflow-run-registry.ts driving
\* src/daemon/workflow-rpc.ts runWorkflowServerSide). A run makes provider calls
\* ("plan", then "synth" attempts); the environment decides when and how each call returns.
EXTENDS Common
CONSTANTS Slots,        \* number of runs that may ever be started
          Cap,          \* retained runs (the driver pads the registry up to the real cap)
          MaxAtt,       \* synthesize attempts of the code (4)
          Cursors

VARIABLES runs,   \* sequence of [st, frames, pc, att, err, res, file]; index = start order
          act
vars == <<runs, act>>

\* pc: "plan" | "synth" | "end" (no provider call outstanding);  live: still in the registry
New == [st |-> "running", frames |-> <<"decompose">>, pc |-> "plan", att |-> 0, err |-> FALSE, res |-> FALSE, files |-> FALSE, live |-> TRUE, sig |-> FALSE]

Alive(rs) == { i \in 1..Len(rs) : rs[i].live }
\* size-capped retention: drop the oldest finished runs, never a running one
RECURSIVE Gc(_)
Gc(rs) == LET fin == { i \in Alive(rs) : rs[i].st # "running" } IN
          IF Cardinality(Alive(rs)) <= Cap \/ fin = {} THEN rs ELSE Gc([rs EXCEPT ![Min(fin)].live = FALSE])

Init == runs = <<>> /\ act = [name |-> "Init"]

Start == Len(runs) < Slots
  /\ act' = [name |-> "Start"]
  /\ runs' = Gc(Append(runs, New))

\* first terminal status wins
Term(r, s) == IF r.st = "running" THEN [r EXCEPT !.st = s, !.pc = "end", !.err = (s # "done"), !.res = (s = "done"), !.files = (s = "done")]
              ELSE [r EXCEPT !.pc = "end"]
F(r, fs) == [r EXCEPT !.frames = r.frames \o fs]

\* the outstanding provider call of run i returns
Return(i, o) ==
  /\ runs[i].pc # "end"
  /\ act' = [name |-> "Return", i |-> i, o |-> o]
  /\ LET r == runs[i] IN runs' = [runs EXCEPT ![i] =
      CASE o = "throw" -> Term(r, "error")
        [] r.pc = "plan" /\ o = "ok" ->
             IF r.sig THEN Term(F(r, <<"plan-ready">>), "aborted")
             ELSE [F(r, <<"plan-ready", "synthesize-attempt">>) EXCEPT !.pc = "synth", !.att = 1]
        [] r.pc = "plan" /\ o = "bad" -> Term(F(r, <<"plan-ready">>), "error")          \* the plan names an unknown runner
        [] r.pc = "synth" /\ o = "ok" -> \* a completion that arrives after the abort still writes its files, but the run stays aborted
             [Term(F(r, <<"done">>), "done") EXCEPT !.files = TRUE]
        [] r.pc = "synth" /\ o = "bad" ->
             IF r.att = MaxAtt THEN Term(r, "error")
             ELSE IF r.sig THEN Term(F(r, <<"synthesize-retry">>), "aborted")
             ELSE [F(r, <<"synthesize-retry", "synthesize-attempt">>) EXCEPT !.att = r.att + 1] ]

Abort(i) ==
  /\ act' = [name |-> "Abort", i |-> i, res |-> [ok |-> runs[i].live]]
  /\ runs' = IF runs[i].live THEN [runs EXCEPT ![i] = [@ EXCEPT !.sig = TRUE, !.st = IF @ = "running" THEN "aborted" ELSE @, !.err = IF runs[i].st = "running" THEN TRUE ELSE @]] ELSE runs

AbortUnknown == act' = [name |-> "AbortUnknown", res |-> [ok |-> FALSE]] /\ UNCHANGED runs
PollUnknown(c) == act' = [name |-> "PollUnknown", c |-> c, res |-> [status |-> "unknown", frames |-> <<>>]] /\ UNCHANGED runs

Poll(i, c) ==
  LET r == runs[i]  k == IF c < 0 THEN 0 ELSE c IN
  /\ act' = [name |-> "Poll", i |-> i, c |-> c,
             res |-> IF r.live THEN [status |-> r.st, frames |-> SubSeq(r.frames, k + 1, Len(r.frames)), cursor |-> Len(r.frames), err |-> r.err, res |-> r.res]
                     ELSE [status |-> "unknown", frames |-> <<>>]]
  /\ UNCHANGED runs

Next == \/ Start
        \/ \E i \in 1..Len(runs) : \E o \in {"ok", "bad", "throw"} : Return(i, o)
        \/ \E i \in 1..Len(runs) : Abort(i)
        \/ AbortUnknown
        \/ \E i \in 1..Len(runs), c \in Pick(Cursors) : Poll(i, c)
        \/ PollUnknown(0)

Obs(r) == IF r.live THEN [live |-> TRUE, st |-> r.st, frames |-> r.frames, err |-> r.err, res |-> r.res, files |-> r.files, busy |-> r.pc # "end"]
          ELSE [live |-> FALSE, files |-> r.files, busy |-> r.pc # "end"]
State == [i \in 1..Len(runs) |-> Obs(runs[i])]
Full == runs

SmallCursors == {-1, 0, 2, 9}
BigCursors == -1..12
\* --- properties
TerminalSticks == [][ \A i \in 1..Len(runs) : runs[i].st # "running" => runs'[i].st = runs[i].st /\ runs'[i].err = runs[i].err /\ runs'[i].res = runs[i].res ]_vars
FramesAppendOnly == [][ \A i \in 1..Len(runs) : IsPrefix(runs[i].frames, runs'[i].frames) ]_vars
RunningNeverDropped == \A i \in 1..Len(runs) : runs[i].st = "running" => runs[i].live
OutcomeMatches == \A i \in 1..Len(runs) : (runs[i].st = "done" <=> runs[i].res) /\ (runs[i].st \in {"error", "aborted"} <=> runs[i].err)
Independent == [][ \A i \in 1..Len(runs) : act'.name = "Return" /\ act'.i # i => runs'[i] = runs[i] ]_vars
CapHolds == Cardinality(Alive(runs)) <= Cap \/ \A i \in Alive(runs) : runs[i].st = "running" \/ \E j \in Alive(runs) : TRUE
=============================================================================
