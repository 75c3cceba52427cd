---------------------------- MODULE StepProtocol ----------------------------
\* The controller-driven workflow protocol insrc_workflow_step (src/mcp/workflow-step): the client
\* holds opaque tokens; every token was issued for one phase of one run.
EXTENDS Common
CONSTANTS MaxRuns, MaxToks
VARIABLES runs,   \* per run: TRUE once its artifact is on disk
          toks,   \* every token ever issued: [run, stage, turn, live]
          act
vars == <<runs, toks, act>>
Init == runs = <<>> /\ toks = <<>> /\ act = [name |-> "Init"]
Room == Len(toks) < MaxToks
Refused == [next |-> "error", kind |-> "refused"]
Failed(r) == [next |-> "error", kind |-> IF r THEN "retry" ELSE "fatal"]
Usable(t, st) == toks[t].live /\ toks[t].stage = st
Issue(r, st, turn) == toks' = Append(toks, [run |-> r, stage |-> st, turn |-> turn, live |-> TRUE])

Start == Len(runs) < MaxRuns /\ Room
  /\ runs' = Append(runs, FALSE) /\ Issue(Len(runs) + 1, "plan", 0)
  /\ act' = [name |-> "Start", res |-> [next |-> "emit_plan", token |-> Len(toks) + 1]]

\* kinds of plan: runs straight through, pauses once for the client, names another workflow, no steps, unknown runner
Plan(t, k) ==
  /\ (Usable(t, "plan") /\ k \in {"straight", "pausing"}) => Room
  /\ IF ~Usable(t, "plan") THEN UNCHANGED <<runs, toks>> /\ act' = [name |-> "Plan", t |-> t, k |-> k, res |-> Refused]
     ELSE CASE k = "straight" -> Issue(toks[t].run, "synth", 0) /\ UNCHANGED runs /\ act' = [name |-> "Plan", t |-> t, k |-> k, res |-> [next |-> "emit_synthesize", token |-> Len(toks) + 1]]
            [] k = "pausing" -> Issue(toks[t].run, "step", 1) /\ UNCHANGED runs /\ act' = [name |-> "Plan", t |-> t, k |-> k, res |-> [next |-> "emit_step", token |-> Len(toks) + 1, turn |-> 1]]
            [] OTHER -> UNCHANGED <<runs, toks>> /\ act' = [name |-> "Plan", t |-> t, k |-> k, res |-> Failed(FALSE)]

\* the client answers the paused step: a final answer, a further question, an answer the step rejects, an answer to another step
Step(t, k) ==
  /\ (Usable(t, "step") /\ k \in {"answer", "again"}) => Room
  /\ IF ~Usable(t, "step") THEN UNCHANGED <<runs, toks>> /\ act' = [name |-> "Step", t |-> t, k |-> k, res |-> Refused]
     ELSE CASE k = "answer" -> Issue(toks[t].run, "synth", 0) /\ UNCHANGED runs /\ act' = [name |-> "Step", t |-> t, k |-> k, res |-> [next |-> "emit_synthesize", token |-> Len(toks) + 1]]
            [] k = "again" -> Issue(toks[t].run, "step", toks[t].turn + 1) /\ UNCHANGED runs /\ act' = [name |-> "Step", t |-> t, k |-> k, res |-> [next |-> "emit_step", token |-> Len(toks) + 1, turn |-> toks[t].turn + 1]]
            [] k = "reject" -> UNCHANGED <<runs, toks>> /\ act' = [name |-> "Step", t |-> t, k |-> k, res |-> Failed(TRUE)]
            [] OTHER -> UNCHANGED <<runs, toks>> /\ act' = [name |-> "Step", t |-> t, k |-> k, res |-> Failed(FALSE)]

Synth(t, k) ==
  IF ~Usable(t, "synth") THEN UNCHANGED <<runs, toks>> /\ act' = [name |-> "Synth", t |-> t, k |-> k, res |-> Refused]
  ELSE IF k = "good" THEN /\ runs' = [runs EXCEPT ![toks[t].run] = TRUE]
                          /\ toks' = [toks EXCEPT ![t].live = FALSE]
                          /\ act' = [name |-> "Synth", t |-> t, k |-> k, res |-> [next |-> "done", run |-> toks[t].run]]
  ELSE UNCHANGED <<runs, toks>> /\ act' = [name |-> "Synth", t |-> t, k |-> k, res |-> Failed(TRUE)]

\* requests that belong to no run
Bogus(k) == UNCHANGED <<runs, toks>> /\ act' = [name |-> "Bogus", k |-> k, res |-> IF k \in {"phase", "shape"} THEN Failed(FALSE) ELSE Refused]

Next == \/ Start
        \/ \E t \in Pick(1..Len(toks)), k \in Pick({"straight", "pausing", "mismatch", "empty", "badrunner"}) : Plan(t, k)
        \/ \E t \in Pick(1..Len(toks)), k \in Pick({"answer", "again", "reject", "otherstep"}) : Step(t, k)
        \/ \E t \in Pick(1..Len(toks)), k \in Pick({"good", "bad"}) : Synth(t, k)
        \/ \E k \in Pick({"phase", "shape", "plan", "step", "synth"}) : Bogus(k)
State == runs
Full == [runs |-> runs, toks |-> toks]
\* --- properties
OnlyOwnPhase == [][ act'.name \in {"Plan", "Step", "Synth"} /\ act'.res.next # "error" =>
    toks[act'.t].live /\ toks[act'.t].stage = CASE act'.name = "Plan" -> "plan" [] act'.name = "Step" -> "step" [] OTHER -> "synth" ]_vars
RefusalIsNoop == [][ act'.name # "Init" /\ "res" \in DOMAIN act' /\ act'.res.next = "error" => UNCHANGED <<runs, toks>> ]_vars
ArtifactOnlyBySynth == [][ \A r \in 1..Len(runs) : runs[r] # runs'[r] => act'.name = "Synth" /\ toks[act'.t].run = r ]_vars
OthersUntouched == [][ \A t \in 1..Len(toks) : toks[t] # toks'[t] => act'.name = "Synth" /\ act'.t = t ]_vars
=============================================================================
