------------------------------ MODULE Executor ------------------------------
\* The multi-step workflow executor (src/workflow/executor.ts). The client holds the paused
\* run states it was given; it may resume any of them, in any order, and more than once.
\* A run state is a value: resuming never changes the state that was resumed from.
EXTENDS Common
CONSTANTS N,          \* number of steps of the plan
          Plans,      \* subset of {"plain", "norunner", "badref", "nofinalize", "index"}
          MaxHeld, MaxTick
VARIABLES plan, held, act
vars == <<plan, held, act>>

Outcomes == {"outA", "outB", "pause", "errR", "errF", "throw"}
FinOutcomes == {"outA", "outB", "pause", "errR", "errF"}
Val(o) == IF o = "outA" THEN "A" ELSE "B"
IsOut(o) == o \in {"outA", "outB"}

\* parameters step i is given: a literal, the value of the previous step, the value of step 1 (nested), the whole output of the previous step
ParamsOf(i, outs) == [me |-> i, prev |-> IF i > 1 THEN outs[i-1] ELSE "lit", first |-> IF i > 1 THEN outs[1] ELSE "lit"]
Inv(i, kind, outs) == [step |-> i, kind |-> kind, params |-> ParamsOf(i, outs), done |-> outs]

Res(type, inv, step, code, retry, outs) == [type |-> type, inv |-> inv, step |-> step, code |-> code, retry |-> retry, outs |-> outs]

\* run the steps from i on with the outcomes oc; used = how many outcomes were consumed
RECURSIVE RunFrom(_, _, _, _, _)
RunFrom(i, outs, oc, used, inv) ==
  IF i > N THEN [used |-> used, r |-> Res("complete", inv, 0, None, FALSE, outs), hold |-> <<>>]
  ELSE IF plan = "badref" /\ i = 2 THEN [used |-> used, r |-> Res("throws", inv, 0, None, FALSE, <<>>), hold |-> <<>>]
  ELSE IF plan = "norunner" /\ i = 2 THEN [used |-> used, r |-> Res("error", inv, i, "no-runner", FALSE, <<>>), hold |-> <<>>]
  ELSE IF used >= Len(oc) THEN [used |-> Len(oc) + 1, r |-> Res("short", inv, 0, None, FALSE, <<>>), hold |-> <<>>]
  ELSE LET o == oc[used + 1]
           inv2 == Append(inv, Inv(i, "run", outs))
       IN IF IsOut(o) THEN RunFrom(i + 1, Append(outs, Val(o)), oc, used + 1, inv2)
          ELSE IF o = "pause" THEN [used |-> used + 1, r |-> Res("paused", inv2, i, None, FALSE, outs), hold |-> <<[next |-> i, outs |-> outs, turns |-> 1]>>]
          ELSE IF o = "throw" THEN [used |-> used + 1, r |-> Res("error", inv2, i, "runner-threw", FALSE, <<>>), hold |-> <<>>]
          ELSE [used |-> used + 1, r |-> Res("error", inv2, i, "bad", o = "errR", <<>>), hold |-> <<>>]

Resumed(h, oc) ==
  LET i == h.next
      inv2 == <<Inv(i, "finalize", h.outs)>>
      o == oc[1]
  IN IF plan = "nofinalize" THEN [used |-> 1, r |-> Res("error", <<>>, i, "bad-runner", FALSE, <<>>), hold |-> <<>>]
     ELSE IF o = "pause" THEN [used |-> 1, r |-> Res("paused", inv2, i, None, FALSE, h.outs), hold |-> <<[next |-> i, outs |-> h.outs, turns |-> h.turns + 1]>>]
     ELSE IF IsOut(o) THEN RunFrom(i + 1, Append(h.outs, Val(o)), oc, 1, inv2)
     ELSE [used |-> 1, r |-> Res("error", inv2, i, "bad", o = "errR", <<>>), hold |-> <<>>]

Seqs(k) == UNION { [1..m -> Outcomes] : m \in 0..k }

Init == plan \in Plans /\ held = <<>> /\ act = [name |-> "Init"]

Do(name, k, oc, x) ==
  /\ x.used = Len(oc)
  /\ act' = [name |-> name, k |-> k, oc |-> oc, res |-> x.r]
  /\ held' = held \o x.hold
  /\ UNCHANGED plan

Start(oc) == Len(held) < MaxHeld /\ Do("Start", 0, oc, RunFrom(1, <<>>, oc, 0, <<>>))
Resume(k, oc) == Len(held) < MaxHeld /\ oc # <<>> /\ oc[1] \in FinOutcomes /\ held[k].turns < 3 /\ Do("Resume", k, oc, Resumed(held[k], oc))
\* resuming a run that is not paused is refused
ResumeUnpaused == act' = [name |-> "ResumeUnpaused", res |-> [type |-> "error", code |-> "bad-resume", retry |-> FALSE]] /\ UNCHANGED <<plan, held>>
\* a state whose pause does not belong to the step the run is at is refused
ResumeForeign(k) == act' = [name |-> "ResumeForeign", k |-> k, res |-> [type |-> "error", code |-> "bad-resume", retry |-> FALSE]] /\ UNCHANGED <<plan, held>>

Next == \/ \E oc \in Pick(Seqs(MaxTick)) : Start(oc)
        \/ \E k \in 1..Len(held), oc \in Pick(Seqs(MaxTick)) : Resume(k, oc)
        \/ ResumeUnpaused
        \/ \E k \in 1..Len(held) : ResumeForeign(k)

State == [plan |-> plan, held |-> held]
Full == State
\* --- properties
HeldWellFormed == \A k \in 1..Len(held) : held[k].next = Len(held[k].outs) + 1
\* a paused state never re-runs completed steps: every invocation made on resume is at or after the paused step, in order, once each
ResumeOrder == [][ act'.name = "Resume" =>
   LET inv == act'.res.inv IN
   /\ \A j \in 1..Len(inv) : inv[j].step = held[act'.k].next + (j - 1)
   /\ \A j \in 1..Len(inv) : inv[j].kind = IF j = 1 THEN "finalize" ELSE "run" ]_vars
StartOrder == [][ act'.name = "Start" => \A j \in 1..Len(act'.res.inv) : act'.res.inv[j].step = j /\ act'.res.inv[j].kind = "run" ]_vars
Immutable == [][ IsPrefix(held, held') ]_vars
CompleteIffAll == [][ act'.name \in {"Start", "Resume"} /\ act'.res.type = "complete" => Len(act'.res.outs) = N ]_vars
=============================================================================
