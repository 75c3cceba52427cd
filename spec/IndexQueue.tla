----------------------------- MODULE IndexQueue -----------------------------
\* The daemon's index job queue (src/daemon/queue.ts).
\* One action per external event: a submission, the end (ok or failed) of the job being
\* processed, stopping and (re)starting the drain loop.
EXTENDS Common
CONSTANTS Labels,    \* job alphabet: records [k, key, ev]
          MaxPend, Bursts

VARIABLES pend,      \* waiting jobs, in order
          run,       \* <<>> or <<job being processed>>
          up,        \* drain loop not asked to stop
          loop,      \* drain loop exists (it may still be finishing its last job after stop)
          act
vars == <<pend, run, up, loop, act>>

\* Alphabets (concretised by the driver)
J(k, key, ev) == [k |-> k, key |-> key, ev |-> ev]
Small == { J("full", "A", "-"), J("full", "B", "-"), J("file", "p", "update"), J("file", "p", "delete"), J("file", "q", "create"),
           J("config-file", "p", "update"), J("config-full", "g", "-"), J("config-reindex", "g", "-"),
           J("config-full", "A", "-"), J("config-reindex", "A", "-"), J("doc-summarise-repo", "A", "-"), J("doc-summarise-entity", "e", "-"), J("reembed", "A", "-") }
Big == Small \cup { J("file", "p", "create"), J("file", "q", "delete"), J("config-file", "p", "delete"), J("config-file", "q", "create"),
          J("doc-summarise-repo", "B", "-"), J("doc-summarise-entity", "f", "-"), J("reembed", "B", "-"),
          J("config-full", "B", "-"), J("config-reindex", "B", "-") }

\* What a submission does to the waiting jobs p.
Merged(p, j) ==
  LET same == { i \in 1..Len(p) : p[i].k = j.k /\ p[i].key = j.key }
      has(ks) == \E i \in 1..Len(p) : p[i].k \in ks /\ p[i].key = j.key
  IN
  CASE j.k \in {"full", "doc-summarise-repo", "doc-summarise-entity"} ->
         IF same # {} THEN p ELSE Append(p, j)
    [] j.k \in {"file", "config-file"} ->
         IF same # {} THEN [p EXCEPT ![Min(same)] = j] ELSE Append(p, j)
    [] j.k = "config-full" ->
         IF has({"config-full", "config-reindex"}) THEN p ELSE Append(p, j)
    [] j.k = "config-reindex" ->
         LET kept == SelectSeq(p, LAMBDA x : ~(x.k = "config-full" /\ x.key = j.key)) IN
         IF has({"config-reindex"}) THEN kept ELSE Append(kept, j)
    [] OTHER -> Append(p, j)

\* an idle, running loop takes the next job at once
Settle(p, r) == IF r = <<>> /\ loop' /\ up' /\ p # <<>> THEN pend' = Tail(p) /\ run' = <<Head(p)>> ELSE pend' = p /\ run' = r

Init == pend = <<>> /\ run = <<>> /\ up = TRUE /\ loop = FALSE /\ act = [name |-> "Init"]

Submit(j) ==
  /\ Len(pend) < MaxPend
  /\ act' = [name |-> "Submit", job |-> j]
  /\ UNCHANGED <<up, loop>>
  /\ IF up THEN Settle(Merged(pend, j), run) ELSE UNCHANGED <<pend, run>>   \* a stopped queue accepts nothing

\* two submissions in one synchronous burst: the loop cannot take a job in between
Burst(j1, j2) ==
  /\ Len(pend) + 1 < MaxPend /\ up
  /\ act' = [name |-> "Burst", j1 |-> j1, j2 |-> j2]
  /\ UNCHANGED <<up, loop>>
  /\ Settle(Merged(Merged(pend, j1), j2), run)

Finish(ok) ==
  /\ run # <<>>
  /\ act' = [name |-> "Finish", ok |-> ok]
  /\ UNCHANGED up
  /\ loop' = up
  /\ Settle(pend, <<>>)

Stop ==
  /\ loop /\ up
  /\ act' = [name |-> "Stop"]
  /\ up' = FALSE /\ loop' = (run # <<>>)
  /\ UNCHANGED <<pend, run>>

Start ==
  /\ ~loop
  /\ act' = [name |-> "Start"]
  /\ up' = TRUE /\ loop' = TRUE
  /\ Settle(pend, run)

Next == \/ \E j \in Pick(Labels) : Submit(j)
        \/ \E ok \in BOOLEAN : Finish(ok)
        \/ Stop \/ Start
        \/ Bursts /\ \E j1 \in Pick(Labels), j2 \in Pick(Labels) : Burst(j1, j2)

State == [pend |-> pend, run |-> run, up |-> up, loop |-> loop]
Full == State

\* ---- properties -----------------------------------------------------------
TypeOK == Len(run) <= 1 /\ Range2(run) \subseteq Labels /\ Range2(pend) \subseteq Labels
NoDup == \A i, k \in 1..Len(pend) : i # k /\ pend[i].k # "reembed" => <<pend[i].k, pend[i].key>> # <<pend[k].k, pend[k].key>>
NoSuperseded == ~\E i, k \in 1..Len(pend) : pend[i].k = "config-full" /\ pend[k].k = "config-reindex" /\ pend[i].key = pend[k].key
IdleMeansEmpty == (loop /\ up /\ run = <<>>) => pend = <<>>
\* jobs leave the waiting line from the front only
FifoStep == [][ act'.name = "Finish" /\ up => (IF pend = <<>> THEN run' = <<>> ELSE run' = <<Head(pend)>> /\ pend' = Tail(pend)) ]_vars
RunStable == [][ act'.name \in {"Submit", "Burst"} /\ run # <<>> => run' = run ]_vars
\* no submission makes a waiting job disappear unless a waiting job of the same identity (or a reindex of its scope) remains
InLine(p, r, k, key) == \E i \in 1..Len(p) : p[i].k = k /\ p[i].key = key
NothingLost == [][ act'.name = "Submit" /\ up =>
    \A j \in Range2(pend) : \/ InLine(pend', run', j.k, j.key)
                            \/ j.k = "config-full" /\ InLine(pend', run', "config-reindex", j.key) ]_vars
\* a submission made while the same job is being processed is queued, never absorbed by it
RunningNeverAbsorbs == [][ act'.name = "Submit" /\ up /\ run # <<>> =>
    \/ InLine(pend', run', act'.job.k, act'.job.key)
    \/ act'.job.k = "config-full" /\ InLine(pend', run', "config-reindex", act'.job.key) ]_vars
=============================================================================
