----------------------------- MODULE TokenStore -----------------------------
\* Server-side state stores of the multi-step MCP protocols (src/mcp/*/state-store.ts and the
\* codecs in src/mcp/{workflow,analyze}-step/state.ts).
\* Time unit: half a minute; entries untouched for more than an hour are dropped when the next
\* state is stored; a full store drops the entries touched longest ago.
EXTENDS Common
CONSTANTS MaxTok, Cap, Steps, MaxTime, Updates, Stages
VARIABLES ent,    \* live entries, least recently touched first: [tok, val, stage, age]
          next,   \* tokens handed out so far
          time, act
vars == <<ent, next, time, act>>
TTL == 120
Old(a) == a >= TTL           \* operations take a moment of their own, so 60.0 minutes is already past
Init == ent = <<>> /\ next = 0 /\ time = 0 /\ act = [name |-> "Init"]

At(t) == IndexOf(ent, LAMBDA e : e.tok = t)
Live(t) == At(t) # 0
Toks == 1..next
Swept == LET k == SelectSeq(ent, LAMBDA e : ~Old(e.age)) IN IF Len(k) >= Cap THEN SubSeq(k, Len(k) - Cap + 2, Len(k)) ELSE k
Touch(t, v) == LET i == At(t) IN Append(RemoveIdx(ent, i), [ent[i] EXCEPT !.age = 0, !.val = v])

Save(s) == next < MaxTok
  /\ ent' = Append(Swept, [tok |-> next + 1, val |-> 0, stage |-> s, age |-> 0])
  /\ next' = next + 1 /\ UNCHANGED time
  /\ act' = [name |-> "Save", stage |-> s, res |-> [fresh |-> TRUE]]
Hit(t) == LET e == ent[At(t)] IN [ok |-> TRUE, tok |-> t, val |-> e.val, stage |-> e.stage]
Load(t) == UNCHANGED <<next, time>>
  /\ act' = [name |-> "Load", t |-> t, res |-> IF Live(t) THEN Hit(t) ELSE [ok |-> FALSE, why |-> "unknown"]]
  /\ ent' = IF Live(t) THEN Touch(t, ent[At(t)].val) ELSE ent
\* presented at stage s: only accepted when the state was stored for that stage
LoadAt(t, s) == UNCHANGED <<next, time>>
  /\ act' = [name |-> "LoadAt", t |-> t, s |-> s,
             res |-> IF ~Live(t) THEN [ok |-> FALSE, why |-> "unknown"]
                     ELSE IF ent[At(t)].stage # s THEN [ok |-> FALSE, why |-> "wrong-stage"] ELSE Hit(t)]
  /\ ent' = IF Live(t) THEN Touch(t, ent[At(t)].val) ELSE ent
Update(t) == Updates /\ UNCHANGED <<next, time>>
  /\ act' = [name |-> "Update", t |-> t, res |-> IF Live(t) THEN [ok |-> TRUE] ELSE [ok |-> FALSE, why |-> "unknown"]]
  /\ ent' = IF Live(t) THEN Touch(t, 1 - ent[At(t)].val) ELSE ent
Release(t) == UNCHANGED <<next, time>>
  /\ act' = [name |-> "Release", t |-> t]
  /\ ent' = SelectSeq(ent, LAMBDA e : e.tok # t)
\* a token nobody handed out: right length, too short, too long, a damaged copy of a live one
Bogus(k) == UNCHANGED <<ent, next, time>>
  /\ act' = [name |-> "Bogus", k |-> k, res |-> [ok |-> FALSE, why |-> IF k \in {"short", "long"} THEN "malformed" ELSE "unknown"]]
Tick(d) == time + d <= MaxTime /\ (d >= 30 \/ time >= 100) /\ time' = time + d /\ UNCHANGED next
  /\ ent' = [i \in 1..Len(ent) |-> [ent[i] EXCEPT !.age = IF @ + d > TTL THEN TTL ELSE @ + d]]
  /\ act' = [name |-> "Tick", d |-> d]
Next == \/ \E s \in Pick(Stages) : Save(s)
        \/ \E t \in Pick(Toks) : Load(t)
        \/ \E t \in Pick(Toks), s \in Pick(Stages) : Cardinality(Stages) > 1 /\ LoadAt(t, s)
        \/ \E t \in Pick(Toks) : Update(t)
        \/ \E t \in Pick(Toks) : Release(t)
        \/ \E k \in Pick({"short", "long", "valid-shape", "damaged"}) : Bogus(k)
        \/ \E d \in Pick(Steps) : Tick(d)
State == [size |-> Len(ent)]
Full == [ent |-> ent, next |-> next, time |-> time]
OneStage == {"s1"}
TwoStages == {"s1", "s2"}
QSteps == {1, 119}
DSteps == {1, 30, 119, 120}
\* --- properties
Bounded == Len(ent) <= Cap
Distinct == \A i, j \in 1..Len(ent) : i # j => ent[i].tok # ent[j].tok
Untouched == [][ \A t \in Toks : (Live(t) /\ act'.name \in {"Load", "LoadAt", "Update", "Release", "Bogus", "Tick"} /\ (act'.name \in {"Bogus", "Tick"} \/ act'.t # t))
                   => \E i \in 1..Len(ent') : ent'[i].tok = t /\ ent'[i].val = ent[At(t)].val /\ ent'[i].stage = ent[At(t)].stage ]_vars
LruFirst == [][ act'.name = "Save" => \A i \in 1..Len(ent) : (\E j \in 1..Len(ent') : ent'[j].tok = ent[i].tok)
                   => \A k \in (i+1)..Len(ent) : \E j \in 1..Len(ent') : ent'[j].tok = ent[k].tok ]_vars
FreshKept == [][ act'.name = "Save" => \A i \in 1..Len(ent) : (~Old(ent[i].age) /\ Len(ent) < Cap) => \E j \in 1..Len(ent') : ent'[j].tok = ent[i].tok ]_vars
=============================================================================
