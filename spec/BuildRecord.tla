----------------------------- MODULE BuildRecord -----------------------------
\* The build ledger record of one story (src/workflow/runners/build/standalone-record.ts, mcp/build-step/phases/{validate,implement}.ts)
\* and the decisions stamped on it (src/workflow/gates.ts).
EXTENDS Common
CONSTANTS Tasks, Batches
VARIABLES r, act
vars == <<r, act>>
Absent == [is |-> "absent"]
Init == r = Absent /\ act = [name |-> "Init"]
\* first: was this record created by the first reporter (TRUE) or a later one
New(kind, by) == [is |-> "record", kind |-> kind, by |-> by, st |-> "open", reason |-> None, ov |-> None, tasks |-> <<>>, commit |-> None, focus |-> None]
A(n, a, x) == act' = [name |-> n] @@ a @@ [res |-> x]
HasRec == r.is = "record"
TaskIdx(ts, t) == IndexOf(ts, LAMBDA x : x[1] = t)
Put1(ts, x) == IF TaskIdx(ts, x[1]) > 0 THEN SetIdx(ts, TaskIdx(ts, x[1]), x) ELSE Append(ts, x)
Merge(ts, new) == FoldLeft(Put1, ts, new)
\* the outcome of one task, found by the validation session
Validate(t, ok) == /\ r' = (LET b == IF HasRec THEN r ELSE New("plan", "validate") IN [b EXCEPT !.kind = "plan", !.tasks = Merge(@, <<<<t, ok>>>>)])
                   /\ A("Validate", [t |-> t, ok |-> ok], <<"done", ok>>)
\* a session whose verdict cannot be understood records nothing
Garbled(t) == UNCHANGED r /\ A("Garbled", [t |-> t], <<"error", "unparseable-verdict">>)
Record(ts, c) == /\ r' = (LET b == IF HasRec THEN r ELSE New("plan", "record") IN [b EXCEPT !.kind = "plan", !.tasks = Merge(@, ts), !.commit = c])
                 /\ A("Record", [ts |-> ts, c |-> c], "ok")
Trivial(f) == /\ r' = (LET b == IF HasRec THEN r ELSE New("solo", "trivial") IN [b EXCEPT !.kind = "solo", !.focus = f])
              /\ A("Trivial", [f |-> f], "implement")
Approve == /\ HasRec /\ r' = [r EXCEPT !.st = "approved", !.reason = None] /\ A("Approve", [x \in {} |-> 0], "ok")
\* a blocking review overridden with a reason
Override == /\ HasRec /\ r' = [r EXCEPT !.st = "approved", !.reason = None, !.ov = "because"] /\ A("Override", [x \in {} |-> 0], "ok")
Reject(w) == /\ HasRec /\ r' = [r EXCEPT !.st = "rejected", !.reason = w] /\ A("Reject", [w |-> w], "ok")
\* the file is damaged from outside: cut short, replaced by other JSON, or only its task part is spoiled
Damage(k) == /\ r.is # "absent" /\ (k = "body" => HasRec /\ r.kind = "plan" /\ r.commit = None /\ r.focus = None)
             /\ r' = (IF k = "body" THEN [r EXCEPT !.tasks = <<>>] ELSE [is |-> k])
             /\ A("Damage", [k |-> k], "ok")
Next == \/ \E t \in Pick(Tasks), ok \in Pick(BOOLEAN) : Validate(t, ok)
        \/ \E t \in Pick(Tasks) : Garbled(t)
        \/ \E ts \in Pick(Batches), c \in Pick({"c1", "c2"}) : Record(ts, c)
        \/ \E f \in Pick({"f1", "f2"}) : Trivial(f)
        \/ Approve \/ Override \/ \E w \in {"w1"} : Reject(w)
        \/ \E k \in {"torn", "other", "body"} : Damage(k)
State == r
Full == r
T2 == {"t1", "t2"}
T3 == {"t1", "t2", "t3"}
B1 == { <<>>, <<<<"t2", TRUE>>, <<"t1", FALSE>>>> }
B2 == B1 \cup { <<<<"t3", TRUE>>, <<"t1", TRUE>>>>, <<<<"t1", FALSE>>>> }
\* ---- properties
Reports == {"Validate", "Record", "Trivial", "Garbled"}
KeepsDecision == [][ act'.name \in Reports /\ HasRec => r'.st = r.st /\ r'.reason = r.reason /\ r'.ov = r.ov /\ r'.by = r.by ]_vars
KeepsTasks == [][ act'.name \in Reports /\ HasRec => \A i \in 1..Len(r.tasks) : r'.tasks[i][1] = r.tasks[i][1] ]_vars
TasksOnce == HasRec => \A i, j \in 1..Len(r.tasks) : i # j => r.tasks[i][1] # r.tasks[j][1]
NeverBlocked == [][ act'.name \in Reports \ {"Garbled"} => r'.is = "record" ]_vars
=============================================================================
