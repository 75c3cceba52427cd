------------------------------- MODULE Access -------------------------------
\* Approvals of access to resources during one session, and the log of the decisions taken (A01).
EXTENDS Common
CONSTANTS Kinds,      \* kinds of resource
          Keys,       \* names of resources: sequences of tokens no one of which is a prefix of another
          Slashed,    \* the kinds whose prefixes are whole path components
          Cap,        \* how many decisions the log keeps
          Decisions,
          MaxTime,
          Acts
VARIABLES exact, prefix,  \* approvals: time of each, by <<kind, key>>
          log, now, act
vars == <<exact, prefix, log, now, act>>
On(a) == a \in Acts
Init == exact = EmptyFn /\ prefix = EmptyFn /\ log = <<>> /\ now = 1 /\ act = [name |-> "Init"]
Norm(k, p) == IF k \in Slashed /\ (p = <<>> \/ Last(p) # "/") THEN Append(p, "/") ELSE p
Approved(k, x) == <<k, x>> \in DOMAIN exact \/ \E q \in DOMAIN prefix : q[1] = k /\ IsPrefix(q[2], x)
Keep(f, e) == IF e \in DOMAIN f THEN f ELSE Put(f, e, now)

Approve(k, x) == On("Approve") /\ exact' = Keep(exact, <<k, x>>) /\ UNCHANGED <<prefix, log, now>> /\ act' = [name |-> "Approve", k |-> k, x |-> x, res |-> "ok"]
ApprovePrefix(k, x) == On("Prefix") /\ prefix' = Keep(prefix, <<k, Norm(k, x)>>) /\ UNCHANGED <<exact, log, now>> /\ act' = [name |-> "ApprovePrefix", k |-> k, x |-> x, res |-> "ok"]
Revoke(k, x) == On("Approve") /\ exact' = Drop(exact, {<<k, x>>}) /\ UNCHANGED <<prefix, log, now>> /\ act' = [name |-> "Revoke", k |-> k, x |-> x, res |-> "ok"]
RevokePrefix(k, x) == On("Prefix") /\ prefix' = Drop(prefix, {<<k, Norm(k, x)>>}) /\ UNCHANGED <<exact, log, now>> /\ act' = [name |-> "RevokePrefix", k |-> k, x |-> x, res |-> "ok"]
Tick == On("Tick") /\ now < MaxTime /\ now' = now + 1 /\ UNCHANGED <<exact, prefix, log>> /\ act' = [name |-> "Tick", res |-> "ok"]
Record(d) == On("Log") /\ log' = (LET l == Append(log, <<d, now>>) IN IF Len(l) > Cap THEN Tail(l) ELSE l) /\ UNCHANGED <<exact, prefix, now>> /\ act' = [name |-> "Record", d |-> d, res |-> "ok"]
Next == \/ \E k \in Pick(Kinds), x \in Pick(Keys) : Approve(k, x) \/ ApprovePrefix(k, x) \/ Revoke(k, x) \/ RevokePrefix(k, x)
        \/ \E d \in Pick(Decisions) : Record(d)
        \/ Tick
Spec == Init /\ [][Next]_vars
\* what can be asked: access to every key, the list of approvals oldest first, the log
All == { [k |-> e[1], x |-> e[2], prefix |-> FALSE, at |-> exact[e]] : e \in DOMAIN exact } \cup { [k |-> e[1], x |-> e[2], prefix |-> TRUE, at |-> prefix[e]] : e \in DOMAIN prefix }
State == [ok |-> [k \in Kinds |-> { x \in Keys : Approved(k, x) }], list |-> [t \in 1..MaxTime |-> { a \in All : a.at = t }], log |-> log]
Full == [exact |-> exact, prefix |-> prefix, log |-> log, now |-> now]
-----------------------------------------------------------------------------
V == <<"/", "var">>
PathKeys == {V, <<"/", "var", "/">>, <<"/", "var", "/", "log">>, <<"/", "var", "_archive">>, <<"/", "var", "/", "log", "/", "a">>}
CloudKeys == {<<"aws">>, <<"aws", ":">>, <<"aws", ":", "rds">>, <<"gcp">>}
TwoKeys == {V, <<"/", "var", "/", "log">>, <<"/", "var", "_archive">>}
AllKeys == PathKeys \cup CloudKeys \cup {<<>>, <<"/">>}
JustPath == {"fs-path"}
OneDecision == {"deny"}
-----------------------------------------------------------------------------
\* Nothing is accessible without an approval; a revocation leaves other approvals alone.
Founded == \A k \in Kinds, x \in Keys : Approved(k, x) => (<<k, x>> \in DOMAIN exact \/ \E i \in 0..Len(x) : <<k, SubSeq(x, 1, i)>> \in DOMAIN prefix)
Components == \A q \in DOMAIN prefix : q[1] \in Slashed => Last(q[2]) = "/"
Bounded == Len(log) <= Cap /\ \A i, j \in 1..Len(log) : i < j => log[i][2] <= log[j][2]
TakesBack == [][act'.name = "RevokePrefix" => \A k \in Kinds, x \in Keys : (act'.k = k /\ Approved(k, x) /\ ~Approved(k, x)') => IsPrefix(Norm(k, act'.x), x)]_vars
Separate == [][\A k \in Kinds, x \in Keys : (act'.name \notin {"Tick", "Record"} => act'.k # k) => (Approved(k, x) <=> Approved(k, x)')]_vars
=============================================================================
