------------------------------- MODULE Indexer -------------------------------
\* The code index follows the files of a repository (I02): edits and deletions, seen as events or missed while
\* the daemon was down, crashes in the middle of indexing, full re-indexing; references between files.
EXTENDS Common
CONSTANTS Files, MaxC,   \* contents tried per file
          HasCalls,      \* whether the language's calls are indexed
          Acts, Crashes
VARIABLES disk,   \* file |-> content, 0: absent
          idx,    \* what the index has of it
          up,     \* daemon running
          todo,   \* events or jobs outstanding
          known,  \* no job was left half-way: idx says what the index holds
          act
vars == <<disk, idx, up, todo, known, act>>
On(a) == a \in Acts
Nil == [v |-> 0, defs |-> <<>>, cls |-> <<>>, imports |-> <<>>, calls |-> <<>>, inh |-> <<>>]
Cont(v, d, k, i, c, h) == [v |-> v, defs |-> d, cls |-> k, imports |-> i, calls |-> c, inh |-> h]
Cat == [
  a |-> << Cont(1, <<"ga">>, <<>>, <<"b">>, << <<"ga", "fb">> >>, <<>>),
           Cont(2, <<"ga", "ha">>, <<"Da">>, <<"b", "c">>, << <<"ga", "fb">>, <<"ha", "fc">>, <<"ha", "ga">> >>, << <<"Da", "Cb">> >>),
           Cont(3, <<"ga">>, <<>>, <<>>, << <<"ga", "fb">> >>, <<>>),
           Cont(4, <<"ha">>, <<"Da">>, <<"c">>, << <<"ha", "fc">>, <<"ha", "kb">> >>, << <<"Da", "Cc">> >>) >>,
  b |-> << Cont(1, <<"fb">>, <<>>, <<>>, <<>>, <<>>),
           Cont(2, <<"fb">>, <<"Cb">>, <<"c">>, << <<"fb", "fc">> >>, << <<"Cb", "Cc">> >>),
           Cont(3, <<"kb">>, <<"Cb">>, <<>>, <<>>, <<>>),
           Cont(4, <<"fb", "kb">>, <<>>, <<"a">>, << <<"kb", "fb">>, <<"fb", "ga">> >>, <<>>) >>,
  c |-> << Cont(1, <<"fc">>, <<>>, <<>>, <<>>, <<>>),
           Cont(2, <<"fc">>, <<"Cc">>, <<"a">>, << <<"fc", "ga">> >>, <<>>),
           Cont(3, <<"lc">>, <<"Cc">>, <<"a", "b">>, << <<"lc", "kb">>, <<"lc", "ha">> >>, << <<"Cc", "Da">> >>),
           Cont(4, <<"fc">>, <<>>, <<"b">>, << <<"fc", "fb">> >>, <<>>) >> ]
At(m, f) == IF m[f] = 0 THEN Nil ELSE Cat[f][m[f]]
Names(m, f) == Range(At(m, f).defs) \cup Range(At(m, f).cls)
Present(m) == {f \in Files : m[f] # 0}
\* names a file can refer to: its own, and those of the present files it imports
Scope(m, f) == Names(m, f) \cup UNION {Names(m, g) : g \in Range(At(m, f).imports) \cap Present(m)}
Ents(m) == UNION {{<<n, At(m, f).v>> : n \in Names(m, f)} : f \in Present(m)} \cup {<<f, 0>> : f \in Present(m)}
Edges(m) == UNION {
      {<<"DEFINES", f, n>> : n \in Names(m, f)}
      \cup {<<"IMPORTS", f, g>> : g \in Range(At(m, f).imports) \cap Present(m)}
      \cup (IF HasCalls THEN {<<"CALLS", p[1], p[2]>> : p \in {q \in Range(At(m, f).calls) : q[2] \in Scope(m, f)}} ELSE {})
      \cup {<<"INHERITS", p[1], p[2]>> : p \in {q \in Range(At(m, f).inh) : q[2] \in Scope(m, f)}}
    : f \in Present(m)}
Empty == [f \in Files |-> 0]
Init == disk = Empty /\ idx = Empty /\ up = FALSE /\ todo = FALSE /\ known = TRUE /\ act = [name |-> "Init"]
Write(f, c) == /\ On("Write") /\ disk[f] # c /\ disk' = [disk EXCEPT ![f] = c] /\ todo' = (todo \/ up)
               /\ act' = [name |-> "Write", f |-> f, src |-> Cat[f][c], res |-> "ok"] /\ UNCHANGED <<idx, up, known>>
Unlink(f) == /\ On("Unlink") /\ disk[f] # 0 /\ disk' = [disk EXCEPT ![f] = 0] /\ todo' = (todo \/ up)
             /\ act' = [name |-> "Unlink", f |-> f, res |-> "ok"] /\ UNCHANGED <<idx, up, known>>
\* all outstanding jobs, then the settle pass
Drain == /\ up /\ todo /\ idx' = disk /\ todo' = FALSE /\ known' = TRUE
         /\ act' = [name |-> "Drain", res |-> "ready"] /\ UNCHANGED <<disk, up>>
Partial(n, s) == /\ On("Partial") /\ up /\ todo /\ known' = FALSE
                 /\ act' = [name |-> "Partial", n |-> n, settle |-> s, res |-> "ok"] /\ UNCHANGED <<disk, idx, up, todo>>
\* the process dies before its n-th write to the store
Crash(n) == /\ On("Crash") /\ up /\ todo /\ up' = FALSE /\ todo' = FALSE /\ known' = FALSE
            /\ act' = [name |-> "Crash", n |-> n, res |-> "ok"] /\ UNCHANGED <<disk, idx>>
Stop == /\ On("Stop") /\ up /\ up' = FALSE /\ todo' = FALSE
        /\ act' = [name |-> "Stop", res |-> "ok"] /\ UNCHANGED <<disk, idx, known>>
Start == /\ ~up /\ up' = TRUE /\ todo' = TRUE
         /\ act' = [name |-> "Start", res |-> "ok"] /\ UNCHANGED <<disk, idx, known>>
Reindex == /\ On("Reindex") /\ up /\ todo' = TRUE
           /\ act' = [name |-> "Reindex", res |-> "ok"] /\ UNCHANGED <<disk, idx, up, known>>
Next == \/ \E f \in Pick(Files), c \in Pick(1..MaxC) : Write(f, c)
        \/ \E f \in Pick(Files) : Unlink(f)
        \/ (up /\ \E f \in Pick(Files), c \in Pick(1..MaxC) : Write(f, c))
        \/ Drain \/ Stop \/ Start \/ Reindex
        \/ \E n \in Pick(1..3), s \in Pick(BOOLEAN) : Partial(n, s)
        \/ \E n \in Pick(Crashes) : Crash(n)
State == [up |-> up, known |-> known, ents |-> IF known THEN Ents(idx) ELSE {}, edges |-> IF known THEN Edges(idx) ELSE {}, other |-> "intact"]
Full == [disk |-> disk, idx |-> idx, up |-> up, todo |-> todo, known |-> known]
\* no edge without its ends
Closed == \A e \in Edges(idx) : {e[2], e[3]} \subseteq {x[1] : x \in Ents(idx)}
\* idle and running: the index is the files
Settled == up /\ ~todo => idx = disk \/ ~known
Never == known \/ todo \/ ~up
==============================================================================
