----------------------------- MODULE IpcServer -----------------------------
\* The daemon's unix-socket server (src/daemon/server.ts IpcServer): newline-delimited JSON
\* requests in arbitrary chunks, one terminal reply per request, streaming requests.
EXTENDS Common
CONSTANTS Clients,      \* client slots; each holds at most one connection at a time
          Kinds,        \* kinds of request lines a client may send
          MaxLines,     \* complete new lines per chunk
          MaxOpen,      \* requests of one client still being worked on
          MaxOrphans    \* handlers still running for a connection that is gone

VARIABLES conn,      \* [client -> connected?]
          part,      \* [client -> kind of the line whose bytes have only partly arrived, or None]
          open,      \* [client -> sequence of [id, k]] requests whose handler has not finished (arrival order)
          orphans,   \* sequence of kinds: handlers whose client went away
          who,       \* [client -> [label, last]] what the attached-client registry says
          order,     \* connected clients in connection order
          act
vars == <<conn, part, open, orphans, who, order, act>>

NewWho == [label |-> "unknown", last |-> None]
Init == /\ conn = [c \in Clients |-> FALSE] /\ part = [c \in Clients |-> None] /\ open = [c \in Clients |-> <<>>]
        /\ orphans = <<>> /\ who = [c \in Clients |-> NewWho] /\ order = <<>> /\ act = [name |-> "Init"]

\* --- request kinds
\*  ok/okstream  : handler that answers when the environment lets it   (plain / with stream:true and no stream handler)
\*  strm         : stream handler; emits progress until it finishes
\*  now, fail, sync, unser, void : plain handlers answering at once (result, rejection, synchronous throw, unserialisable result, no result)
\*  unk, proto, strunk : no such method (never heard of / an inherited property name / on a streaming request)
\*  badid/goodid : like now, carrying a malformed / well-formed client identity
\*  bad, null    : not JSON / JSON but not an object;   blank : empty line
Slow == {"ok", "okstream", "strm"}
Silent == {"blank"}
Broken == {"bad", "null"}
Immediate(k) ==
  CASE k \in {"now", "void", "goodid", "badid"} -> "result"
    [] k \in {"fail", "sync", "unser", "unk", "proto", "strunk"} -> "error"
Method(k) ==
  CASE k \in {"now", "goodid", "badid"} -> "t.now" [] k = "void" -> "t.void" [] k = "fail" -> "t.fail" [] k = "sync" -> "t.sync" [] k = "unser" -> "t.unser"
    [] k = "unk" -> "t.nope" [] k = "strunk" -> "t.nope" [] k = "proto" -> "toString"
    [] k \in {"ok", "okstream"} -> "t.ok" [] k = "strm" -> "t.strm"

FreeId(o) == Min({ i \in 1..(MaxOpen + 1) : \A j \in 1..Len(o) : o[j].id # i })
\* ids of immediately answered requests lie above those of the pending ones
\* one line: (open, immediate replies, next immediate id, identity)
Line(s, k) ==
  IF k \in Silent THEN s
  ELSE IF k \in Broken THEN [s EXCEPT !.rej = @ + 1]
  ELSE LET w == [label |-> IF k = "goodid" THEN "cli" ELSE s.w.label, last |-> Method(k)] IN
       IF k \in Slow THEN [s EXCEPT !.o = Append(@, [id |-> FreeId(s.o), k |-> k]), !.w = w]
       ELSE [s EXCEPT !.r = Append(@, [id |-> 100 + Len(s.r), msgs |-> <<Immediate(k)>>]), !.w = w]
RECURSIVE Lines(_, _)
Lines(s, ks) == IF ks = <<>> THEN s ELSE Lines(Line(s, Head(ks)), Tail(ks))

SlowIn(ks) == Cardinality({ i \in 1..Len(ks) : ks[i] \in Slow })
NoReply == [msgs |-> <<>>, rejected |-> 0]

Connect(c) ==
  /\ ~conn[c]
  /\ act' = [name |-> "Connect", c |-> c, res |-> NoReply]
  /\ conn' = [conn EXCEPT ![c] = TRUE] /\ who' = [who EXCEPT ![c] = NewWho] /\ order' = Append(order, c)
  /\ UNCHANGED <<part, open, orphans>>

\* a chunk of bytes arrives from c: the rest of the unfinished line (fin), whole lines, the beginning of another line (tail)
Chunk(c, fin, ks, tail) ==
  /\ conn[c]
  /\ fin => part[c] # None
  /\ part[c] # None /\ ~fin => ks = <<>> /\ tail = None           \* just some more bytes of the unfinished line
  /\ part[c] = None => Len(ks) > 0 \/ tail # None
  /\ tail # "blank"
  /\ LET lines == (IF fin THEN <<part[c]>> ELSE <<>>) \o ks
         s == Lines([o |-> open[c], r |-> <<>>, rej |-> 0, w |-> who[c]], lines) IN
     /\ Len(open[c]) + SlowIn(lines) <= MaxOpen
     /\ act' = [name |-> "Chunk", c |-> c, fin |-> fin, ks |-> ks, tail |-> tail, res |-> [msgs |-> s.r, rejected |-> s.rej]]
     /\ open' = [open EXCEPT ![c] = s.o] /\ who' = [who EXCEPT ![c] = s.w]
     /\ part' = [part EXCEPT ![c] = IF part[c] # None /\ ~fin THEN @ ELSE tail]
  /\ UNCHANGED <<conn, orphans, order>>

\* the handler of an open request makes progress: emits a stream event, finishes well or fails
Work(c, i, how) ==
  /\ i \in 1..Len(open[c])
  /\ LET q == open[c][i] IN
     /\ q.k # "strm" => how \in {"end", "fail"}
     /\ act' = [name |-> "Work", c |-> c, i |-> i, how |-> how,
                res |-> [msgs |-> <<[id |-> q.id, msgs |-> CASE how = "emit" -> <<"progress">>
                                                            [] how = "end" /\ q.k = "strm" -> <<"progress", "done">>
                                                            [] how = "end" -> <<"result">>
                                                            [] how = "fail" -> <<"error">> ]>>, rejected |-> 0]]
     /\ open' = IF how = "emit" THEN open ELSE [open EXCEPT ![c] = RemoveIdx(@, i)]
  /\ UNCHANGED <<conn, part, orphans, who, order>>

Disconnect(c, abrupt) ==
  /\ conn[c] /\ Len(orphans) + Len(open[c]) <= MaxOrphans
  /\ act' = [name |-> "Disconnect", c |-> c, abrupt |-> abrupt, res |-> NoReply]
  /\ conn' = [conn EXCEPT ![c] = FALSE] /\ part' = [part EXCEPT ![c] = None]
  /\ orphans' = orphans \o [i \in 1..Len(open[c]) |-> open[c][i].k]
  /\ open' = [open EXCEPT ![c] = <<>>] /\ who' = [who EXCEPT ![c] = NewWho] /\ order' = SelectSeq(order, LAMBDA x : x # c)

\* nobody hears from a handler whose client is gone
OrphanWork(i, how) ==
  /\ i \in 1..Len(orphans)
  /\ orphans[i] # "strm" => how # "emit"
  /\ act' = [name |-> "OrphanWork", i |-> i, how |-> how, res |-> NoReply]
  /\ orphans' = IF how = "emit" THEN orphans ELSE RemoveIdx(orphans, i)
  /\ UNCHANGED <<conn, part, open, who, order>>

Seqs == UNION { [1..n -> Kinds] : n \in 0..MaxLines }
Next == \/ \E c \in Clients : Connect(c)
        \/ \E c \in Pick(Clients), fin \in Pick(BOOLEAN), ks \in Pick(Seqs), tail \in Pick(Kinds \cup {None}) : Chunk(c, fin, ks, tail)
        \/ \E c \in Clients, i \in 1..MaxOpen, how \in {"emit", "end", "fail"} : Work(c, i, how)
        \/ \E c \in Pick(Clients), ab \in Pick(BOOLEAN) : Disconnect(c, ab)
        \/ \E i \in 1..MaxOrphans, how \in {"emit", "end", "fail"} : OrphanWork(i, how)

\* a stream handler is told when its client is gone
State == [ clients |-> [i \in 1..Len(order) |-> [c |-> IF who[order[i]].label = "unknown" THEN 0 ELSE order[i], label |-> who[order[i]].label, last |-> who[order[i]].last]],
           running |-> [c \in Clients |-> [i \in 1..Len(open[c]) |-> [id |-> open[c][i].id, k |-> open[c][i].k, told |-> FALSE]]],
           orphans |-> [i \in 1..Len(orphans) |-> [k |-> orphans[i], told |-> orphans[i] = "strm"]] ]
Full == <<conn, part, open, orphans, who, order>>

\* --- properties
TypeOK == \A c \in Clients : Len(open[c]) <= MaxOpen /\ (~conn[c] => part[c] = None /\ open[c] = <<>>)
UniqueIds == \A c \in Clients : \A i, j \in 1..Len(open[c]) : open[c][i].id = open[c][j].id => i = j
\* each dispatched request is answered exactly once: at once, or when it leaves "open" while its client is there
Terminal(m) == m \in {"result", "error", "done"}
Answers(ms) == Cardinality({ i \in 1..Len(ms) : \E j \in 1..Len(ms[i].msgs) : Terminal(ms[i].msgs[j]) })
OneTerminal == [][ act'.name \in {"Chunk", "Work"} => \A i \in 1..Len(act'.res.msgs) : LET ms == act'.res.msgs[i].msgs IN
                     \A j \in 1..Len(ms) : Terminal(ms[j]) => j = Len(ms) ]_vars
NonBlank(ks) == SelectSeq(ks, LAMBDA k : k # "blank")
Accounted == [][ act'.name = "Chunk" => LET c == act'.c  ls == NonBlank((IF act'.fin THEN <<part[c]>> ELSE <<>>) \o act'.ks) IN
                     Len(ls) = Answers(act'.res.msgs) + act'.res.rejected + (Len(open'[c]) - Len(open[c])) ]_vars
OthersUntouched == [][ act'.name # "OrphanWork" /\ act'.name # "Init" => \A c \in Clients \ {act'.c} : open'[c] = open[c] /\ part'[c] = part[c] /\ conn'[c] = conn[c] /\ who'[c] = who[c] ]_vars
KindsAll == {"ok", "okstream", "strm", "now", "fail", "sync", "unser", "void", "unk", "proto", "strunk", "goodid", "badid", "bad", "null", "blank"}
Kinds_a == {"ok", "strm", "now", "fail", "unser", "bad", "blank", "goodid"}
Kinds_b == {"okstream", "sync", "void", "unk", "proto", "strunk", "badid", "null"}
KindsPair == {"ok", "strm", "bad"}
=============================================================================
