----------------------------- MODULE IpcClient -----------------------------
\* Callers of the daemon socket: rpc() (src/cli/client.ts), the unary calls and the
\* streaming runWorkflowStream() of src/mcp/daemon-stream.ts. A scripted daemon sends
\* arbitrary lines in arbitrary chunks, hangs up, fails; the caller may abort.
EXTENDS Common
CONSTANTS MaxCalls, Styles, MaxLines, MaxFwd, StreamLines, UnaryLines

VARIABLES calls,   \* sequence of [style, out, fwd, part, link, told, asked]
          act
vars == <<calls, act>>

\* out  : "pending" | "ok" | "daemon" (the daemon's error) | "down" | "aborted" | "err"
\* link : "up" | "closed" (no more bytes can arrive);  told: the daemon saw the connection go because of an abort
Init == calls = <<>> /\ act = [name |-> "Init"]

Stream(c) == c.style = "stream"
New(style, how) ==
  [ style |-> style, fwd |-> <<>>, part |-> None,
    out   |-> CASE how = "up" -> "pending" [] how \in {"noent", "refused"} -> "down" [] how \in {"preaborted", "abortearly"} -> "aborted",
    link  |-> IF how = "up" THEN "up" ELSE "closed",
    asked |-> how = "up" ]

Call(style, how) ==
  /\ Len(calls) < MaxCalls
  /\ how \in {"preaborted", "abortearly"} => style = "stream"
  /\ act' = [name |-> "Call", style |-> style, how |-> how]
  /\ calls' = Append(calls, New(style, how))

\* the effect of one complete line on a call
OneLine(c, l) ==
  IF c.out # "pending" \/ l = "blank" THEN c
  ELSE IF Stream(c) THEN
    CASE l \in {"progress", "delta"} -> [c EXCEPT !.fwd = Append(@, l)]
      [] l = "done" -> [c EXCEPT !.out = "ok"]
      [] l \in {"error", "refused"} -> [c EXCEPT !.out = "daemon"]
      [] l \in {"errbare", "garbage", "scalar"} -> [c EXCEPT !.out = "err"]
      [] l = "other" -> c                                       \* unknown stream kinds are skipped
  ELSE
    CASE l \in {"result", "void"} -> [c EXCEPT !.out = "ok"]
      [] l \in {"error", "errempty"} -> [c EXCEPT !.out = "daemon"]
      [] l \in {"garbage", "scalar"} -> [c EXCEPT !.out = "err"]
RECURSIVE AllLines(_, _)
AllLines(c, ls) == IF ls = <<>> THEN c ELSE AllLines(OneLine(c, Head(ls)), Tail(ls))
Alphabet(c) == IF Stream(c) THEN StreamLines ELSE IF c.style = "graceful" THEN UnaryLines \ {"void"} ELSE UnaryLines
Seqs(S) == UNION { [1..n -> S] : n \in 0..MaxLines }

Recv(i, fin, ls, tail) ==
  LET c == calls[i] IN
  /\ c.link = "up"
  /\ fin => c.part # None
  /\ c.part # None /\ ~fin => ls = <<>> /\ tail = None
  /\ c.part = None => Len(ls) > 0 \/ tail # None
  /\ tail # "blank"
  /\ LET lines == (IF fin THEN <<c.part>> ELSE <<>>) \o ls
         d == AllLines(c, lines) IN
     /\ Len(d.fwd) <= MaxFwd
     /\ calls' = [calls EXCEPT ![i] = [d EXCEPT !.part = IF c.part # None /\ ~fin THEN @ ELSE tail]]
  /\ act' = [name |-> "Recv", i |-> i, fin |-> fin, ls |-> ls, tail |-> tail]

\* the daemon closes the connection / the connection breaks
Hangup(i) ==
  /\ calls[i].link = "up"
  /\ act' = [name |-> "Hangup", i |-> i]
  /\ calls' = [calls EXCEPT ![i].link = "closed", ![i].part = None, ![i].out = IF @ = "pending" THEN "err" ELSE @]
Break(i) ==
  /\ calls[i].link = "up" /\ calls[i].out = "pending"
  /\ act' = [name |-> "Break", i |-> i]
  /\ calls' = [calls EXCEPT ![i].link = "closed", ![i].part = None, ![i].out = "err"]

Abort(i) ==
  /\ Stream(calls[i])
  /\ act' = [name |-> "Abort", i |-> i]
  /\ calls' = IF calls[i].out = "pending" THEN [calls EXCEPT ![i].out = "aborted", ![i].link = "closed", ![i].part = None] ELSE calls

Next == \/ \E s \in Pick(Styles), h \in Pick({"up", "noent", "refused", "preaborted", "abortearly"}) : Call(s, h)
        \/ \E i \in Pick(1..Len(calls)) : \E fin \in Pick(BOOLEAN), ls \in Pick(Seqs(Alphabet(calls[i]))), tail \in Pick(Alphabet(calls[i]) \cup {None}) : Recv(i, fin, ls, tail)
        \/ \E i \in 1..Len(calls) : Hangup(i) \/ Break(i) \/ Abort(i)

State == [ i \in 1..Len(calls) |-> LET c == calls[i] IN [ style |-> c.style, out |-> c.out, fwd |-> c.fwd, asked |-> c.asked,
            told |-> c.out = "aborted" /\ c.asked ] ]
Full == calls

StreamAll == {"progress", "delta", "done", "error", "errbare", "refused", "garbage", "scalar", "other", "blank"}
UnaryAll == {"result", "void", "error", "errempty", "garbage", "scalar", "blank"}
StreamFew == {"progress", "done", "error"}
UnaryFew == {"result", "error"}
\* --- properties
SettleOnce == [][ \A i \in 1..Len(calls) : calls[i].out # "pending" => calls'[i].out = calls[i].out /\ calls'[i].fwd = calls[i].fwd ]_vars
NeverStuck == \A i \in 1..Len(calls) : calls[i].link = "closed" => calls[i].out # "pending"
InOrder == [][ \A i \in 1..Len(calls) : IsPrefix(calls[i].fwd, calls'[i].fwd) ]_vars
Separate == [][ "i" \in DOMAIN act' => \A j \in 1..Len(calls) : j # act'.i => calls'[j] = calls[j] ]_vars
=============================================================================
