------------------------------- MODULE Tools -------------------------------
\* Registration, lookup and execution of tools (A02).
EXTENDS Common
CONSTANTS Ids, Names,     \* tool ids; everything a tool may be called by (ids included)
          AliasSets,      \* the alias lists a registration may bring: sequences of names
          Vers, Calls,
          Hows,           \* how a tool behaves: "ok" | "report" | "throw" | "odd" (throws something that is no error) | "later"
          Gates,          \* its approval requirement: "no" | "yes" | "fn" | "throws"
          Acts
VARIABLES tools,  \* id -> version registered last
          alias,  \* name -> id
          run,    \* call -> the tool (id, version) at work for it
          act
vars == <<tools, alias, run, act>>
On(a) == a \in Acts
Init == tools = EmptyFn /\ alias = EmptyFn /\ run = EmptyFn /\ act = [name |-> "Init"]
Resolve(n) == IF n \in DOMAIN tools THEN n ELSE IF n \in DOMAIN alias THEN alias[n] ELSE None
RECURSIVE Bind(_, _, _, _)
Bind(f, als, id, ids) == IF als = <<>> THEN f ELSE Bind(IF Head(als) \in ids THEN f ELSE Put(f, Head(als), id), Tail(als), id, ids)

Register(id, v, als) == /\ On("Register")
  /\ tools' = Put(tools, id, v)
  /\ alias' = Bind(alias, als, id, DOMAIN tools \cup {id})
  /\ UNCHANGED run /\ act' = [name |-> "Register", id |-> id, v |-> v, als |-> als, res |-> "ok"]
Alias(id, n) == /\ On("Alias")
  /\ alias' = (IF id \in DOMAIN tools /\ n \notin DOMAIN tools THEN Put(alias, n, id) ELSE alias)
  /\ UNCHANGED <<tools, run>> /\ act' = [name |-> "Alias", id |-> id, n |-> n, res |-> "ok"]
\* the outcome of a call: whether it succeeded, and which tool answered it
Out(ok, by) == [ok |-> ok, by |-> by]
Exec(c, n, how, gate) == LET id == Resolve(n) by == <<id, tools[id]>> IN
  /\ On("Exec") /\ c \notin DOMAIN run
  /\ run' = IF id # None /\ gate # "throws" /\ how = "later" THEN Put(run, c, by) ELSE run
  /\ UNCHANGED <<tools, alias>>
  /\ act' = [name |-> "Exec", c |-> c, n |-> n, how |-> how, gate |-> gate,
             res |-> IF id = None THEN Out(FALSE, None) ELSE IF gate = "throws" THEN Out(FALSE, None) ELSE IF how = "later" THEN "running"
                     ELSE IF how = "ok" THEN Out(TRUE, by) ELSE IF how = "report" THEN Out(FALSE, by) ELSE Out(FALSE, None)]
Finish(c, how) == /\ On("Exec") /\ c \in DOMAIN run
  /\ run' = Drop(run, {c}) /\ UNCHANGED <<tools, alias>>
  /\ act' = [name |-> "Finish", c |-> c, how |-> how, res |-> IF how = "ok" THEN Out(TRUE, run[c]) ELSE IF how = "report" THEN Out(FALSE, run[c]) ELSE Out(FALSE, None)]
Next == \/ \E id \in Pick(Ids), v \in Pick(Vers), als \in Pick(AliasSets) : Register(id, v, als)
        \/ \E id \in Pick(Ids), n \in Pick(Names) : Alias(id, n)
        \/ \E c \in Pick(Calls), n \in Pick(Names), h \in Pick(Hows), g \in Pick(Gates) : Exec(c, n, h, g)
        \/ \E c \in Pick(Calls), h \in Pick(Hows \ {"later"}) : Finish(c, h)
Spec == Init /\ [][Next]_vars
State == [found |-> [n \in Names |-> IF Resolve(n) = None THEN None ELSE <<Resolve(n), tools[Resolve(n)]>>], ids |-> DOMAIN tools, alias |-> alias, running |-> DOMAIN run]
Full == [tools |-> tools, alias |-> alias, run |-> run]
-----------------------------------------------------------------------------
NoAliases == {<<>>}
FewAliases == {<<>>, <<"x">>, <<"b">>, <<"x", "a">>}
MoreAliases == FewAliases \cup {<<"y", "x", "y">>, <<"c", "z">>}
-----------------------------------------------------------------------------
\* Every name leads to at most one tool, and to one that is there; an id leads to its own tool.
Lookup == \A n \in Names : LET r == Resolve(n) IN r # None => r \in DOMAIN tools /\ (n \in DOMAIN tools => r = n)
Aliases == \A n \in DOMAIN alias : alias[n] \in DOMAIN tools
\* A call is answered by the tool that was registered when it was made.
Stable == [][\A c \in DOMAIN run : c \in DOMAIN run' => run'[c] = run[c]]_vars
=============================================================================
