------------------------------- MODULE Migrate -------------------------------
\* Schema migrations of the graph store (G05): the step runner over arbitrary registries,
\* and opening a store written by another version, with crashes in the middle of the migration.
EXTENDS Common
CONSTANTS Mode, Cur, Starts, Edges, Fails, Targets, Points
VARIABLES ver, log, repos, E, X, act
\* ver: stored version; log[s]: how often step s left its effects behind (s = "from-to")
\* repos: registered ones; E[i]: the repo entity i belongs to; X: edges between entities
vars == <<ver, log, repos, E, X, act>>
Full == [ver |-> ver, log |-> log, repos |-> repos, E |-> E, X |-> X]
State == Full
\* ---- the runner: a step is the number from * 10 + to
From(e) == e \div 10
To(e) == e % 10
\* the largest jump that starts here and does not overshoot; 0: none
Best(reg, v, t) == LET c == {e \in reg : From(e) = v /\ To(e) > v /\ To(e) <= t} IN IF c = {} THEN 0 ELSE CHOOSE e \in c : \A o \in c : To(o) <= To(e)
RECURSIVE Plan(_, _, _)
Plan(reg, v, t) == IF v >= t THEN <<>> ELSE LET b == Best(reg, v, t) IN IF b = 0 THEN <<>> ELSE <<b>> \o Plan(reg, To(b), t)
Name(e) == ToString(From(e)) \o "-" \o ToString(To(e))
\* run towards t; the f-th step fails half way (0: none)
Run(reg, t, f) ==
  LET p == Plan(reg, ver, t) broke == f # 0 /\ f <= Len(p) done == IF broke THEN SubSeq(p, 1, f - 1) ELSE p
      v == IF done = <<>> THEN ver ELSE To(done[Len(done)]) IN
  /\ ver' = v /\ log' = FoldLeft(LAMBDA l, e : Put(l, Name(e), Get(l, Name(e), 0) + 1), log, done) /\ UNCHANGED <<repos, E, X>>
  /\ act' = [name |-> "Run", reg |-> reg, to |-> t, fail |-> f, res |-> IF broke THEN [r |-> "fail", n |-> 0] ELSE IF v # t THEN [r |-> "path", n |-> 0] ELSE [r |-> "ok", n |-> Len(p)]]
\* ---- opening a real store
Shared == {"jvm", "npm", "python", "go"}
\* entities: w1, p1 functions; modules mj (java), mn (typescript), my (markdown: no package namespace)
Space == [mj |-> "jvm", mn |-> "npm"]
OldE == {e \in [{"w1", "p1", "mj", "mn", "my"} -> {"-", "w", "p"}] : e["w1"] \in {"w", "-"} /\ e["p1"] \in {"p", "-"}}
\* before version 3 modules lived in any repo, and "p" may be a repo row without a proper path
Moved(e) == [i \in DOMAIN e |-> IF i \in DOMAIN Space THEN Space[i] ELSE e[i]]
Kept(e) == LET m == Moved(e) IN [i \in {j \in DOMAIN m : m[j] # "p"} |-> m[i]]
Inside(x, e) == {d \in x : d[1] \in DOMAIN e /\ d[2] \in DOMAIN e}
Openings(a) ==
   /\ UNCHANGED log
   /\ IF ver > Cur THEN UNCHANGED <<ver, repos, E, X>> ELSE /\ ver' = Cur /\ (IF ver < 3 THEN repos' = (repos \ {"p"}) \union Shared /\ E' = Kept(E) /\ X' = Inside(X, Kept(E)) ELSE UNCHANGED <<repos, E, X>>)
   /\ act' = a @@ [res |-> [r |-> IF ver > Cur THEN "newer" ELSE "ok", torn |-> FALSE]]
\* k callers at once ask for the store
Open(k) == Openings([name |-> "Open", k |-> k])
\* the process dies at its n-th write while opening; later the store is opened again
CrashOpen(n) == Openings([name |-> "CrashOpen", n |-> n])
Pairs == {<<"w1", "mj">>, <<"p1", "w1">>, <<"w1", "p1">>, <<"p1", "mn">>, <<"p1", "p1">>, <<"mn", "p1">>, <<"mj", "my">>}
Init == /\ ver \in Starts /\ log = EmptyFn /\ act = [name |-> "Init"]
        /\ \/ Mode = "runner" /\ repos = {} /\ E = EmptyFn /\ X = {}
           \/ Mode = "open" /\ \E f \in (IF ver < 3 THEN OldE ELSE {g \in OldE : \A i \in DOMAIN g : g[i] # "p"}), x \in {{}, Pairs, {p \in Pairs : p[1] = "w1"}, {p \in Pairs : p[1] = "p1"}} :
                LET e0 == [i \in {j \in DOMAIN f : f[j] # "-"} |-> f[i]]
                    e == IF ver < 3 THEN e0 ELSE Moved(e0) IN
                /\ E = e /\ X = Inside(x, e)
                /\ repos = (IF \E i \in DOMAIN e : e[i] = "w" \/ ver >= 3 THEN {"w"} ELSE {}) \union (IF ver < 3 /\ (\E i \in DOMAIN e : e[i] = "p") THEN {"p"} ELSE {}) \union (IF ver < 3 THEN {} ELSE Shared)
Next == \/ Mode = "runner" /\ \E reg \in Pick(SUBSET Edges), t \in Pick(Targets), f \in Pick(Fails) : Run(reg, t, f)
        \/ Mode = "open" /\ ((\E k \in {1, 2} : Open(k)) \/ \E n \in Pick(Points) : CrashOpen(n))
Spec == Init /\ [][Next]_vars
NeverTwice == \A s \in DOMAIN log : log[s] = 1
\* in a store of this version nothing dangles and every module is in its own namespace
Sound == (Mode = "open" /\ ver = Cur) =>
           (/\ \A i \in DOMAIN E : E[i] \in repos /\ (i \in DOMAIN Space => E[i] = Space[i])
            /\ \A d \in X : d[1] \in DOMAIN E /\ d[2] \in DOMAIN E
            /\ Shared \subseteq repos)
NeverBack == [][ver' >= ver]_vars
NewerUntouched == [][act'.name \in {"Open", "CrashOpen"} /\ ver > Cur => UNCHANGED <<ver, repos, E, X>>]_vars
\* migrating loses no entity but those of the dropped row
Lossless == [][act'.name \in {"Open", "CrashOpen"} => \A i \in DOMAIN E : (E[i] # "p" \/ i \in DOMAIN Space) => i \in DOMAIN E']_vars
=============================================================================
