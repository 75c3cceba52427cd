-------------------------------- MODULE Config --------------------------------
\* The configuration document: settings written one at a time, edits by hand, and reconciliation
\* against the catalog (C01).
EXTENDS Common
CONSTANTS Writes, Cuts, Vals, Roots
VARIABLES root, t, act
\* root: what the whole document is ("obj" or something that is not an object)
\* t: the value at every node that is present; "obj" for an object, else a token for a scalar
vars == <<root, t, act>>
Full == [root |-> root, t |-> t]
State == Full
\* ---- the document's shape: live settings under "l" (moved there from "o"), a leaf "f" (from "of"),
\* per-repository entries "b"/"be" (from "ob"/"oe"), "g" an untouched section, "q" a retired leaf, "u" unknown
Parent == [l |-> "", lr |-> "l", ln |-> "l", lu |-> "l", f |-> "", b |-> "", be |-> "b", bt |-> "be", bc |-> "be", bx |-> "be", g |-> "", gs |-> "g", gu |-> "g",
           o |-> "", ol |-> "o", olr |-> "ol", oln |-> "ol", olu |-> "ol", of |-> "o", ob |-> "o", oe |-> "ob", oer |-> "oe", oep |-> "oe", oem |-> "oe", oec |-> "oe", oex |-> "oe", oz |-> "o", q |-> "", u |-> "", uv |-> "u"]
Nodes == DOMAIN Parent
RECURSIVE Climb(_)
Climb(n) == IF n = "" THEN {} ELSE {n} \union Climb(Parent[n])
UpOf == [n \in Nodes |-> Climb(n)]
BelowOf == [n \in Nodes |-> {m \in Nodes : n \in Climb(m)}]
AncOf == [n \in Nodes |-> Climb(n) \ {n}]
Up(n) == UpOf[n]
Below(n) == BelowOf[n]
Anc(n) == AncOf[n]
Cut(x, n) == [m \in DOMAIN x \ Below(n) |-> x[m]]
Has(x, n) == n \in DOMAIN x
\* set a value, creating or replacing whatever on the way is not an object
PutAt(x, n, v) == LET bad == {a \in Anc(n) : ~Has(x, a) \/ x[a] # "obj"} y == FoldSet(LAMBDA a, z : Cut(z, a), Cut(x, n), bad) IN
                  [m \in DOMAIN y \union Up(n) |-> IF m = n THEN v ELSE IF m \in Anc(n) THEN "obj" ELSE y[m]]
\* move the subtree at n to k, node by node
Move(x, n, k, names) == IF ~Has(x, n) \/ Has(x, k) THEN x ELSE
  LET y == Cut(x, n) z == PutAt(y, k, x[n]) src == {m \in DOMAIN names : Has(x, m)} IN
  [m \in DOMAIN z \union {names[s] : s \in src} |-> IF \E s \in src : names[s] = m THEN x[CHOOSE s \in src : names[s] = m] ELSE z[m]]
Strs == {"s1", "s2", "d"}
Str(x, n) == Has(x, n) /\ x[n] \in Strs
\* an old per-repository entry: role tiers become tasks, a pinned provider or model becomes the core tier
Entry(x) == LET pin == (Str(x, "oep") \/ Str(x, "oem")) /\ ~(Has(x, "oec") /\ x["oec"] = "obj") IN
  (IF Has(x, "oer") THEN "bt" :> x["oer"] ELSE EmptyFn)
  @@ (IF pin THEN "bc" :> ("pin-" \o (IF Str(x, "oep") THEN x["oep"] ELSE "") \o "-" \o (IF Str(x, "oem") THEN x["oem"] ELSE "")) ELSE IF Has(x, "oec") THEN "bc" :> x["oec"] ELSE EmptyFn)
  @@ (IF Has(x, "oex") THEN "bx" :> x["oex"] ELSE EmptyFn)
MoveRepos(x) == IF ~Has(x, "ob") \/ Has(x, "b") THEN x ELSE
  LET y == Cut(x, "ob") z == PutAt(y, "b", x["ob"]) IN
  IF ~Has(x, "oe") THEN z ELSE IF x["oe"] # "obj" THEN PutAt(z, "be", x["oe"]) ELSE Entry(x) @@ PutAt(z, "be", "obj")
Moves == <<<<"ol", "l">>, <<"of", "f">>, <<"ob", "b">>>>
Relocate(x) == LET a == Move(x, "ol", "l", [ol |-> "l", olr |-> "lr", oln |-> "ln", olu |-> "lu"]) b == Move(a, "of", "f", [of |-> "f"]) IN MoveRepos(b)
Rows == <<[n |-> "lr", ok |-> Strs], [n |-> "ln", ok |-> {"n1", "d"}], [n |-> "f", ok |-> Strs], [n |-> "gs", ok |-> {"b1", "d"}]>>
RowKind(x, r) == IF (\A a \in Anc(r.n) : Has(x, a) => x[a] = "obj") THEN IF ~Has(x, r.n) THEN "filled" ELSE IF x[r.n] \in r.ok THEN "carried" ELSE "repaired" ELSE "repaired"
\* what a repair throws away: the value in the way
Was(x, r) == LET bad == {a \in Up(r.n) : Has(x, a) /\ (a = r.n \/ x[a] # "obj") /\ \A c \in Anc(a) : x[c] = "obj"} IN x[CHOOSE a \in bad : TRUE]
Fill(x, r) == IF RowKind(x, r) = "carried" THEN x ELSE PutAt(x, r.n, "d")
RECURSIVE Stage(_, _)
Stage(x, k) == IF k = 0 THEN x ELSE LET y == Stage(x, k - 1) IN Fill(y, Rows[k])
Gone == <<"q", "o">>
Prune(x) == Cut(Cut(x, "q"), "o")
Done(x) == Prune(Stage(Relocate(x), Len(Rows)))
Doc == IF root = "obj" THEN t ELSE EmptyFn
Kinds(x, w) == {Rows[k].n : k \in {j \in 1..Len(Rows) : RowKind(Stage(x, j - 1), Rows[j]) = w}}
Reconcile ==
  LET m == Relocate(Doc) p == Stage(m, Len(Rows)) IN
  /\ t' = Prune(p) /\ root' = "obj"
  /\ act' = [name |-> "Reconcile", res |-> [carried |-> Kinds(m, "carried"), filled |-> Kinds(m, "filled"), repaired |-> {[n |-> Rows[k].n, was |-> Was(Stage(m, k - 1), Rows[k])] : k \in {j \in 1..Len(Rows) : RowKind(Stage(m, j - 1), Rows[j]) = "repaired"}},
       pruned |-> {Gone[k] : k \in {j \in 1..Len(Gone) : Has(p, Gone[j])}},
       migrated |-> {Moves[k][1] : k \in {j \in 1..Len(Moves) : Has(Doc, Moves[j][1]) /\ ~Has(Doc, Moves[j][2])}}]]
\* a setting written by path; an empty path or segment is refused
Write(n, v) == /\ root = "obj" /\ t' = PutAt(t, n, v) /\ UNCHANGED root /\ act' = [name |-> "Write", n |-> n, v |-> v, res |-> "ok"]
BadWrite(w) == /\ root = "obj" /\ UNCHANGED <<root, t>> /\ act' = [name |-> "BadWrite", why |-> w, res |-> "refused"]
\* the user edits the file
CutNode(n) == /\ root = "obj" /\ Has(t, n) /\ t' = Cut(t, n) /\ UNCHANGED root /\ act' = [name |-> "Cut", n |-> n, res |-> "ok"]
Replace(v) == /\ root' = v /\ t' = EmptyFn /\ act' = [name |-> "Replace", v |-> v, res |-> "ok"]
Init == root = "obj" /\ t = EmptyFn /\ act = [name |-> "Init"]
Next == \/ Reconcile
        \/ \E n \in Pick(Writes), v \in Pick(Vals) : Write(n, v)
        \/ \E w \in {"none", "empty"} : BadWrite(w)
        \/ \E n \in Pick({m \in Cuts : Has(t, m)}) : CutNode(n)
        \/ \E v \in Pick(Roots) : Replace(v)
Spec == Init /\ [][Next]_vars
WellFormed == \A n \in DOMAIN t : n \in Nodes /\ \A a \in Anc(n) : Has(t, a) /\ t[a] = "obj"
\* what the property says about reconciliation
Idempotent == Done(Done(Doc)) = Done(Doc)
Live == {"l", "lu", "b", "be", "bt", "bc", "bx", "g", "gu", "u", "uv"}
Preserving == [][act'.name = "Reconcile" => /\ \A k \in 1..Len(Rows) : (Has(Doc, Rows[k].n) /\ Doc[Rows[k].n] \in Rows[k].ok) => t'[Rows[k].n] = Doc[Rows[k].n]
                     /\ \A n \in {"lu", "bt", "bc", "bx", "gu", "u", "uv"} : Has(Doc, n) => Has(t', n) /\ t'[n] = Doc[n]
                     /\ DOMAIN t' \intersect Below("o") = {} /\ ~Has(t', "q")
                     /\ \A k \in 1..Len(Rows) : Has(t', Rows[k].n) /\ t'[Rows[k].n] \in Rows[k].ok]_vars
Reported == [][act'.name = "Reconcile" => ((t' # Doc) <=> (act'.res.filled # {} \/ act'.res.repaired # {} \/ act'.res.pruned # {} \/ act'.res.migrated # {}))]_vars
=============================================================================
