----------------------------- MODULE ConfigStore -----------------------------
\* Stored settings entries (C04): templates, feedback and conventions, each in one scope (everywhere or
\* one project), one namespace and one category; lookup by id, listing, exact template resolution, search.
EXTENDS Common
CONSTANTS Ids, Scopes, Namespaces, Categories,
          Shapes,   \* contents: name and language
          Vecs,     \* directions an entry's text may point in; None: stored without
          Acts
VARIABLES E, act
vars == <<E, act>>
On(a) == a \in Acts
Entries == [scope : Scopes, ns : Namespaces, cat : Categories, shape : Shapes, em : Vecs]
Init == E = EmptyFn /\ act = [name |-> "Init"]
Save(i, e) == E' = Put(E, i, e) /\ act' = [name |-> "Save", i |-> i, e |-> e, res |-> "ok"]
Delete(i) == E' = Drop(E, {i}) /\ act' = [name |-> "Delete", i |-> i, res |-> "ok"]
Clear(s) == E' = Drop(E, { i \in DOMAIN E : E[i].scope = s }) /\ act' = [name |-> "Clear", s |-> s, res |-> "ok"]
Reopen == E' = E /\ act' = [name |-> "Reopen", res |-> "ok"]
\* A template by name and language: the project's own wins over the one for everyone.
Fits(i, s, ns, n, l) == E[i].scope = s /\ E[i].ns = ns /\ E[i].cat = "template" /\ E[i].shape.name = n /\ E[i].shape.lang \in {l, "all"}
Cands(s, ns, n, l) == { i \in DOMAIN E : Fits(i, s, ns, n, l) }
Resolve(s, ns, n, l) == On("Resolve")
  /\ LET own == IF s = "global" THEN {} ELSE Cands(s, ns, n, l)
         c == IF own # {} THEN own ELSE Cands("global", ns, n, l)
     IN Cardinality(c) <= 1 /\ act' = [name |-> "Resolve", s |-> s, ns |-> ns, n |-> n, l |-> l, res |-> IF c = {} THEN None ELSE CHOOSE i \in c : TRUE]
  /\ E' = E
Next == \/ \E i \in Pick(Ids), e \in Pick(Entries) : Save(i, e)
        \/ \E i \in Pick(Ids) : Delete(i)
        \/ \E s \in Pick(Scopes) : Clear(s) \/ \E ns \in Pick(Namespaces), n \in Pick({ x.name : x \in Shapes }), l \in Pick({"typescript", "python"}) : Resolve(s, ns, n, l)
        \/ Reopen
Spec == Init /\ [][Next]_vars
Wild(S) == S \cup {None}
Is(q, x) == q = None \/ q = x
Lists == UNION { { <<s, ns, c, i>> : i \in { i \in DOMAIN E : Is(s, E[i].scope) /\ Is(ns, E[i].ns) /\ Is(c, E[i].cat) } } : s \in Wild(Scopes), ns \in Wild(Namespaces), c \in Wild(Categories) }
\* what a search in a scope reaches: every entry stored with a direction, the ones pointing the asked way first
Found == UNION { { <<s, q, i, E[i].em = q>> : i \in { i \in DOMAIN E : Is(s, E[i].scope) /\ E[i].em # None } } : s \in Wild(Scopes), q \in Vecs \ {None} }
State == [E |-> E, lists |-> Lists, found |-> Found]
Full == [E |-> E]
-----------------------------------------------------------------------------
Plain == {[name |-> "n1", lang |-> "typescript"], [name |-> "n1", lang |-> "all"]}
One == {[name |-> "n1", lang |-> "typescript"]}
Many == {[name |-> "n1", lang |-> "typescript"], [name |-> "n1", lang |-> "all"], [name |-> "n2", lang |-> "typescript"], [name |-> "n1", lang |-> "python"]}
NoVecs == {None}
TwoVecs == {None, "e1", "e2"}
-----------------------------------------------------------------------------
OneScope == \A i \in DOMAIN E : Cardinality({ s \in Scopes : <<s, None, None, i>> \in Lists }) = 1
OnlyThat == [][\A i \in DOMAIN E : (i \notin DOMAIN E' \/ E'[i] # E[i]) => ((act'.name \in {"Save", "Delete"} /\ act'.i = i) \/ (act'.name = "Clear" /\ act'.s = E[i].scope))]_vars
=============================================================================
