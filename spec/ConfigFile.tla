----------------------------- MODULE ConfigFile -----------------------------
\* The settings file on disk while src/config/reconcile-io.ts reconciles it (C02): every fault point, crash point
\* and concurrent edit. What reconciliation computes is specified in Config.tla (C01); here a document only has two
\* rows of the catalog (x, y) and one entry of the user's own (u).
EXTENDS Common
CONSTANTS Users,     \* the documents a user may write
          Cats,      \* catalogs: "one" knows x, "two" knows x and y, "bad" contradicts itself
          Points     \* how many fault points are tried
VARIABLES f, act     \* f = [k |-> kind, d |-> document]
vars == <<f, act>>

Doc(d) == [k |-> "doc", d |-> d]
Is(k) == [k |-> k, d |-> EmptyFn]
UserDocs == [empty |-> EmptyFn, x |-> [x |-> "s1"], xy |-> [x |-> "s1", y |-> "s2"], u |-> [u |-> "s1"], xu |-> [x |-> "d", u |-> "s2"], full |-> [x |-> "s2", y |-> "d", u |-> "s1"]]
Kinds == {"absent", "junk", "dir", "odd"}      \* no file; not JSON; unreadable; JSON but not an object
Content(w) == IF w \in Kinds THEN Is(w) ELSE Doc(UserDocs[w])

Fill(cat, d) == LET need == (IF cat = "one" THEN {"x"} ELSE {"x", "y"}) \ DOMAIN d IN [n \in DOMAIN d \cup need |-> IF n \in DOMAIN d THEN d[n] ELSE "d"]
\* what an undisturbed reconciliation does to file g: {[kind, file]}
Normal(cat, g) ==
  IF g.k = "dir" THEN {[kind |-> "read-error", f |-> g]}
  ELSE IF g.k = "junk" THEN {[kind |-> k, f |-> g] : k \in {"parse-error"}}
  ELSE IF cat = "bad" THEN {[kind |-> "catalog-error", f |-> g]}
  ELSE IF g.k = "absent" THEN {[kind |-> "first-boot", f |-> Doc(Fill(cat, EmptyFn))]}
  ELSE IF g.k = "odd" THEN {[kind |-> "written", f |-> Doc(Fill(cat, EmptyFn))]}
  ELSE IF Fill(cat, g.d) = g.d THEN {[kind |-> "unchanged", f |-> g]}
  ELSE {[kind |-> "written", f |-> Doc(Fill(cat, g.d))]}
Due(cat, g) == \E o \in Normal(cat, g) : o.f # g
Gave(o, g) == [kind |-> o.kind, changes |-> IF o.f = g THEN 0 ELSE 1, left |-> 0]
Alts(outs) == IF TLCGet("config").mode = "simulate" THEN SetToSeq(outs) ELSE <<>>      \* what else would have been right
Untouched(kinds, g) == {[kind |-> k, f |-> g] : k \in kinds}

Init == /\ f \in {Is("absent")}
        /\ act = [name |-> "Init"]
UserWrites(w) == /\ f' = Content(w)
                 /\ act' = [name |-> "UserWrites", w |-> w, res |-> "ok"]
Reconcile(cat) == \E o \in Normal(cat, f) :
  /\ f' = o.f
  /\ act' = [name |-> "Reconcile", cat |-> cat, res |-> Gave(o, f)]
\* The i-th read of the file fails. The first one always happens, so the failure is reported; whether there are
\* further reads is not specified, but a failing one never makes it lose anything.
ReadFault(cat, i) == LET outs == (IF i = 1 THEN Untouched({"read-error"}, f) ELSE Normal(cat, f) \cup Untouched({"read-error", "write-error", "concurrent-modification"}, f)) IN \E o \in outs :
  /\ f' = o.f
  /\ act' = [name |-> "ReadFault", cat |-> cat, i |-> i, res |-> Gave(o, f), alts |-> Alts({[res |-> Gave(q, f), s |-> [f |-> q.f]] : q \in outs})]
\* The i-th modifying call fails, possibly after half of its data reached the disk. A needed write has at least one.
WriteFault(cat, i, half) == LET outs == (IF ~Due(cat, f) THEN Normal(cat, f) ELSE IF i = 1 THEN Untouched({"write-error"}, f) ELSE Normal(cat, f) \cup Untouched({"write-error"}, f)) IN \E o \in outs :
  /\ f' = o.f
  /\ act' = [name |-> "WriteFault", cat |-> cat, i |-> i, half |-> half, res |-> Gave(o, f), alts |-> Alts({[res |-> Gave(q, f), s |-> [f |-> q.f]] : q \in outs})]
\* The process dies before the i-th modifying call, or in the middle of it. What it had written stays.
Crash(cat, i, half) == LET outs == {o \in Normal(cat, f) \cup {[kind |-> "died", f |-> g] : g \in (IF Due(cat, f) THEN {f} ELSE {}) \cup (IF Due(cat, f) /\ i > 1 THEN {p.f : p \in Normal(cat, f)} ELSE {})} : Due(cat, f) /\ i = 1 => o.kind = "died"} IN \E o \in outs :
  /\ f' = o.f
  /\ act' = [name |-> "Crash", cat |-> cat, i |-> i, half |-> half, res |-> Gave(o, f), alts |-> Alts({[res |-> Gave(q, f), s |-> [f |-> q.f]] : q \in outs})]
\* Someone else replaces the file right after it was first looked at (at = "look"), right after its content was read
\* (at = "read") or right after the first modifying call (at = "write", the temporary copy). Their edit is never lost:
\* it is left alone, or it is what gets reconciled. (An edit after the last look is beyond any program's reach.)
Race(cat, at, w) == LET g == Content(w) IN
  /\ f.k # "absent" /\ g # f
  /\ LET outs == Untouched({"concurrent-modification", "unchanged", "parse-error", "catalog-error", "read-error", "late"}, g) \cup (IF at = "look" THEN Normal(cat, g) ELSE {}) IN \E o \in outs :
     /\ f' = o.f
     /\ act' = [name |-> "Race", cat |-> cat, at |-> at, w |-> w, res |-> Gave(o, g), alts |-> Alts({[res |-> Gave(q, g), s |-> [f |-> q.f]] : q \in outs})]
Next == \/ \E w \in Pick(Users) : Content(w) # f /\ UserWrites(w)
        \/ \E cat \in Pick(Cats) : \/ Reconcile(cat)
             \/ \E i \in Pick(1..Points) : \/ ReadFault(cat, i)
                  \/ \E half \in BOOLEAN : WriteFault(cat, i, half) \/ Crash(cat, i, half)
             \/ \E at \in {"look", "read", "write"}, w \in Pick(Users \ {"absent", "dir"}) : Race(cat, at, w)
Spec == Init /\ [][Next]_vars
State == [f |-> f]
Full == [f |-> f]
-----------------------------------------------------------------------------
\* Whatever happens, the user's own words survive everything but the user.
Kept == [][act'.name \notin {"UserWrites", "Race"} /\ f.k = "doc" => f'.k = "doc" /\ \A n \in DOMAIN f.d : n \in DOMAIN f'.d /\ f'.d[n] = f.d[n]]_vars
\* A file that cannot be understood is left alone.
HandsOff == [][act'.name \notin {"UserWrites", "Race"} /\ f.k \in {"junk", "dir"} => f' = f]_vars
\* An edit made meanwhile survives.
EditSurvives == [][act'.name = "Race" => LET g == Content(act'.w) IN f'.k = (IF g.k = "odd" /\ act'.res.changes = 1 THEN "doc" ELSE g.k) /\ \A n \in DOMAIN g.d : f'.d[n] = g.d[n]]_vars
\* After a successful run nothing is left to do.
Settles == [][act'.name = "Reconcile" /\ act'.res.kind \in {"written", "first-boot", "unchanged"} => Normal(act'.cat, f') = {[kind |-> "unchanged", f |-> f']}]_vars
TypeOK == f.k \in Kinds \cup {"doc"}
=============================================================================
