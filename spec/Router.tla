------------------------------- MODULE Router -------------------------------
\* Which model serves which kind of request (src/config/analyze.ts, role-taxonomy.ts, core-floor-guard.ts,
\* write-path.ts, src/analyze/context/role-router.ts, src/cli/panes/model-tiers.ts) (C03).
\* The settings file is a set of entries <<scope, key>>; the daemon reads it once and works from that.
EXTENDS Common
CONSTANTS Scopes,         \* "g" or a repository
          Keys,           \* settings that are edited
          Models,         \* values of tier settings
          Tiers,          \* values of task and floor settings; "high" is none
          Roles, Asks,    \* asked for: roles, scopes ("g": no repository)
          Acts
VARIABLES file, loaded, memo, act
vars == <<file, loaded, memo, act>>
On(a) == a \in Acts
\* tier models: [runner, model]
Value(x) == CASE x = "a" -> <<"cli-claude", "m-a">> [] x = "b" -> <<"cli-codex", "m-b">> [] x = "l" -> <<"ollama", "loc:7b">>
              [] x = "x" -> <<"cli-claude", "loc:9b">>      \* a local model's name for a command-line backend
              [] x = "norunner" -> <<"openai", "m-c">> [] x = "nomodel" -> <<"cli-codex", "">> [] OTHER -> <<"-", "-">>
TierKeys == {"core", "mid", "cheap"}
Runners == {"cli-claude", "cli-codex", "ollama"}
IsTier(v) == v \in TierKeys
Valid(k, v) == IF k \in TierKeys THEN Value(v)[1] \in Runners /\ Value(v)[2] # "" ELSE IsTier(v)
Rank(t) == CASE t = "cheap" -> 0 [] t = "mid" -> 1 [] OTHER -> 2
Default(t) == CASE t = "core" -> <<"cli-claude", "opus">> [] t = "mid" -> <<"cli-claude", "sonnet">> [] OTHER -> <<"ollama", "qwen3.6:27b">>
DefaultTier(r) == CASE r = "build" -> "core" [] r = "synth" -> "mid" [] r = "classify" -> "cheap" [] OTHER -> "mid"
Critical(r) == r = "build"
Known(r) == r \in {"build", "synth", "classify"}
TaskKey(r) == "task-" \o r
\* what the daemon makes of the file: entries that make no sense do not count
Read(f) == [x \in { x \in DOMAIN f : Valid(x[2], f[x]) } |-> f[x]]
First3(c, s, k, d) == IF <<s, k>> \in DOMAIN c THEN c[<<s, k>>] ELSE Get(c, <<"g", k>>, d)
Assigned(c, s, r) == First3(c, s, TaskKey(r), DefaultTier(r))
Floor(c, s) == First3(c, s, "floor", "mid")
Clamped(c, s, r) == Critical(r) /\ Rank(Assigned(c, s, r)) < Rank(Floor(c, s))
Tier(c, s, r) == IF Clamped(c, s, r) THEN Floor(c, s) ELSE Assigned(c, s, r)
Model(c, s, t) == LET v == First3(c, s, t, None) IN IF v = None THEN Default(t) ELSE Value(v)
\* the backend is never handed the name of a local model
Told(m) == IF m[1] # "ollama" /\ m[2] \in {"loc:7b", "loc:9b", "qwen3.6:27b"} THEN None ELSE m[2]
Answer(c, s, r) == LET t == Tier(c, s, r) m == Model(c, s, t) IN
  [role |-> r, tier |-> t, runner |-> m[1], model |-> m[2], clamped |-> Clamped(c, s, r), told |-> Told(m)]
-----------------------------------------------------------------------------
Init == file = EmptyFn /\ loaded = <<"no">> /\ memo = EmptyFn /\ act = [name |-> "Init"]
Cfg == IF loaded[1] = "no" THEN Read(file) ELSE loaded[2]
\* "Fresh": the daemon is started anew for every question
Load == loaded' = IF On("Fresh") THEN loaded ELSE <<"yes", Cfg>>
Set(s, k, v) == (v \in (IF k \in TierKeys THEN Models ELSE Tiers)) /\ On("Set")
  /\ file' = Put(file, <<s, k>>, v) /\ UNCHANGED <<loaded, memo>> /\ act' = [name |-> "Set", s |-> s, k |-> k, v |-> v, res |-> "ok"]
Clear(s, k) == On("Clear") /\ <<s, k>> \in DOMAIN file
  /\ file' = Drop(file, {<<s, k>>}) /\ UNCHANGED <<loaded, memo>> /\ act' = [name |-> "Clear", s |-> s, k |-> k, res |-> "ok"]
Restart == On("Restart") /\ loaded' = <<"no">> /\ memo' = EmptyFn /\ UNCHANGED file /\ act' = [name |-> "Restart", res |-> "ok"]
\* asked of a new router (one per run) or of one that is kept
Ask(r, s) == On("Ask") /\ Load /\ UNCHANGED <<file, memo>> /\ act' = [name |-> "Ask", r |-> r, s |-> s, fresh |-> On("Fresh"), res |-> Answer(Cfg, s, r)]
AskKept(r, s) == On("AskKept") /\ Load /\ UNCHANGED file
  /\ LET a == Get(memo, <<r, s>>, Answer(Cfg, s, r)) IN memo' = Put(memo, <<r, s>>, a) /\ act' = [name |-> "AskKept", r |-> r, s |-> s, res |-> a]
\* the backend pinned for a repository is read afresh; each half counts by itself
Pin(s) == On("Pin") /\ s # "g" /\ UNCHANGED <<file, loaded, memo>>
  /\ act' = [name |-> "Pin", s |-> s, res |-> LET v == Value(Get(file, <<s, "core">>, None)) IN <<IF v[1] \in Runners THEN v[1] ELSE None, IF v[2] = "" THEN None ELSE v[2]>>]
Summariser == On("Summariser") /\ Load /\ UNCHANGED <<file, memo>>
  /\ act' = [name |-> "Summariser", fresh |-> On("Fresh"), res |-> LET m == Model(Cfg, "g", "cheap") IN [tier |-> "cheap", runner |-> m[1], model |-> m[2]]]
\* the guard by itself refuses what is no tier
Guard(r, t, f) == On("Guard") /\ UNCHANGED <<file, loaded, memo>>
  /\ act' = [name |-> "Guard", r |-> r, t |-> t, f |-> f, res |->
       IF ~IsTier(t) THEN <<"refused", "resolvedTier">>
       ELSE IF ~Critical(r) THEN <<t, "kept">>
       ELSE IF f # None /\ ~IsTier(f) THEN <<"refused", "configuredFloor">>
       ELSE LET fl == IF f = None THEN "mid" ELSE f IN IF Rank(t) < Rank(fl) THEN <<fl, "raised">> ELSE <<t, "kept">>]
Next == \/ \E s \in Pick(Scopes), k \in Pick(Keys), v \in Pick(Models \cup Tiers) : Set(s, k, v)
        \/ \E s \in Pick(Scopes), k \in Pick(Keys) : Clear(s, k)
        \/ \E r \in Pick(Roles), s \in Pick(Asks) : Ask(r, s) \/ AskKept(r, s) \/ Pin(s)
        \/ Restart \/ Summariser
        \/ \E r \in Pick({"build", "synth"}), t \in Pick(Tiers), f \in Pick(Tiers \cup {None}) : Guard(r, t, f)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* what the settings screen shows: as a daemon started now would have it, without a repository
Shown == [r \in {"build", "synth", "classify"} |-> <<Assigned(Read(file), "g", r), Tier(Read(file), "g", r), Clamped(Read(file), "g", r)>>]
State == [ file |-> { <<x[1], x[2], file[x]>> : x \in DOMAIN file }, shown |-> Shown, floor |-> Floor(Read(file), "g"),
           models |-> [t \in TierKeys |-> Model(Read(file), "g", t)] ]
Full == [file |-> file, loaded |-> loaded, memo |-> memo]
-----------------------------------------------------------------------------
\* a critical request is never served below the floor; others are served as assigned; other repositories do not matter
FloorHolds == \A s \in Asks, r \in Roles : LET c == Read(file) IN
  /\ Critical(r) => Rank(Tier(c, s, r)) >= Rank(Floor(c, s))
  /\ ~Critical(r) => Tier(c, s, r) = Assigned(c, s, r)
  /\ \A o \in Scopes \ {"g", s} : Answer(Drop(c, { x \in DOMAIN c : x[1] = o }), s, r) = Answer(c, s, r)
Steady == [][\A x \in DOMAIN memo : x \in DOMAIN memo' => memo'[x] = memo[x]]_vars
=============================================================================
