CONSTANTS
 Repos = {"r1", "r2"}
 Ids1 = {"a1", "a2"}
 Ids2 = {"b1"}
 Mods = {}
 Files = {"f1"}
 EKs = {"function"}
 Names = {"n1"}
 Bodies = {"x1"}
 RKs = {"CALLS", "BOGUS"}
 Raws = {"w1"}
 Metas = {"m1"}
 Models = {"e1", "e2"}
 Ems = {"-", "e1"}
 Kinds = {"Upsert", "Reindex", "DeleteIds", "Embed", "RemoveRepo", "Reopen"}
 Spells = {"plain"}
 Bads = {}
 Batch = 1
 MaxBorn = 1
 Start = "two"
INVARIANTS EdgesHaveEndpoints EntitiesHaveRepos RefsHaveRepos RefOnce
PROPERTIES AllOrNothing IdentityNeverReused NeverLost OthersUntouched
