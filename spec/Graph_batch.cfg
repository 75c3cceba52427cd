CONSTANTS
 Repos = {"r1", "r2"}
 Ids1 = {"a1", "a2"}
 Ids2 = {"b1"}
 Mods = {}
 Files = {"f1"}
 EKs = {"function"}
 Names = {"n1"}
 Bodies = {"x1"}
 RKs = {"CALLS", "BOGUS"}
 Raws = {"w1"}
 Metas = {"m1"}
 Models = {}
 Ems = {"-"}
 Kinds = {"Upsert", "Relate", "Reindex", "BadRepo"}
 Spells = {"plain"}
 Bads = {"long"}
 Batch = 2
 MaxBorn = 1
 Start = "one"
INVARIANTS EdgesHaveEndpoints EntitiesHaveRepos RefsHaveRepos RefOnce
PROPERTIES AllOrNothing IdentityNeverReused NeverLost OthersUntouched
