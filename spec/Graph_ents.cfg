CONSTANTS
 Repos = {"r1"}
 Ids1 = {"a1"}
 Ids2 = {}
 Mods = {"m1"}
 Files = {"f1"}
 EKs = {"function", "class"}
 Names = {"n1", "n2"}
 Bodies = {"x1"}
 RKs = {"CALLS", "BOGUS"}
 Raws = {"w1"}
 Metas = {"m1"}
 Models = {"e1"}
 Ems = {"-"}
 Kinds = {"Upsert", "DeleteIds", "Embed", "Summarise"}
 Spells = {"plain"}
 Bads = {}
 Batch = 1
 MaxBorn = 1
 Start = "one"
INVARIANTS EdgesHaveEndpoints EntitiesHaveRepos RefsHaveRepos RefOnce
PROPERTIES AllOrNothing IdentityNeverReused NeverLost OthersUntouched
