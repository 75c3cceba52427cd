CONSTANTS
 Repos = {"r1", "r2"}
 Ids1 = {"a1"}
 Ids2 = {"b1"}
 Mods = {}
 Files = {"f1"}
 EKs = {"function"}
 Names = {"n1"}
 Bodies = {"x1"}
 RKs = {"CALLS"}
 Raws = {"w1"}
 Metas = {"m1"}
 Models = {}
 Ems = {"-"}
 Kinds = {"AddRepo", "RemoveRepo", "Upsert", "Relate", "Summarise"}
 Spells = {"plain"}
 Bads = {}
 Batch = 1
 MaxBorn = 1
 Start = "empty"
INVARIANTS EdgesHaveEndpoints EntitiesHaveRepos RefsHaveRepos RefOnce
PROPERTIES AllOrNothing IdentityNeverReused NeverLost OthersUntouched
