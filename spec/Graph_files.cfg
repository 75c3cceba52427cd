CONSTANTS
 Repos = {"r1"}
 Ids1 = {"a1", "a2"}
 Ids2 = {}
 Mods = {}
 Files = {"f1", "f2"}
 EKs = {"function"}
 Names = {"n1"}
 Bodies = {"x1"}
 RKs = {"CALLS"}
 Raws = {}
 Metas = {"m1"}
 Models = {}
 Ems = {"-"}
 Kinds = {"Upsert", "Reindex", "DeleteFile", "Relate", "DeleteRepoEntities"}
 Spells = {"plain"}
 Bads = {}
 Batch = 1
 MaxBorn = 1
 Start = "two"
INVARIANTS EdgesHaveEndpoints EntitiesHaveRepos RefsHaveRepos RefOnce
PROPERTIES AllOrNothing IdentityNeverReused NeverLost OthersUntouched
