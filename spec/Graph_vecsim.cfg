CONSTANTS
 Repos = {"r1", "r2"}
 Ids1 = {"a1", "a2", "a3"}
 Ids2 = {"b1", "b2"}
 Mods = {"m1"}
 Files = {"f1", "f2"}
 EKs = {"function", "class"}
 Names = {"n1", "n2"}
 Bodies = {"x1", "x2"}
 RKs = {"CALLS", "DEFINES", "BOGUS"}
 Raws = {"w1", "w2"}
 Metas = {"m1", "m2"}
 Models = {"e1", "e2"}
 Ems = {"-", "e1"}
 Kinds = {"AddRepo", "BadRepo", "RemoveRepo", "Status", "Upsert", "Reindex", "DeleteFile", "DeleteIds", "DeleteRepoEntities", "Embed", "Summarise", "Unsummarise", "Upsert2", "Upsert3", "Relate", "Relate2", "Relate3", "Refer", "Unrelate", "Promote", "Meta", "DropFileRefs", "DropRepoRefs", "Reopen"}
 Spells = {"plain", "slash", "dots"}
 Bads = {"long"}
 Batch = 2
 MaxBorn = 100
 Start = "two"
INVARIANTS EdgesHaveEndpoints EntitiesHaveRepos RefsHaveRepos RefOnce
PROPERTIES AllOrNothing IdentityNeverReused NeverLost OthersUntouched
