CONSTANTS
 Repos = {"r1", "r2"}
 Ids1 = {"a1"}
 Ids2 = {}
 Mods = {"m1"}
 Files = {"f1", "f2"}
 EKs = {"function"}
 Names = {"n1"}
 Bodies = {"x1"}
 RKs = {"CALLS"}
 Raws = {"w1", "w2"}
 Metas = {"m1"}
 Models = {}
 Ems = {"-"}
 Kinds = {"Refer", "Promote", "Meta", "DropFileRefs", "DropRepoRefs", "DeleteIds", "Upsert", "DeleteFile"}
 Spells = {"plain"}
 Bads = {}
 Batch = 1
 MaxBorn = 2
 Start = "refs"
INVARIANTS EdgesHaveEndpoints EntitiesHaveRepos RefsHaveRepos RefOnce
PROPERTIES AllOrNothing IdentityNeverReused NeverLost OthersUntouched
