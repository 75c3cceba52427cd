CONSTANTS
 Repos = {"r1"}
 Ids1 = {"a1", "a2"}
 Ids2 = {}
 Mods = {}
 Files = {"f1"}
 EKs = {"function"}
 Names = {"n1"}
 Bodies = {"x1"}
 RKs = {"CALLS", "DEFINES"}
 Raws = {}
 Metas = {"m1"}
 Models = {}
 Ems = {"-"}
 Kinds = {"Relate", "Unrelate", "DeleteIds", "Reopen"}
 Spells = {"plain"}
 Bads = {}
 Batch = 1
 MaxBorn = 1
 Start = "ents"
INVARIANTS EdgesHaveEndpoints EntitiesHaveRepos RefsHaveRepos RefOnce
PROPERTIES AllOrNothing IdentityNeverReused NeverLost OthersUntouched
