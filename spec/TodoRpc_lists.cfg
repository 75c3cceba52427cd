CONSTANTS
 ListIds = {"l1", "l2"}
 ItemIds = {"i1"}
 ComIds = {}
 Sessions = {"s1"}
 Callers = {"user", "planner"}
 Kinds = {"Create", "Status", "Transfer", "DeleteList", "See"}
 ItemSt = {}
 Targets = {"planner", "user", "system", "nobody"}
 MaxDay = 0
 MaxTr = 2
 Seeds = {0}
 Start = "empty"
INVARIANTS Forest
PROPERTIES OnlyOwner RefusedChangesNothing EveryChangeAnnounced LastEventIsCurrent SourceNeverChanges
