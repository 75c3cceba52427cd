CONSTANTS
 ListIds = {"l1"}
 ItemIds = {"i1"}
 ComIds = {}
 Sessions = {"s1", "s2"}
 Callers = {"planner", "system"}
 Kinds = {"Create", "Status", "Cleanup", "Retention", "Tick"}
 ItemSt = {}
 Targets = {}
 MaxDay = 3
 MaxTr = 1
 Seeds = {0, 1}
 Start = "empty"
INVARIANTS Forest
PROPERTIES OnlyOwner RefusedChangesNothing EveryChangeAnnounced LastEventIsCurrent SourceNeverChanges
