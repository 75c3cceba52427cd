CONSTANTS
 ListIds = {"l1", "l2"}
 ItemIds = {"i1", "i2"}
 ComIds = {}
 Sessions = {"s1", "s2"}
 Callers = {"planner", "system"}
 Kinds = {"Create", "Status", "Cleanup", "Tick"}
 ItemSt = {}
 Targets = {}
 MaxDay = 1
 MaxTr = 1
 Seeds = {1}
 Start = "empty"
INVARIANTS Forest
PROPERTIES OnlyOwner RefusedChangesNothing EveryChangeAnnounced LastEventIsCurrent SourceNeverChanges
