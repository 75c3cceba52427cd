CONSTANTS
 ListIds = {"l1"}
 ItemIds = {"i1", "i2", "i3", "i4"}
 ComIds = {}
 Sessions = {"s1"}
 Callers = {"planner", "user"}
 Kinds = {"AddItem", "Reorder", "Remove"}
 ItemSt = {}
 Targets = {}
 MaxDay = 0
 MaxTr = 1
 Seeds = {0}
 Start = "list"
INVARIANTS Forest
PROPERTIES OnlyOwner RefusedChangesNothing EveryChangeAnnounced LastEventIsCurrent SourceNeverChanges
