CONSTANTS
 ListIds = {"l1"}
 ItemIds = {"i1", "i2"}
 ComIds = {}
 Sessions = {"s1"}
 Callers = {"planner", "user"}
 Kinds = {"UpdateItem", "Status", "Remove", "Clear"}
 ItemSt = {"-", "pending", "in_progress", "blocked", "completed", "cancelled"}
 Targets = {}
 MaxDay = 0
 MaxTr = 1
 Seeds = {0}
 Start = "items"
INVARIANTS Forest
PROPERTIES OnlyOwner RefusedChangesNothing EveryChangeAnnounced LastEventIsCurrent SourceNeverChanges
