CONSTANTS
 ListIds = {"l1", "l2"}
 ItemIds = {}
 ComIds = {}
 Sessions = {"s1"}
 Callers = {"user", "planner", "hacker"}
 Kinds = {"Title", "BigBody", "Reparent", "Transfer", "Clear"}
 ItemSt = {}
 Targets = {"planner"}
 MaxDay = 0
 MaxTr = 2
 Seeds = {0}
 Start = "list"
INVARIANTS Forest
PROPERTIES OnlyOwner RefusedChangesNothing EveryChangeAnnounced LastEventIsCurrent SourceNeverChanges
