CONSTANTS
 ListIds = {"l1"}
 ItemIds = {"i1"}
 ComIds = {"c1", "c2"}
 Sessions = {"s1"}
 Callers = {"planner", "user", "system"}
 Kinds = {"Comment", "Edit", "Uncomment", "Ack", "Transfer"}
 ItemSt = {}
 Targets = {"planner", "designer"}
 MaxDay = 0
 MaxTr = 2
 Seeds = {0}
 Start = "items"
INVARIANTS Forest
PROPERTIES OnlyOwner RefusedChangesNothing EveryChangeAnnounced LastEventIsCurrent SourceNeverChanges
