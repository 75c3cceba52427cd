CONSTANTS
 ListIds = {"l1", "l2", "l3", "l4"}
 ItemIds = {"i1", "i2", "i3", "i4", "i5", "i6"}
 ComIds = {"c1", "c2", "c3"}
 Sessions = {"s1", "s2"}
 Callers = {"planner", "user", "system", "hacker", "designer"}
 Kinds = {"Create", "Title", "BigBody", "Status", "Transfer", "Reparent", "AddItem", "UpdateItem", "Reorder", "Remove", "Clear", "DeleteList", "Cleanup", "Retention", "Tick", "Comment", "Edit", "Uncomment", "Ack", "See", "Fill"}
 ItemSt = {"-", "pending", "in_progress", "blocked", "completed", "cancelled"}
 Targets = {"planner", "user", "system", "nobody", "designer"}
 MaxDay = 8
 MaxTr = 5
 Seeds = {0, 1, 2}
 Start = "list"
INVARIANTS Forest
PROPERTIES OnlyOwner RefusedChangesNothing EveryChangeAnnounced LastEventIsCurrent SourceNeverChanges
