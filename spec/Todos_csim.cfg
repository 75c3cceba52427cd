CONSTANTS
 ListIds = {"l1", "l2", "l3", "l4"}
 ItemIds = {"i1", "i2", "i3"}
 ComIds = {"c1", "c2", "c3"}
 Sessions = {"s1", "s2"}
 Owners = {"u", "p", "d"}
 Ords = {1, 2, 3}
 Kinds = {"newList", "newItem", "listStatus", "listTitle", "item", "itemOrder", "transfer", "reparent", "comment", "editComment", "ack", "delComment", "delItem", "delList", "delSession"}
 ItemSt = {"-", "pending", "in_progress", "blocked", "completed", "cancelled", "gone"}
 Reasons = {"-", " ", "r"}
 MaxTr = 4
 Conc = TRUE
 Start = "empty"
INVARIANTS Forest SameSession Owned Chained NoOrphans DoneMatches BlockedHasReason
PROPERTIES TransfersGrow TerminalStays
