CONSTANTS
 ListIds = {"l1", "l2"}
 ItemIds = {"i1", "i2"}
 ComIds = {}
 Sessions = {"s1"}
 Owners = {"u"}
 Ords = {1}
 Kinds = {"newItem", "item", "delItem", "delList"}
 ItemSt = {"-", "pending", "in_progress", "blocked", "completed", "cancelled", "gone"}
 Reasons = {"-", " ", "r"}
 MaxTr = 1
 Conc = FALSE
 Start = "lists"
INVARIANTS Forest SameSession Owned Chained NoOrphans DoneMatches BlockedHasReason
PROPERTIES TransfersGrow TerminalStays
