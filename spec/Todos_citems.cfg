CONSTANTS
 ListIds = {"l1"}
 ItemIds = {"i1"}
 ComIds = {}
 Sessions = {"s1"}
 Owners = {"u"}
 Ords = {1, 2}
 Kinds = {"newItem", "item", "itemOrder", "delItem", "delList"}
 ItemSt = {"-", "in_progress", "blocked", "completed", "cancelled"}
 Reasons = {"-", "r"}
 MaxTr = 1
 Conc = TRUE
 Start = "items"
INVARIANTS Forest SameSession Owned Chained NoOrphans DoneMatches BlockedHasReason
PROPERTIES TransfersGrow TerminalStays
