CONSTANTS
 ListIds = {"l1", "l2", "l3"}
 ItemIds = {}
 ComIds = {}
 Sessions = {"s1"}
 Owners = {"u"}
 Ords = {1}
 Kinds = {"reparent", "delList"}
 ItemSt = {}
 Reasons = {}
 MaxTr = 1
 Conc = TRUE
 Start = "lists"
INVARIANTS Forest SameSession Owned Chained NoOrphans DoneMatches BlockedHasReason
PROPERTIES TransfersGrow TerminalStays
