CONSTANTS
 ListIds = {"l1", "l2"}
 ItemIds = {}
 ComIds = {}
 Sessions = {"s1", "s2"}
 Owners = {"u"}
 Ords = {1}
 Kinds = {"newList", "listStatus", "reparent", "delSession"}
 ItemSt = {}
 Reasons = {}
 MaxTr = 1
 Conc = FALSE
 Start = "empty"
INVARIANTS Forest SameSession Owned Chained NoOrphans DoneMatches BlockedHasReason
PROPERTIES TransfersGrow TerminalStays
