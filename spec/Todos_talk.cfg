CONSTANTS
 ListIds = {"l1"}
 ItemIds = {"i1", "i2"}
 ComIds = {"c1", "c2"}
 Sessions = {"s1"}
 Owners = {"u", "p"}
 Ords = {1, 2}
 Kinds = {"comment", "editComment", "ack", "delComment", "delItem", "delList"}
 ItemSt = {}
 Reasons = {}
 MaxTr = 1
 Conc = FALSE
 Start = "items"
INVARIANTS Forest SameSession Owned Chained NoOrphans DoneMatches BlockedHasReason
PROPERTIES TransfersGrow TerminalStays
