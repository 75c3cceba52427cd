CONSTANTS
 Kinds = {"fs-path", "cloud", "connection", "net"}
 Keys <- AllKeys
 Slashed <- JustPath
 Cap = 4
 Decisions = {"deny", "approve", "auto-pass", "approve-prefix", "auto-deny"}
 MaxTime = 6
 Acts = {"Approve", "Prefix", "Tick", "Log"}
INVARIANTS Founded Components Bounded
PROPERTIES TakesBack Separate
