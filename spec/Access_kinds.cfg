CONSTANTS
 Kinds = {"fs-path", "cloud"}
 Keys <- TwoKeys
 Slashed <- JustPath
 Cap = 4
 Decisions = {}
 MaxTime = 1
 Acts = {"Approve", "Prefix"}
INVARIANTS Founded Components Bounded
PROPERTIES TakesBack Separate
