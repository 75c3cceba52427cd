CONSTANTS
 Kinds = {"fs-path"}
 Keys <- PathKeys
 Slashed <- JustPath
 Cap = 4
 Decisions = {}
 MaxTime = 2
 Acts = {"Approve", "Prefix"}
INVARIANTS Founded Components Bounded
PROPERTIES TakesBack Separate
