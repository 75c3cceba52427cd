CONSTANTS
 Kinds = {}
 Keys = {}
 Slashed <- JustPath
 Cap = 4
 Decisions = {"deny", "approve"}
 MaxTime = 2
 Acts = {"Log", "Tick"}
INVARIANTS Founded Components Bounded
PROPERTIES TakesBack Separate
