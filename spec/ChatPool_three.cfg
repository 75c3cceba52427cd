CONSTANTS
 Ids <- ThreeIds
 Repos = {"a"}
 Acts = {"Create", "Tick", "Pair"}
INVARIANTS NoTwice OwnRepo
PROPERTIES Leaves ClosedLeft
