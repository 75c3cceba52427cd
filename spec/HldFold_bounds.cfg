CONSTANTS
 Tpls <- Bounds
 MaxAdopt = 6
INVARIANTS OneOwner UniqueNames StoriesOnce RolloutKeeps
PROPERTIES RefusedIsNoop
