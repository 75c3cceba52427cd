CONSTANTS
 Tpls <- Everything
 MaxAdopt = 60
INVARIANTS OneOwner UniqueNames StoriesOnce RolloutKeeps
PROPERTIES RefusedIsNoop
