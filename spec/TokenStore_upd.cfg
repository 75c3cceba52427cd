CONSTANTS
 MaxTok = 3
 Cap = 2
 MaxTime = 120
 Updates = TRUE
 Stages <- OneStage
 Steps <- QSteps
INVARIANTS Bounded Distinct
PROPERTIES Untouched LruFirst FreshKept
