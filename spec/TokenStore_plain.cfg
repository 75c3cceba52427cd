CONSTANTS
 MaxTok = 4
 Cap = 3
 MaxTime = 120
 Updates = FALSE
 Stages <- OneStage
 Steps <- QSteps
INVARIANTS Bounded Distinct
PROPERTIES Untouched LruFirst FreshKept
