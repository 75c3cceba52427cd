CONSTANTS
 MaxTok = 3
 Cap = 2
 MaxTime = 120
 Updates = FALSE
 Stages <- TwoStages
 Steps <- QSteps
INVARIANTS Bounded Distinct
PROPERTIES Untouched LruFirst FreshKept
