CONSTANTS
 MaxTok = 40
 Cap = 6
 MaxTime = 100000
 Updates = FALSE
 Stages <- TwoStages
 Steps <- DSteps
INVARIANTS Bounded Distinct
PROPERTIES Untouched LruFirst FreshKept
