CONSTANTS
 Tasks <- T3
 Batches <- B2
INVARIANTS TasksOnce
PROPERTIES KeepsDecision KeepsTasks NeverBlocked
