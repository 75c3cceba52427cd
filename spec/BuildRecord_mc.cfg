CONSTANTS
 Tasks <- T2
 Batches <- B1
INVARIANTS TasksOnce
PROPERTIES KeepsDecision KeepsTasks NeverBlocked
