CONSTANTS
 Files = {"a", "b", "c"}
 MaxC = 4
 HasCalls = FALSE
 Acts = {"Write", "Unlink", "Stop", "Partial", "Reindex", "Crash"}
 Crashes = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}
INVARIANTS Closed Settled Never
