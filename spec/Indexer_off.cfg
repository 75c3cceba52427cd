CONSTANTS
 Files = {"a", "b"}
 MaxC = 2
 HasCalls = TRUE
 Acts = {"Write", "Unlink", "Stop", "Partial", "Reindex"}
 Crashes = {1}
INVARIANTS Closed Settled Never
