CONSTANTS
 Files = {"a", "b"}
 MaxC = 2
 HasCalls = FALSE
 Acts = {"Write", "Unlink", "Stop", "Partial", "Reindex"}
 Crashes = {1}
INVARIANTS Closed Settled Never
