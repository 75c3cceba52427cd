CONSTANTS
 Files = {"a", "b"}
 MaxC = 4
 HasCalls = TRUE
 Acts = {"Write", "Unlink"}
 Crashes = {1}
INVARIANTS Closed Settled Never
