CONSTANTS
 Scopes = {"g", "r1", "r2"}
 Keys = {"core", "mid", "cheap", "floor", "task-build", "task-synth", "task-classify", "task-other"}
 Models = {"a", "b", "l", "x", "norunner", "nomodel"}
 Tiers = {"core", "mid", "cheap", "high"}
 Roles = {"build", "synth", "classify", "other"}
 Asks = {"g", "r1", "r2"}
 Acts = {"Set", "Clear", "Ask", "AskKept", "Restart", "Pin", "Summariser", "Guard"}
INVARIANTS FloorHolds
PROPERTIES Steady
