CONSTANTS
 Scopes = {"g", "r1"}
 Keys = {"core"}
 Models = {"a", "b", "l", "x", "norunner", "nomodel"}
 Tiers = {"core", "mid", "cheap", "high"}
 Roles = {"build"}
 Asks = {"g", "r1", "r2"}
 Acts = {"Set", "Clear", "Ask", "Fresh", "Pin", "Guard"}
INVARIANTS FloorHolds
PROPERTIES Steady
