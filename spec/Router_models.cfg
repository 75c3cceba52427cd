CONSTANTS
 Scopes = {"g", "r1"}
 Keys = {"core", "mid", "cheap"}
 Models = {"a", "nomodel"}
 Tiers = {"core"}
 Roles = {"build", "synth", "classify", "other"}
 Asks = {"g", "r1"}
 Acts = {"Set", "Ask", "Fresh", "Pin", "Summariser"}
INVARIANTS FloorHolds
PROPERTIES Steady
