CONSTANTS
 Scopes = {"g", "r1"}
 Keys = {"task-build", "floor"}
 Models = {"a"}
 Tiers = {"core", "mid", "cheap", "high"}
 Roles = {"build", "synth"}
 Asks = {"g", "r1", "r2"}
 Acts = {"Set", "Clear", "Ask", "Fresh"}
INVARIANTS FloorHolds
PROPERTIES Steady
