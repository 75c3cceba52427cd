CONSTANTS
 Scopes = {"g", "r1"}
 Keys = {"task-synth"}
 Models = {"a"}
 Tiers = {"core", "cheap"}
 Roles = {"synth", "build"}
 Asks = {"g", "r1"}
 Acts = {"Set", "AskKept", "Ask", "Restart"}
INVARIANTS FloorHolds
PROPERTIES Steady
