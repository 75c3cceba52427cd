CONSTANTS
 Sids = {"s1"}
 Idxs = {0}
 Repos = {"ra", "rb"}
 Texts = {"v1", "v2"}
 Vecs <- NoVec
 Kinds <- TurnOnly
 Statuses = {"paused", "discarded"}
 Agents = {"coder"}
 Acts = {"Sessions", "Set", "Time", "Close"}
INVARIANTS Listed
PROPERTIES TurnsStay Capped
