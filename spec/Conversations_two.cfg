CONSTANTS
 Sids = {"s1", "s2"}
 Idxs = {0}
 Repos = {"ra", "rb"}
 Texts = {"v1"}
 Vecs <- NoVec
 Kinds <- TurnOnly
 Statuses = {}
 Agents = {}
 Acts = {"Sessions", "Set", "Time", "Close"}
INVARIANTS Listed
PROPERTIES TurnsStay Capped
