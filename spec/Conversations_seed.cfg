CONSTANTS
 Sids = {"s1"}
 Idxs = {0}
 Repos = {"ra", "rb"}
 Texts = {"v1"}
 Vecs <- Both
 Kinds <- TurnOnly
 Statuses = {"active", "discarded"}
 Agents = {}
 Acts = {"Sessions", "SVec", "Set", "Close", "Time"}
INVARIANTS Listed
PROPERTIES TurnsStay Capped
