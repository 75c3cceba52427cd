CONSTANTS
 Sids = {"s1", "s3"}
 Idxs = {0}
 Repos = {"ra", "rb"}
 Texts = {"v1"}
 Vecs <- Both
 Kinds <- TurnOnly
 Statuses = {}
 Agents = {}
 Acts = {"Turns", "Sessions", "Compact"}
INVARIANTS Listed
PROPERTIES TurnsStay Capped
