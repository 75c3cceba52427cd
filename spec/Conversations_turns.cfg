CONSTANTS
 Sids = {"s1", "s3"}
 Idxs = {0, 1}
 Repos = {"ra", "rb"}
 Texts = {"v1"}
 Vecs <- NoVec
 Kinds <- TurnOnly
 Statuses = {}
 Agents = {}
 Acts = {"Turns", "Sessions"}
INVARIANTS Listed
PROPERTIES TurnsStay Capped
