CONSTANTS
 Sids = {"s1", "s3"}
 Idxs = {0}
 Repos = {"ra", "rb"}
 Texts = {"v1", "v2"}
 Vecs <- NoVec
 Kinds <- AllKinds
 Statuses = {}
 Agents = {}
 Acts = {"Turns", "Compact"}
INVARIANTS Listed
PROPERTIES TurnsStay Capped
