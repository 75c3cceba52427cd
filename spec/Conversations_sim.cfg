CONSTANTS
 Sids = {"s1", "s2", "s3", "s4"}
 Idxs = {0, 1, 2}
 Repos = {"ra", "rb"}
 Texts = {"v1", "v2", "v3"}
 Vecs <- Both
 Kinds <- AllKinds
 Statuses = {"active", "paused", "completed", "discarded"}
 Agents = {"coder", "tester"}
 Acts = {"Turns", "Sessions", "Compact", "Set", "Time", "Crowd", "Reopen", "Close", "SVec"}
INVARIANTS Listed
PROPERTIES TurnsStay Capped
