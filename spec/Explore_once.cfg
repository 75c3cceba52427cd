CONSTANTS
 Plans <- OncePlans
 MaxGen = 1
 MaxTok = 0
 Answers = {"d1", "d2", "bad", "wrong"}
 Acts = {"Once", "Edit"}
INVARIANTS InOrder NoProbe
PROPERTIES Sticky
