CONSTANTS
 Plans <- SimPlans
 MaxGen = 3
 MaxTok = 12
 Answers = {"d1", "d2", "bad", "wrong"}
 Acts = {"Once", "Step", "Bundle", "Edit"}
INVARIANTS InOrder NoProbe
PROPERTIES Sticky
