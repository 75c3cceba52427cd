CONSTANTS
 Plans <- StepPlans
 MaxGen = 1
 MaxTok = 3
 Answers = {"d1", "d2", "bad", "wrong"}
 Acts = {"Step", "Bundle"}
INVARIANTS InOrder NoProbe
PROPERTIES Sticky
