CONSTANTS
 Plans <- StepPlans
 MaxGen = 2
 MaxTok = 3
 Answers = {"d1", "d2", "bad", "wrong"}
 Acts = {"Step", "Edit"}
INVARIANTS InOrder NoProbe
PROPERTIES Sticky
