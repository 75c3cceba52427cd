CONSTANTS
 Stories <- OneStory
 Tasks <- TwoTasks
 Fails <- AllFails
 Confs = {}
 Acts <- PushActs
 Marks = {}
INVARIANTS OneEach OneEpic Refs Recorded Under
PROPERTIES Stands Grows
