CONSTANTS
 Users = {"absent", "junk", "dir", "odd", "empty", "x", "xy", "u", "xu", "full"}
 Cats = {"one", "two", "bad"}
 Points = 5
INVARIANTS TypeOK
PROPERTIES Kept HandsOff EditSurvives Settles
