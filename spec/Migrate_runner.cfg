CONSTANTS
 Mode = "runner"
 Cur = 4
 Starts = {1, 2, 4, 5}
 Edges = {12, 13, 23, 24, 34, 32}
 Fails = {0, 1, 2}
 Targets = {2, 3, 4}
 Points = {}
INVARIANTS NeverTwice
PROPERTIES NeverBack NewerUntouched
