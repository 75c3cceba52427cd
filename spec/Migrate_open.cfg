CONSTANTS
 Mode = "open"
 Cur = 4
 Starts = {1, 2, 3, 4, 5, 9}
 Edges = {}
 Fails = {}
 Targets = {}
 Points = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 22, 24, 26, 28, 30, 32, 36, 40}
INVARIANTS NeverTwice Sound
PROPERTIES NeverBack NewerUntouched Lossless
