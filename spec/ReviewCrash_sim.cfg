CONSTANTS
 Docs <- D3
 Reviews <- AllRv
 Hows <- AllHows
 Finds <- AllFinds
 Overs <- AllOvers
 CRs <- AllCR
 Acts <- AllActs
 Points = 4
