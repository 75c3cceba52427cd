CONSTANTS
 Docs <- D3
 Reviews <- AllRv
 Hows <- AllHows
 Finds <- AllFinds
 Overs <- AllOvers
 CRs <- AllCR
 Acts <- AllActs
INVARIANTS OverrideRecorded
PROPERTIES NeverApprovedBlocked BatchKeepsRejected BuildNeedsReview
