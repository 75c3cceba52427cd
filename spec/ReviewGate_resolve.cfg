CONSTANTS
 Docs <- D1
 Reviews <- OneRv
 Hows <- AllHows
 Finds <- AllFinds
 Overs <- AllOvers
 CRs <- NoCR
 Acts <- ResolveActs
INVARIANTS OverrideRecorded
PROPERTIES NeverApprovedBlocked BatchKeepsRejected BuildNeedsReview
