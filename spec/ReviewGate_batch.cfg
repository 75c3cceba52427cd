CONSTANTS
 Docs <- D3
 Reviews <- SomeRv
 Hows <- AcceptOnly
 Finds <- F1
 Overs <- AllOvers
 CRs <- SomeCR
 Acts <- BatchActs
INVARIANTS OverrideRecorded
PROPERTIES NeverApprovedBlocked BatchKeepsRejected BuildNeedsReview
