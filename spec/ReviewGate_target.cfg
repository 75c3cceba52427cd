CONSTANTS
 Docs <- DL
 Reviews <- SomeRv
 Hows <- AcceptOnly
 Finds <- F1
 Overs <- AllOvers
 CRs <- AllCR
 Acts <- TargetActs
INVARIANTS OverrideRecorded
PROPERTIES NeverApprovedBlocked BatchKeepsRejected BuildNeedsReview
