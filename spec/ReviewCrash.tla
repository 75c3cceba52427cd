------------------------------ MODULE ReviewCrash ------------------------------
\* ReviewGate.tla under crashes and write failures (W10): at every modifying file-system call of a step the process may die
\* or the call may fail after half of its data was written.
EXTENDS Common
CONSTANTS Docs, Reviews, Hows, Finds, Overs, CRs, Acts, Points
VARIABLES doc, cr, inner, act
vars == <<doc, cr, inner, act>>
E == INSTANCE ReviewGate WITH act <- inner
D3 == {"D", "L", "B"}
AllRv == {"none", "h", "low", "all"}
AllHows == {"accept", "override", "defer", "apply"}
AllFinds == {"f1", "f2", "f3", "f9"}
AllOvers == {None, "", "because"}
AllCR == {"none", "pass", "warn", "block", "torn", "odd"}
ResolveActs == {"Write", "Reject", "Resolve", "Approve"}
BatchActs == {"Write", "CodeReview", "Reject", "Resolve", "Batch"}
TargetActs == {"Write", "CodeReview", "One"}
AllActs == ResolveActs \cup BatchActs \cup TargetActs
\* What every step of the base specification has to satisfy in addition: whenever it dies, every file is as it was
\* before or as it was meant to become (torn, missing: none); when its fault-th write fails, the same holds for what
\* it leaves behind (damaged: none) and it does not report success with something unwritten (silent: none). Repeated
\* from the state before, the step then does what it does without the failure.
Safe(x) == [r |-> x, torn |-> <<>>, damaged |-> <<>>, silent |-> <<>>]
Init == E!Init /\ act = [name |-> "Init"]
Next == /\ E!Next
        /\ \E n \in Pick(0..Points), half \in Pick(BOOLEAN) :
             act' = [inner' EXCEPT !.res = Safe(inner'.res)] @@ [fault |-> n, half |-> half]
Spec == Init /\ [][Next]_vars
State == E!State
Full == <<E!Full>>
=============================================================================
