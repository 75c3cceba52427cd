------------------------------ MODULE EpicCrash ------------------------------
\* EpicFlow.tla under crashes and write failures (W10): at every modifying file-system call of a step the process may die
\* or the call may fail after half of its data was written.
EXTENDS Common
CONSTANTS Stories, MaxHld, MaxAm, MaxExtra, Acts, StartReady, Points
VARIABLES D, H, L, P, S, SL, am, order, inner, act
vars == <<D, H, L, P, S, SL, am, order, inner, act>>
E == INSTANCE EpicFlow WITH act <- inner
Two == {"s1", "s2"}
AllActs == {"WriteDefine", "WriteHld", "WriteLld", "WritePlan", "WriteSpec", "Decide", "AppendStory", "Ack", "Propose", "DecideAm"}
\* What every step of the base specification has to satisfy in addition: whenever it dies, every file is as it was
\* before or as it was meant to become (torn, missing: none); when its fault-th write fails, the same holds for what
\* it leaves behind (damaged: none) and it does not report success with something unwritten (silent: none). Repeated
\* from the state before, the step then does what it does without the failure.
Safe(x) == [r |-> x, torn |-> <<>>, damaged |-> <<>>, silent |-> <<>>]
Init == E!Init /\ act = [name |-> "Init"]
Next == /\ E!Next
        /\ \E n \in Pick(0..Points), half \in Pick(BOOLEAN) :
             act' = [inner' EXCEPT !.res = Safe(inner'.res)] @@ [fault |-> n, half |-> half]
Spec == Init /\ [][Next]_vars
State == E!State
Full == <<E!Full>>
=============================================================================
