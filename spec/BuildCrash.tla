------------------------------ MODULE BuildCrash ------------------------------
\* BuildRecord.tla under crashes and write failures (W10): at every modifying file-system call of a step the process may die
\* or the call may fail after half of its data was written.
EXTENDS Common
CONSTANTS Tasks, Batches, Points
VARIABLES r, inner, act
vars == <<r, inner, act>>
E == INSTANCE BuildRecord WITH act <- inner
T3 == {"t1", "t2", "t3"}
B1 == { <<>>, <<<<"t2", TRUE>>, <<"t1", FALSE>>>> }
B2 == B1 \cup { <<<<"t3", TRUE>>, <<"t1", TRUE>>>>, <<<<"t1", FALSE>>>> }
\* What every step of the base specification has to satisfy in addition: whenever it dies, every file is as it was
\* before or as it was meant to become (torn, missing: none); when its fault-th write fails, the same holds for what
\* it leaves behind (damaged: none) and it does not report success with something unwritten (silent: none). Repeated
\* from the state before, the step then does what it does without the failure.
Safe(x) == [r |-> x, torn |-> <<>>, damaged |-> <<>>, silent |-> <<>>]
Init == E!Init /\ act = [name |-> "Init"]
Next == /\ E!Next
        /\ \E n \in Pick(0..Points), half \in Pick(BOOLEAN) :
             act' = [inner' EXCEPT !.res = Safe(inner'.res)] @@ [fault |-> n, half |-> half]
Spec == Init /\ [][Next]_vars
State == E!State
Full == <<E!Full>>
=============================================================================
