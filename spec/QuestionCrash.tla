------------------------------ MODULE QuestionCrash ------------------------------
\* OpenQuestions.tla under crashes and write failures (W10): at every modifying file-system call of a step the process may die
\* or the call may fail after half of its data was written.
EXTENDS Common
CONSTANTS Docs, Lists, Hows, Points
VARIABLES docs, inner, act
vars == <<docs, inner, act>>
E == INSTANCE OpenQuestions WITH act <- inner
Lists4 == { <<>>, <<<<"sc2", "a">>, <<"p", "x">>>>, <<<<"p", "x">>>>, <<<<"sc2", "b">>, <<"p2", "x">>>>, <<<<"p", "x">>, <<"p2", "x">>>> }
Hows5 == {"resolved:yes", "resolved:no", "resolved:", "ignored", "deferred"}
All == {"D", "H", "L1", "L2"}
\* What every step of the base specification has to satisfy in addition: whenever it dies, every file is as it was
\* before or as it was meant to become (torn, missing: none); when its fault-th write fails, the same holds for what
\* it leaves behind (damaged: none) and it does not report success with something unwritten (silent: none). Repeated
\* from the state before, the step then does what it does without the failure.
Safe(x) == [r |-> x, torn |-> <<>>, damaged |-> <<>>, silent |-> <<>>]
Init == E!Init /\ act = [name |-> "Init"]
Next == /\ E!Next
        /\ \E n \in Pick(0..Points), half \in Pick(BOOLEAN) :
             act' = [inner' EXCEPT !.res = Safe(inner'.res)] @@ [fault |-> n, half |-> half]
Spec == Init /\ [][Next]_vars
State == E!State
Full == <<E!Full>>
=============================================================================
