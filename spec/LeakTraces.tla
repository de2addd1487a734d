------------------------------ MODULE LeakTraces ------------------------------
(* Are the recorded executions silent about secrets (Leak)?  As in Validate,   *)
(* an execution that is emits its number; one that is not gets stuck.          *)
EXTENDS Leak
VARIABLES sc, i
T == Load(Prop("traces"))
Init == sc \in 1..Len(T) /\ i = 0
Next ==
    /\ i < Len(T[sc].steps)
    /\ sc' = sc
    /\ Silent(T[sc].steps[i + 1])
    /\ i' = i + 1
    /\ Emit([cmp |-> Compared(T[sc].steps[i + 1]), sc |-> sc])
    /\ (i + 1 = Len(T[sc].steps) /\ T[sc].planned = i + 1 => Emit([done |-> sc]))
Spec == Init /\ [][Next]_<<sc, i>>
=============================================================================
