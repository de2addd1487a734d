--------------------------------- MODULE Agree ---------------------------------
(***************************************************************************)
(* C19: executions of one scenario with different sets of CPU features     *)
(* agree step by step.  A processor without a feature that the library     *)
(* requires may be refused (a panic that says so), but never changes a     *)
(* result.                                                                 *)
(***************************************************************************)
EXTENDS Prim
VARIABLES sc, i
T == Load(Prop("traces"))
\* T[sc] = [id, runs]; a run = [steps (one digest for each event, or "refused"), may (the processor may be refused)]
Base(t) == t.runs[1].steps
Agrees(t, r, j) ==
    LET s == t.runs[r].steps
    IN  IF t.runs[r].may THEN (j \in DOMAIN s => s[j] \in {"refused", Base(t)[j]})
        ELSE j \in DOMAIN s /\ s[j] = Base(t)[j]
Init == sc \in 1..Len(T) /\ i = 0
Next ==
    /\ i < Len(Base(T[sc]))
    /\ \A r \in DOMAIN T[sc].runs : Agrees(T[sc], r, i + 1)
    /\ i' = i + 1 /\ sc' = sc
    /\ (i + 1 = Len(Base(T[sc])) /\ (\A r \in DOMAIN T[sc].runs : T[sc].runs[r].may \/ Len(T[sc].runs[r].steps) = i + 1) => Emit([done |-> sc]))
Spec == Init /\ [][Next]_<<sc, i>>
=============================================================================
