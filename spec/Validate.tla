------------------------------ MODULE Validate ------------------------------
(***************************************************************************)
(* Trace validation: is every recorded execution a behaviour of Graviola?  *)
(* All recorded executions are explored as separate initial states.  An    *)
(* execution that completes emits its number; one that gets stuck (no      *)
(* action of the specification allows its next event) does not.            *)
(*                                                                         *)
(* An event "conc.run" holds the events of several threads, each with the  *)
(* times of its start and end.  It is allowed if the events can be put in  *)
(* some order that keeps the order within each thread, and keeps calls     *)
(* that ended before others started before those, such that each is a step *)
(* of the specification (linearizability).                                 *)
(***************************************************************************)
EXTENDS Graviola, FiniteSets
VARIABLES sc, i, pos        \* pos: events of each thread already taken, << >> when not in a conc.run
VObs(e, f, v) == f \in DOMAIN e /\ e[f] = v

T == Load(Prop("traces"))
Init == sc \in 1..Len(T) /\ i = 0 /\ objs = << >> /\ pos = << >>
E == T[sc].steps[i + 1]
Left(l) == pos[l] < Len(E.lanes[l])
At(l) == E.lanes[l][pos[l] + 1]
\* the threads whose next call may be the next to take effect
Runnable ==
    LET L == {l \in DOMAIN pos : Left(l)}
    IN  IF Fld(E, "free", FALSE)                   \* the threads change nothing that the others can see: any order will do
        THEN {l \in L : \A m \in L : l <= m}
        ELSE {l \in L : \A m \in L : ~(At(m).t1 < At(l).t0)}
Advance ==
    /\ i' = i + 1
    /\ (PropInt("progress") = 1 => Emit([sc |-> sc, at |-> i + 1]))
    /\ (i + 1 = Len(T[sc].steps) /\ T[sc].planned = i + 1 => Emit([done |-> sc]))
Next ==
    /\ i < Len(T[sc].steps)
    /\ sc' = sc
    /\ IF E.op # "conc.run" THEN Step(E) /\ Advance /\ pos' = pos
       ELSE IF Fld(E, "r", "") # "ok" THEN FALSE
       ELSE IF pos = << >> THEN pos' = [l \in 1..Len(E.lanes) |-> 0] /\ UNCHANGED <<i, objs>>
       ELSE IF \A l \in DOMAIN pos : ~Left(l) THEN pos' = << >> /\ Advance /\ UNCHANGED objs
       ELSE \E l \in Runnable : Step(At(l)) /\ pos' = [pos EXCEPT ![l] = @ + 1] /\ UNCHANGED i
Spec == Init /\ [][Next]_<<sc, i, pos, objs>>
=============================================================================
