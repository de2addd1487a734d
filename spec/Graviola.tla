------------------------------ MODULE Graviola ------------------------------
(* The whole library as one state machine: every behaviour is a sequence of   *)
(* API calls, each an action of one of the areas.                             *)
EXTENDS ApiWipe, ApiPair

Drop(e) == e.op = "drop" /\ Ok(e) /\ Del(e.h)
\* a step marked optional is not taken when the object it needs was refused
Missing(e, f) == f \in DOMAIN e /\ ~Has(e[f])
Skipped(e) == Fld(e, "opt", FALSE) /\ (Missing(e, "h") \/ Missing(e, "from")) /\ Obs(e, "r", "absent") /\ Same

Step(e) == Skipped(e) \/ HashNext(e) \/ AeadNext(e) \/ KexNext(e) \/ SignNext(e) \/ RsaNext(e) \/ TlsNext(e) \/ WipeNext(e) \/ PairNext(e) \/ Drop(e)
=============================================================================
