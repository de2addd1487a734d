------------------------------ MODULE SysState ------------------------------
(***************************************************************************)
(* The observable state of a process using the library: a store of live    *)
(* objects named by handles.  An event e is one API call together with     *)
(* what was observed; each action of the specification has the form        *)
(*      A(e) == guard on the call /\ Obs(...) /\ effect on objs            *)
(* where Obs(e, f, v) says "the observation f of this call is v".          *)
(* Validate.tla reads Obs as equality with the recorded value; the         *)
(* generators read it as TRUE (the call has not been made yet).            *)
(***************************************************************************)
EXTENDS Prim
CONSTANT Obs(_, _, _)
VARIABLE objs

NoObjs == << >>
Has(h) == h \in DOMAIN objs
Is(h, t) == h \in DOMAIN objs /\ objs[h].t = t
Put(h, o) == objs' = (h :> o) @@ objs
Put2(h, o, h2, o2) == objs' = (h :> o) @@ (h2 :> o2) @@ objs
Del(h) == objs' = [x \in DOMAIN objs \ {h} |-> objs[x]]
Same == UNCHANGED objs
Ok(e) == Obs(e, "r", "ok")
Err(e, name) == Obs(e, "r", "err:" \o name)
Fld(e, f, default) == IF f \in DOMAIN e THEN e[f] ELSE default
\* no secret in the memory an object has left behind, or in the blocks freed
Residue(e) == (IF "left" \in DOMAIN e THEN {e.left} ELSE {}) \cup Range(Fld(e, "freed", << >>))
Clean(e, S) == \A m \in Residue(e), x \in S : ~BShares(m, x, 8)
Watched(e, S) == Fld(e, "watch", FALSE) => Clean(e, S)
=============================================================================
