------------------------------ MODULE GenFeatures ------------------------------
(* C19: the processors to run on: this one without some of its features.         *)
(* Optional: a code path is chosen by them.  Required: without one of them the   *)
(* library may refuse to work.                                                   *)
EXTENDS Gen
Optional == {"sha", "bmi2", "avx512f", "avx512bw", "avx512vl", "vaes", "vpclmulqdq"}
Avx512 == {"avx512f", "avx512bw", "avx512vl", "vaes", "vpclmulqdq"}
Required == {"aes", "pclmulqdq", "bmi1", "adx", "avx2"}
Cases == [without : IF Thorough THEN SUBSET Optional ELSE {{o} : o \in {"sha", "bmi2", "vaes"}} \cup {Avx512, Optional}, may : {FALSE}]
         \cup [without : {{r} : r \in Required} \cup {Required}, may : {TRUE}]
Sc(x) == [without |-> SetToSeq(x.without), may |-> x.may]
Init == GenInit(Cases)
Next == GenNext(Sc)
=============================================================================
