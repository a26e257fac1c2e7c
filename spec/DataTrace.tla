----------------------------- MODULE DataTrace -----------------------------
(***************************************************************************)
(* Trace validation of single calls on data objects: each line of the      *)
(* trace is one public call made on a real nimble object (operation name,  *)
(* arguments, observed state before and after, returned value, exception)  *)
(* and is accepted exactly when it is a step the Table model allows.       *)
(***************************************************************************)
EXTENDS Calls, Json, IOUtils
ASSUME TLCSet(1, 0)
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET v == V(Trace[l]) IN
           IF v = "ok" THEN TRUE ELSE PrintT("BAD|" \o ToString(l) \o "|" \o v)
Spec == Init /\ [][Next]_l
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
