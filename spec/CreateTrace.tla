---------------------------- MODULE CreateTrace ----------------------------
(* Trace validation of nimble.data calls against Create.                    *)
EXTENDS Create, Json, IOUtils
ASSUME TLCSet(1, 0)
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
V(e) == IF e.op = "bad" THEN "unobservable:" \o e.exc
        ELSE CreateVerdict(e.a, e.post, e.exc, e.same, e.args)
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET v == V(Trace[l]) IN
           IF v = "ok" THEN TRUE ELSE PrintT("BAD|" \o ToString(l) \o "|" \o v)
Spec == Init /\ [][Next]_l
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
