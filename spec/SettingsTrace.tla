---------------------------- MODULE SettingsTrace ----------------------------
(* Trace validation of histories on real SessionConfiguration objects.      *)
EXTENDS Settings, Json, IOUtils
ASSUME TLCSet(1, 0)
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st

\* [[s, o, v], ..] -> function
Fun(ts) == [k \in {<<ts[i][1], ts[i][2]>> : i \in DOMAIN ts} |->
              (ts[CHOOSE i \in DOMAIN ts : <<ts[i][1], ts[i][2]>> = k])[3]]
SetOf(q) == {q[i] : i \in DOMAIN q}
Kinds(ks) == [s \in {ks[i][1] : i \in DOMAIN ks} |->
                LET e == ks[CHOOSE i \in DOMAIN ks : ks[i][1] = s] IN [k |-> e[2], opts |-> SetOf(e[3])]]
RetOf(r) == IF r[1] = "all" THEN <<"all", SetOf(r[2])>> ELSE r

Judge(e, r) ==
    IF e.exc # "" /\ r.exc = "no" THEN "unexpected-exception:" \o e.exc
    ELSE IF e.exc = "" /\ r.exc = "yes" THEN "missing-exception"
    ELSE IF Fun(e.cur) # r.st.cur THEN "settings-in-force"
    ELSE IF Fun(e.saved) # r.st.saved THEN "settings-in-file"
    ELSE IF e.fired # r.fired /\ (r.must \/ e.fired # <<>>) THEN "hook-calls"
    ELSE IF e.exc = "" /\ r.ret[1] # "none" /\ RetOf(e.ret) # r.ret THEN "returned-value"
    ELSE "ok"

Init == l = 1 /\ st = [cur |-> <<>>, saved |-> <<>>, hooks |-> <<>>]
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           IF e.op = "bad" THEN PrintT("BAD|" \o ToString(l) \o "|" \o e.exc) /\ st' = st
           ELSE IF e.first THEN st' = [cur |-> Fun(e.cur), saved |-> Fun(e.saved), hooks |-> <<>>]
           ELSE LET r == Do(Kinds(e.kinds), st, e.op, e.s, e.o, e.v)
                    v == Judge(e, r)
                IN /\ (IF v = "ok" THEN TRUE ELSE PrintT("BAD|" \o ToString(l) \o "|" \o v))
                   /\ st' = [cur |-> Fun(e.cur), saved |-> Fun(e.saved),
                             hooks |-> IF e.exc = "" THEN r.st.hooks ELSE st.hooks]
Spec == Init /\ [][Next]_<<l, st>>
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
