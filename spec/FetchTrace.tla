----------------------------- MODULE FetchTrace -----------------------------
(* Trace validation of fetches from a real server into real directories.    *)
EXTENDS Fetch, Json, IOUtils
ASSUME TLCSet(1, 0)
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st

\* [[a, b, v], ..] -> function over <<a, b>>
Fun(ts) == [k \in {<<ts[i][1], ts[i][2]>> : i \in DOMAIN ts} |->
              (ts[CHOOSE i \in DOMAIN ts : <<ts[i][1], ts[i][2]>> = k])[3]]
Bod(bs) == [k \in {bs[i][1] : i \in DOMAIN bs} |-> LET b == bs[CHOOSE i \in DOMAIN bs : bs[i][1] = k] IN <<b[2], b[3]>>]
Perm(a, b) == Len(a) = Len(b) /\ {a[i] : i \in DOMAIN a} = {b[i] : i \in DOMAIN b}

\* overwriting may first complete what is stored
Looked(e, B) == IF e.op = "fetch" /\ e.over /\ <<st.loc, e.u[1]>> \in DOMAIN st.disk THEN FetchFile(B, st, e.u, FALSE, "").st ELSE st

Judge(e, B, r) ==
    IF r.ok = "any" THEN "ok"
    ELSE IF e.exc # "" /\ e.op # "page" /\ Fun(e.disk) \notin {st.disk, Looked(e, B).disk} THEN "failed-call-changed-files"
    ELSE IF e.exc # "" /\ r.ok = "yes" THEN "unexpected-exception:" \o e.exc
    ELSE IF e.exc = "" /\ r.ok = "no" THEN "missing-exception"
    ELSE IF e.gets # r.gets /\ r.ok = "yes" THEN "downloads"
    ELSE IF e.exc = "" /\ e.op \in {"fetch", "page"} /\ {e.ret[i][1] : i \in DOMAIN e.ret} # {r.ret[i][1] : i \in DOMAIN r.ret} THEN "returned-paths"
    ELSE IF e.exc = "" /\ e.op = "fetch" /\ ~e.over /\ r.gets = 0 /\ Perm(e.ret, r.ret) /\ ~Faithful(B, r.st, e.u, r.ret) THEN "content-of-another-source"
    ELSE IF e.exc = "" /\ ~Perm(e.ret, r.ret) THEN "content"
    ELSE IF Fun(e.disk) # r.st.disk /\ Fun(e.disk) # Do(B, Looked(e, B), e).st.disk THEN "stored-files"
    ELSE IF e.note # "" THEN e.note
    ELSE "ok"

Init == l = 1 /\ st = [srv |-> <<>>, disk |-> <<>>, loc |-> "", own |-> {}]
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           IF e.op = "bad" THEN PrintT("BAD|" \o ToString(l) \o "|" \o e.exc) /\ st' = st
           ELSE IF e.op = "start" THEN st' = [srv |-> <<>>, disk |-> Fun(e.disk), loc |-> e.id, own |-> {}]
           ELSE LET B == Bod(e.bodies)
                    r == Do(B, st, e)
                    v == Judge(e, B, r)
                IN /\ (IF v = "ok" THEN TRUE ELSE PrintT("BAD|" \o ToString(l) \o "|" \o v))
                   /\ st' = [r.st EXCEPT !.disk = Fun(e.disk)]
Spec == Init /\ [][Next]_<<l, st>>
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
