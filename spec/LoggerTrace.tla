----------------------------- MODULE LoggerTrace -----------------------------
(* Trace validation of histories of logged calls, settings and showLog.     *)
EXTENDS Logger, Json, IOUtils
ASSUME TLCSet(1, 0)
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st

Empty == [files |-> <<>>, cur |-> "", sess |-> -1, enabled |-> TRUE, deep |-> FALSE]
\* the log as read back: <<session, kind, tok, ts>>
Seen(e) == [i \in 1..Len(e.log) |-> [s |-> e.log[i][1], k |-> e.log[i][2], tok |-> e.log[i][3], ts |-> e.log[i][4]]]
Shows(x) == [i \in 1..Len(x) |-> <<x[i].s, x[i].k, x[i].tok>>]
NoTs(x) == [i \in 1..Len(x) |-> <<x[i].s, x[i].k, x[i].tok>>]

After(e) ==
    CASE e.op = "start" -> [files |-> <<>>, cur |-> e.what, sess |-> -1, enabled |-> TRUE, deep |-> FALSE]
      [] e.op = "enabled" -> [st EXCEPT !.enabled = e.flag]
      [] e.op = "deepset" -> [st EXCEPT !.deep = e.flag]
      [] e.op = "switch" -> Switch(st, e.what)
      [] e.op = "show" -> IF e.exc = "" THEN Opened(st) ELSE st
      [] OTHER -> LET old == File(st, st.cur)
                      ks == Recorded(st, e.kind, e.n, e.useLog, e.exc # "")
                      tss == [i \in 1..(Len(e.log) - Len(old)) |-> e.log[Len(old) + i][4]]
                  IN Append1(st, ks, e.tok, IF Len(e.log) > Len(old) THEN tss ELSE <<>>)

IsPrefix(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
Judge(e, n) ==
    LET log == Seen(e)
        old == File(st, st.cur)
        want == File(n, n.cur)
    IN IF e.op \in {"start", "enabled", "deepset", "switch"} /\ e.exc # "" THEN "unexpected-exception:" \o e.exc
       ELSE IF e.op = "show" THEN
            IF e.exc # "" /\ ~e.bad THEN "unexpected-exception:" \o e.exc
            ELSE IF e.exc = "" /\ e.bad THEN "missing-exception"
            ELSE IF NoTs(log) # NoTs(want) THEN "show-changes-log"
            ELSE IF e.exc = "" /\ ~(\E x \in AllShown(old, e.q) : Shows(x) = e.shown) THEN "shown-entries"
            ELSE "ok"
       ELSE IF e.exc # "" /\ ~e.bad THEN "unexpected-exception:" \o e.exc
       ELSE IF e.exc = "" /\ e.bad THEN "missing-exception"
       ELSE IF e.op \in {"start", "switch"} THEN (IF log = want THEN "ok" ELSE "entries-lost-or-changed")
       ELSE IF ~IsPrefix(old, log) THEN "entries-lost-or-changed"
       ELSE IF Len(log) # Len(want) THEN (IF Len(log) > Len(want) THEN "unexpected-entry" ELSE "missing-entry")
       ELSE IF NoTs(log) # NoTs(want) THEN "wrong-entry"
       ELSE IF \E i \in (Len(old) + 1)..Len(log) : log[i].ts < e.t0 \/ log[i].ts > e.t1 THEN "wrong-time"
       ELSE "ok"

Observed(n, e) == [n EXCEPT !.files = [x \in DOMAIN n.files \cup {n.cur} |-> IF x = n.cur THEN Seen(e) ELSE n.files[x]],
                            !.sess = IF e.log # <<>> /\ n.sess >= 0 /\ n.sess < e.log[Len(e.log)][1] THEN e.log[Len(e.log)][1] ELSE n.sess]
Init == l = 1 /\ st = Empty
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
             IF e.op = "bad" THEN PrintT("BAD|" \o ToString(l) \o "|" \o e.exc) /\ UNCHANGED st
             ELSE LET n == Opened(After(e))    \* the log is read back after every event
                      v == Judge(e, n)
                  IN (IF v = "ok" THEN TRUE ELSE PrintT("BAD|" \o ToString(l) \o "|" \o v)) /\ st' = Observed(n, e)
Spec == Init /\ [][Next]_<<l, st>>
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
