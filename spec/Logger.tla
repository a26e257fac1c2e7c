------------------------------- MODULE Logger -------------------------------
(***************************************************************************)
(* nimble's session log.  files maps a log (location/name) to the sequence  *)
(* of its entries [s session, k kind, tok identity, ts time]; cur is the    *)
(* active log, sess the number of the current session in it (-1 before the  *)
(* log is first used), enabled and deep the two settings.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

File(st, f) == IF f \in DOMAIN st.files THEN st.files[f] ELSE <<>>
MaxSession(log) == IF log = <<>> THEN -1 ELSE CHOOSE s \in {log[i].s : i \in 1..Len(log)} : \A i \in 1..Len(log) : log[i].s <= s
\* the first use of a log in a session gives the session its number
Opened(st) == IF st.sess >= 0 THEN st ELSE [st EXCEPT !.sess = MaxSession(File(st, st.cur)) + 1]

\* what one call has to record, outermost call only
Kinds(op, n, deep) ==
    CASE op \in {"load", "prep", "run", "report", "setSeed", "tl", "user"} -> <<op>>
      [] op = "control" -> <<"setSeed", "setSeed">>
      [] op = "tune"    -> (IF deep THEN [i \in 1..n |-> "deepRun"] ELSE <<>>) \o <<"tuning", "run">>
      [] op = "deep"    -> IF deep THEN [i \in 1..n |-> "deepRun"] ELSE <<>>
      [] op = "quiet"   -> <<>>
Logged(st, op, useLog) == op = "user" \/ useLog = "yes" \/ (useLog = "none" /\ st.enabled)

Recorded(st, op, n, useLog, failed) == IF failed \/ ~Logged(st, op, useLog) THEN <<>> ELSE Kinds(op, n, st.deep)
Append1(st, ks, tok, tss) ==
    IF ks = <<>> THEN st
    ELSE LET o == Opened(st)
             new == [i \in 1..Len(ks) |-> [s |-> o.sess, k |-> ks[i], tok |-> IF ks[i] \in {"deepRun", "tuning"} THEN "" ELSE tok, ts |-> IF i <= Len(tss) THEN tss[i] ELSE -2]]
             f == File(o, o.cur) \o new
         IN [o EXCEPT !.files = [x \in DOMAIN o.files \cup {o.cur} |-> IF x = o.cur THEN f ELSE o.files[x]]]

Switch(st, f) == [st EXCEPT !.cur = f, !.sess = -1]

\* ---- what showLog has to show ------------------------------------------
\* prep is level 1 in the documentation and level 2 in the program and its tests
Level(k, prep) == CASE k \in {"load", "tl", "report", "setSeed", "user"} -> 1
                    [] k = "prep" -> prep
                    [] k \in {"run", "tuning"} -> 2
                    [] k = "deepRun" -> 3
Sel(log, P(_)) == LET RECURSIVE F(_)
                      F(i) == IF i = 0 THEN <<>> ELSE IF P(i) THEN Append(F(i - 1), log[i]) ELSE F(i - 1)
                  IN F(Len(log))
Last(log, n) == IF n < 0 \/ n >= Len(log) THEN log ELSE SubSeq(log, Len(log) - n + 1, Len(log))
\* q: level, least, most, from, to (times as numbers, -1: no limit), max, search, hits (positions whose text contains the text searched for)
Match(log, q, i) == /\ (q.least >= 0 => log[i].s <= MaxSession(log) - q.least)
                    /\ (q.most >= 0 => log[i].s > MaxSession(log) - q.most)
                    /\ (q.from >= 0 => log[i].ts >= q.from)
                    /\ (q.to >= 0 => log[i].ts <= q.to)
                    /\ (q.search => i \in {q.hits[j] : j \in 1..Len(q.hits)})
Shown(log, q, prep, first) ==
    LET m == Sel(log, LAMBDA i : Match(log, q, i))
        lv(x) == Sel(x, LAMBDA i : Level(x[i].k, prep) <= q.level)
    IN IF first THEN lv(Last(m, q.max)) ELSE Last(lv(m), q.max)
\* the limit may count the entries before or after those too detailed are left out
AllShown(log, q) == {Shown(log, q, p, f) : p \in {1, 2}, f \in BOOLEAN}
=============================================================================
