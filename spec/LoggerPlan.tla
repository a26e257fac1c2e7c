----------------------------- MODULE LoggerPlan -----------------------------
(* Every history of logged calls, user entries, settings and changes of the *)
(* log up to MaxSteps.                                                      *)
EXTENDS Logger
CONSTANTS MaxSteps, Emit
VARIABLES st, hist
vars == <<st, hist>>
Init == st = [files |-> <<>>, cur |-> "A/log0", sess |-> -1, enabled |-> TRUE, deep |-> FALSE] /\ hist = <<>>
Uses == {"none", "yes", "no"}
Calls == {<<"call", u>> : u \in Uses} \cup {<<"user", "">>, <<"fail", "yes">>, <<"switch", "A/log0">>, <<"switch", "B/log0">>,
          <<"enabled", "yes">>, <<"enabled", "no">>, <<"show", "">>}
After(c) ==
    LET t == ToString(Len(hist)) IN
    CASE c[1] = "call" -> Append1(st, Recorded(st, "load", 0, c[2], FALSE), t, <<0>>)
      [] c[1] = "fail" -> Append1(st, Recorded(st, "load", 0, c[2], TRUE), t, <<0>>)
      [] c[1] = "user" -> Append1(st, Recorded(st, "user", 0, "none", FALSE), t, <<0>>)
      [] c[1] = "switch" -> Switch(st, c[2])
      [] c[1] = "enabled" -> [st EXCEPT !.enabled = (c[2] = "yes")]
      [] c[1] = "show" -> Opened(st)
Next == /\ Len(hist) < MaxSteps
        /\ \E c \in Calls : (c[1] = "switch" => c[2] # st.cur) /\ st' = After(c) /\ hist' = Append(hist, c)
Spec == Init /\ [][Next]_vars

\* entries are only ever appended, to the active log
AppendOnly == [][\A f \in DOMAIN st.files : /\ f \in DOMAIN st'.files
                                            /\ Len(st'.files[f]) >= Len(st.files[f])
                                            /\ SubSeq(st'.files[f], 1, Len(st.files[f])) = st.files[f]
                                            /\ (f # st.cur => st'.files[f] = st.files[f])]_vars
\* sessions of a log are numbered upwards without gaps
Sessions == \A f \in DOMAIN st.files : \A i \in 1..Len(st.files[f]) :
               /\ (i = 1 => st.files[f][i].s = 0)
               /\ (i > 1 => st.files[f][i].s \in {st.files[f][i - 1].s, st.files[f][i - 1].s + 1})
\* consecutive entries of one session are never separated, a new session never reuses a number
OneSession == [][(st.sess >= 0 /\ st.cur = st'.cur /\ st'.sess >= 0) => st'.sess = st.sess]_vars
\* nothing is recorded for a failed call, nor while logging is off unless asked for
Silent == [][(hist'[Len(hist')][1] = "fail" \/ (hist'[Len(hist')][1] = "call" /\ hist'[Len(hist')][2] = "no")
              \/ (hist'[Len(hist')] = <<"call", "none">> /\ ~st.enabled)) => st'.files = st.files]_vars
\* what showLog selects: everything when unlimited; limits only ever remove, from the oldest entries on
Q(level, least, most, max) == [level |-> level, least |-> least, most |-> most, from |-> -1, to |-> -1, max |-> max, search |-> FALSE, hits |-> <<>>]
ShowAll == \A f \in DOMAIN st.files : AllShown(st.files[f], Q(3, 0, 1000, -1)) = {st.files[f]}
ShowLast == \A f \in DOMAIN st.files : \A n \in 0..2 : AllShown(st.files[f], Q(3, 0, 1000, n)) = {Last(st.files[f], n)}
\* the sessions partition the log
ShowSessions == \A f \in DOMAIN st.files :
    LET log == st.files[f]
        part(k) == CHOOSE x \in AllShown(log, Q(3, k, k + 1, -1)) : TRUE
        RECURSIVE Cat(_)
        Cat(k) == IF k < 0 THEN <<>> ELSE part(k) \o Cat(k - 1)
    IN log # <<>> => Cat(MaxSession(log)) = log
PlanOut == (Emit /\ Len(hist) = MaxSteps) => PrintT("PLAN|" \o ToString(hist))
=============================================================================
