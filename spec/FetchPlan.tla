----------------------------- MODULE FetchPlan -----------------------------
(* Every history of fetches, changes on the server and removals over three   *)
(* urls of one directory; checked here and replayed by drivers/F01.          *)
EXTENDS Fetch
CONSTANTS MaxSteps, Emit
VARIABLES st, hist, out
vars == <<st, hist, out>>

X == <<"d/x.csv", "d/", "">>
Z == <<"d/y.zip", "d/", "">>
G == <<"d/g.csv.gz", "d/", "d/g.csv">>
Urls == {X, Z, G}
Bodies == ("z1" :> <<"arc", <<<<"m.csv", "c1">>, <<"s/n.csv", "c2">>>>>>) @@ ("z2" :> <<"arc", <<<<"m.csv", "c3">>>>>>)
          @@ ("g1" :> <<"gz", <<<<"", "c1">>>>>>) @@ ("g2" :> <<"gz", <<<<"", "c3">>>>>>)
Offers(u) == CASE u = X -> {"c1", "c3", "gone"} [] u = Z -> {"z1", "z2"} [] u = G -> {"g1", "g2"}
Start == [srv |-> ("d/x.csv" :> "c1") @@ ("d/y.zip" :> "z1") @@ ("d/g.csv.gz" :> "g1"), disk |-> <<>>, loc |-> "A", own |-> {}]
Init == st = Start /\ hist = <<>> /\ out = Out("yes", <<>>, Start, 0)
Ev(op, u, over, id) == [op |-> op, u |-> u, over |-> over, how |-> "", id |-> id]
Calls == {Ev("fetch", u, o, "") : u \in Urls, o \in BOOLEAN}
         \cup UNION {{Ev("serve", u, FALSE, b) : b \in Offers(u)} : u \in Urls}
         \cup {Ev("remove", X, FALSE, p) : p \in {k[2] : k \in {x \in DOMAIN st.disk : x[1] = st.loc}}}
         \cup {Ev("locate", X, FALSE, "B")}
Step(e) == LET r == Do(Bodies, st, e) IN st' = r.st /\ out' = r /\ hist' = Append(hist, e)
Next == Len(hist) < MaxSteps /\ \E e \in Calls : Step(e)
Spec == Init /\ [][Next]_vars
Last == hist'[Len(hist')]

\* a fetch without overwrite of a stored url asks nothing of the server
Once == [][Last.op = "fetch" /\ ~Last.over /\ <<st.loc, Last.u[1]>> \in DOMAIN st.disk => out'.gets = 0 /\ out'.ok = "yes"]_vars
\* after overwriting, the answer is what the server offers now
Fresh == [][Last.op = "fetch" /\ Last.over /\ out'.ok = "yes" => out'.ret = Parts(Bodies, Last.u, st.srv[Last.u[1]])]_vars
\* a fetch only writes the file of its url and what that contains
Isolated == [][Last.op = "fetch" => \A k \in DOMAIN st'.disk :
                 \/ (k \in DOMAIN st.disk /\ st'.disk[k] = st.disk[k])
                 \/ /\ k[1] = st.loc
                    /\ k[2] \in {Last.u[1]} \cup {Truth(Bodies, st', Last.u)[i][1] : i \in DOMAIN Truth(Bodies, st', Last.u)}]_vars
\* nothing stored is lost by fetching, not even by a fetch that fails
Keeps == [][Last.op = "fetch" => DOMAIN st.disk \subseteq DOMAIN st'.disk]_vars
Refused == [][out'.ok = "no" => st' = st]_vars
\* every answer exists where it says, with the content it has
Answers == [][\A i \in DOMAIN out'.ret : Last.op = "fetch" => Get(st'.disk, <<st'.loc, out'.ret[i][1]>>, "none") = out'.ret[i][2]]_vars
\* local answers are what the url once sent
Local == [][Last.op = "fetch" /\ out'.ok = "yes" => Faithful(Bodies, st', Last.u, out'.ret)]_vars
PlanOut == (Emit /\ Len(hist) = MaxSteps) =>
           PrintT("PLAN|" \o ToString([i \in 1..Len(hist) |-> <<hist[i].op, hist[i].u[1], hist[i].over, hist[i].id>>]))
=============================================================================
