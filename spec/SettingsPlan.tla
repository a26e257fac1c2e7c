---------------------------- MODULE SettingsPlan ----------------------------
(* Every history of settings operations over two sections, two options and  *)
(* two values; checked here and replayed on the real object by drivers/C01. *)
EXTENDS Settings
CONSTANTS MaxSteps, Emit
VARIABLES st, hist, fired
vars == <<st, hist, fired>>

Kinds == ("custom" :> [k |-> "fixed"])
Keys == {<<"S", "a">>, <<"S", "b">>, <<"T", "a">>}
Vals == {"1", "2"}
Start == [cur |-> (<<"S", "a">> :> "1"), saved |-> (<<"S", "a">> :> "1"), hooks |-> <<>>]
Init == st = Start /\ hist = <<>> /\ fired = <<>>

Calls == {<<op, k[1], k[2], v>> : op \in {"set", "setDefault"}, k \in Keys, v \in Vals}
         \cup {<<"save", s, o, "">> : s \in {"", "S"}, o \in {"", "a"}}
         \cup {<<"getScribble", s, "", "">> : s \in {"", "S"}} \cup {<<"get", "S", "b", "">>}
         \cup {<<"hook", "S", "a", h>> : h \in {"h1", "h2", "off", "boom"}}
         \cup {<<"reload", "", "", "">>}
         \cup {<<"set", "custom", "a", "1">>}
Step(c) == LET r == Do(Kinds, st, c[1], c[2], c[3], c[4]) IN
           /\ st' = r.st
           /\ fired' = r.fired
           /\ hist' = Append(hist, c)
Next == Len(hist) < MaxSteps /\ \E c \in Calls : Step(c)
Spec == Init /\ [][Next]_vars

Last == IF hist = <<>> THEN <<"", "", "", "">> ELSE hist[Len(hist)]
\* the file only changes by saving, and then only to what is in force
SavedOnlyBySave == [][(st'.saved # st.saved => hist'[Len(hist')][1] \in {"save", "setDefault"})
                      /\ \A k \in DOMAIN st'.saved : (k \in DOMAIN st.saved /\ st'.saved[k] = st.saved[k]) \/ st'.saved[k] = st'.cur[k]]_vars
\* questions change nothing
ReadOnly == [][hist'[Len(hist')][1] \in {"get", "getScribble", "str"} => st' = st]_vars
\* a saved value survives a new session, an unsaved one does not
Restart == [][hist'[Len(hist')][1] = "reload" => st'.cur = st.saved /\ st'.saved = st.saved]_vars
\* nothing is ever lost from the file
Grows == [][DOMAIN st.saved \subseteq DOMAIN st'.saved]_vars
\* every change of value of a hooked option is announced, exactly once
Announced == [][\A k \in DOMAIN st.hooks :
                  (hist'[Len(hist')][1] \in {"set", "setDefault"} /\ k \in DOMAIN st.cur /\ st'.cur[k] # st.cur[k] /\ st.hooks[k] # "off")
                     => fired' = <<<<st.hooks[k], st'.cur[k]>>>>]_vars
StOnly == st
PlanOut == (Emit /\ Len(hist) = MaxSteps) => PrintT("PLAN|" \o ToString(hist))
=============================================================================
