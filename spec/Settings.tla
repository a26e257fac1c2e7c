------------------------------ MODULE Settings ------------------------------
(***************************************************************************)
(* nimble.settings: what is in force in this session (cur), what is in the  *)
(* configuration file (saved), and the functions called on changes (hooks). *)
(* A state is [cur |-> key -> value, saved |-> key -> value,               *)
(*             hooks |-> key -> hook], a key is <<section, option>>.        *)
(* Every operator gives [st, exc, fired, ret]: the next state, whether an   *)
(* exception must ("yes"), must not ("no") or may ("any") be raised, and    *)
(* the hook calls, a sequence of <<hook, value>>.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Over(f, g, ks) == [x \in DOMAIN f \cup ks |-> IF x \in ks THEN g[x] ELSE f[x]]
Section(f, s) == {k \in DOMAIN f : k[1] = s}
Sections(f) == {k[1] : k \in DOMAIN f}

\* what may be set.  kinds: section -> [k |-> "iface", opts] | [k |-> "fixed"] | [k |-> "away"]
Settable(kinds, s, o) ==
    IF s \notin DOMAIN kinds THEN TRUE
    ELSE LET q == kinds[s] IN
         IF q.k = "iface" THEN o \in q.opts ELSE IF q.k = "away" THEN o = "location" ELSE FALSE

Same(st) == [st |-> st, exc |-> "no", fired |-> <<>>, must |-> TRUE, ret |-> <<"none">>]
Fail(st) == [Same(st) EXCEPT !.exc = "yes"]
HookOf(st, k) == IF k \in DOMAIN st.hooks THEN st.hooks[k] ELSE "none"

\* a hook is called once with the new value when the value changes; whether it
\* is called when the same value is set again is left open (must = FALSE).
Set(kinds, st, s, o, v) ==
    LET k == <<s, o>>
        h == HookOf(st, k)
        changed == k \notin DOMAIN st.cur \/ st.cur[k] # v
    IN IF ~Settable(kinds, s, o)
       THEN (IF changed \/ k \notin DOMAIN st.saved \/ st.saved[k] # v THEN Fail(st) ELSE [Same(st) EXCEPT !.exc = "any"])
       ELSE [st |-> [st EXCEPT !.cur = Put(@, k, v)],
             exc |-> IF h = "boom" THEN (IF changed THEN "yes" ELSE "any") ELSE "no",
             fired |-> IF h \in {"none", "off"} THEN <<>> ELSE <<<<h, v>>>>, must |-> changed, ret |-> <<"none">>]

Save(st, s, o) ==
    IF s = "" /\ o # "" THEN [Same(st) EXCEPT !.exc = "any"]
    ELSE LET ks == IF s = "" THEN DOMAIN st.cur
                   ELSE IF o = "" THEN Section(st.cur, s) ELSE {<<s, o>>} \cap DOMAIN st.cur
         IN [Same(st) EXCEPT !.st.saved = Over(st.saved, st.cur, ks)]

SetDefault(kinds, st, s, o, v) ==
    LET a == Set(kinds, st, s, o, v) IN
    IF a.exc # "no" THEN a ELSE [a EXCEPT !.st.saved = Put(st.saved, <<s, o>>, v)]

\* the values returned are given as sets of <<section, option, value>>
Triples(f, ks) == {<<k[1], k[2], f[k]>> : k \in ks}
Get(st, s, o) ==
    IF s = "" THEN (IF o # "" THEN Fail(st) ELSE [Same(st) EXCEPT !.ret = <<"all", Triples(st.cur, DOMAIN st.cur)>>])
    ELSE IF o = "" THEN (IF s \notin Sections(st.cur) THEN Fail(st) ELSE [Same(st) EXCEPT !.ret = <<"all", Triples(st.cur, Section(st.cur, s))>>])
    ELSE IF <<s, o>> \notin DOMAIN st.cur THEN Fail(st)
    ELSE [Same(st) EXCEPT !.ret = <<"val", st.cur[<<s, o>>]>>]

\* h: "off" disables, "bad" is not a function of one argument
Hook(st, s, o, h) ==
    IF HookOf(st, <<s, o>>) = "off" \/ h = "bad" THEN Fail(st)
    ELSE [Same(st) EXCEPT !.st.hooks = Put(st.hooks, <<s, o>>, h)]

\* a new session reads the file
Reload(st) == [Same(st) EXCEPT !.st = [cur |-> st.saved, saved |-> st.saved, hooks |-> <<>>]]

\* the options of an interface get a value if they have none
Sync(kinds, st, s, save) ==
    LET miss == {<<s, o>> : o \in kinds[s].opts} \ DOMAIN st.cur
        c == [x \in DOMAIN st.cur \cup miss |-> IF x \in miss THEN "" ELSE st.cur[x]]
        st1 == [st EXCEPT !.cur = c]
    IN IF save THEN Save(st1, s, "") ELSE Same(st1)

Do(kinds, st, op, s, o, v) ==
    CASE op = "set" -> Set(kinds, st, s, o, v)
      [] op = "setDefault" -> SetDefault(kinds, st, s, o, v)
      [] op = "save" -> Save(st, s, o)
      [] op \in {"get", "getScribble"} -> Get(st, s, o)
      [] op = "str" -> [Same(st) EXCEPT !.ret = <<"all", Triples(st.cur, DOMAIN st.cur)>>]
      [] op = "hook" -> Hook(st, s, o, v)
      [] op = "reload" -> Reload(st)
      [] op = "sync" -> Sync(kinds, st, s, v = "save")
=============================================================================
