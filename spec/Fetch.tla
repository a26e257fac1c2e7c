-------------------------------- MODULE Fetch --------------------------------
(***************************************************************************)
(* Fetching files from the web into local storage.                         *)
(*   srv    what the server offers: url -> body id, "gone" or "html"       *)
(*   disk   local files: <<location, path>> -> content id                  *)
(*   loc    the configured location                                        *)
(*   own    files the user wrote or changed                                *)
(* A url is <<path, directory, path without .gz or "">>: its path is where *)
(* the file is stored below the location.  A body id stands for the bytes  *)
(* sent; B maps body ids to <<kind, members>>, kind one of "plain" (the id *)
(* is its own content), "gz", "arc" (zip, tar, compressed tar) and "evil"  *)
(* (an archive with members outside of its directory or damaged members,   *)
(* never extracted); members are <<name, content id>> ("" for the single   *)
(* content of gz).                                                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
KindOf(B, id) == IF id \in DOMAIN B THEN B[id][1] ELSE "plain"
MembersOf(B, id) == IF id \in DOMAIN B THEN B[id][2] ELSE <<>>
Over(f, g) == [k \in DOMAIN f \cup DOMAIN g |-> IF k \in DOMAIN g THEN g[k] ELSE f[k]]

\* the files an archive or compressed file turns into: sequence of <<path, content>>
Parts(B, u, id) ==
    LET ms == MembersOf(B, id) IN
    CASE KindOf(B, id) = "arc" -> [i \in DOMAIN ms |-> <<u[2] \o ms[i][1], ms[i][2]>>]
      [] KindOf(B, id) = "gz"  -> <<<<IF u[3] # "" THEN u[3] ELSE u[1], ms[1][2]>>>>
      [] OTHER -> <<<<u[1], id>>>>
Files(loc, parts) == [k \in {<<loc, parts[i][1]>> : i \in DOMAIN parts} |->
                        (parts[CHOOSE i \in DOMAIN parts : <<loc, parts[i][1]>> = k])[2]]

\* outcome: ok ("yes"/"no"/"any"), ret (sequence of <<path, content>>), st, gets
Out(ok, ret, st, gets) == [ok |-> ok, ret |-> ret, st |-> st, gets |-> gets]
Refuse(st, gets) == Out("no", <<>>, st, gets)

\* how: "" as usual, "cut" the connection ends early, "full" no room for the
\* download, "tight" room for the download but not for what it contains
FetchFile(B, st, u, overwrite, how) ==
    LET key == <<st.loc, u[1]>>
        have == key \in DOMAIN st.disk
        body == Get(st.srv, u[1], "gone")
        here(parts) == [i \in DOMAIN parts |-> <<parts[i][1], st.disk[<<st.loc, parts[i][1]>>]>>]
    IN IF have /\ ~overwrite THEN
            LET id == st.disk[key] parts == Parts(B, u, id) IN
            IF \A i \in DOMAIN parts : <<st.loc, parts[i][1]>> \in DOMAIN st.disk /\ (parts[i][1] # u[1] \/ KindOf(B, id) # "gz")
            THEN Out("yes", here(parts), st, 0)
            ELSE Out("yes", parts, [st EXCEPT !.disk = Over(@, Files(st.loc, parts)),
                                              !.own = @ \ {<<st.loc, parts[i][1]>> : i \in DOMAIN parts}], 0)
       ELSE IF body = "html" THEN IF have THEN Out("any", <<>>, st, 1) ELSE Refuse(st, 0)
       ELSE IF body = "gone" THEN Refuse(st, 1)
       ELSE IF how \in {"cut", "full"} THEN Refuse(st, 1)
       ELSE LET parts == IF how = "tight" THEN <<<<u[1], body>>>> ELSE Parts(B, u, body)
                new == Over((key :> body), Files(st.loc, parts))
            IN Out("yes", parts, [st EXCEPT !.disk = Over(@, new), !.own = @ \ DOMAIN new], 1)

\* what the source holds, for a url that is stored
Truth(B, st, u) == Parts(B, u, st.disk[<<st.loc, u[1]>>])
\* an answer from local storage is what the source sent, unless the user
\* changed the files
Faithful(B, st, u, ret) ==
    LET parts == Truth(B, st, u) IN
    \A i \in DOMAIN ret : ret[i] = parts[i] \/ <<st.loc, ret[i][1]>> \in st.own

\* nimble.data of a url: always the current data of the server
Read(B, st, id, gets) ==
    LET ms == MembersOf(B, id) IN
    CASE KindOf(B, id) = "plain" -> Out("yes", <<<<"", id>>>>, st, gets)
      [] KindOf(B, id) = "gz"    -> Out("yes", <<<<"", ms[1][2]>>>>, st, gets)
      [] KindOf(B, id) = "arc"   -> IF Len(ms) = 1 THEN Out("yes", <<<<"", ms[1][2]>>>>, st, gets) ELSE Refuse(st, gets)
      [] OTHER -> Out("any", <<>>, st, gets)
LoadUrl(B, st, u, how) ==
    LET body == Get(st.srv, u[1], "gone") IN
    IF body \in {"gone", "html"} \/ how = "cut" THEN Refuse(st, 1) ELSE Read(B, st, body, 1)

\* a page which leads to files: all of them are fetched
RECURSIVE FetchAll(_, _, _, _)
FetchAll(B, st, us, overwrite) ==
    IF us = <<>> THEN Out("yes", <<>>, st, 1)
    ELSE LET r == FetchFile(B, st, us[1], overwrite, "") s == FetchAll(B, r.st, Tail(us), overwrite)
         IN IF r.ok # "yes" THEN Out(r.ok, <<>>, r.st, 0) ELSE Out(s.ok, r.ret \o s.ret, s.st, r.gets + s.gets)

Do(B, st, e) ==
    CASE e.op = "fetch"  -> FetchFile(B, st, e.u, e.over, e.how)
      [] e.op = "data"   -> LoadUrl(B, st, e.u, e.how)
      [] e.op = "load"   -> Read(B, st, st.disk[<<st.loc, e.id>>], 0)
      [] e.op = "page"   -> FetchAll(B, st, e.links, e.over)
      [] e.op = "serve"  -> Out("yes", <<>>, [st EXCEPT !.srv = Over(@, (e.u[1] :> e.id))], 0)
      [] e.op = "remove" -> Out("yes", <<>>, [st EXCEPT !.disk = [k \in DOMAIN @ \ {<<st.loc, e.id>>} |-> @[k]],
                                                        !.own = @ \ {<<st.loc, e.id>>}], 0)
      [] e.op = "write"  -> Out("yes", <<>>, [st EXCEPT !.disk = Over(@, (<<st.loc, e.u[1]>> :> e.id)), !.own = @ \cup {<<st.loc, e.u[1]>>}], 0)
      [] e.op = "locate" -> Out("yes", <<>>, [st EXCEPT !.loc = e.id], 0)
=============================================================================
